"""C25: what is built and published is what is offered to each installer."""
from __future__ import annotations

import copy
import itertools
import json
import os
import shutil

import tomlkit

from mc import c05, ref, wheels
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points, text, vd
from mc.wheels import member
from mc.zygote import Zygote, file_api
from variantlib.api import check_variant_supported, get_variant_environment_dict, get_variants_by_priority
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "model_checking"
RULE = ("the model state is the set of wheels of a project with their variants, and the set of labels in its index; the transitions are making (from the "
        "plain wheel or another variant), unmaking, removing, indexing and adding to the index. All sequences up to the depth are run with the real commands, "
        "and after each step every platform's resolution of the real index is compared with the model's. Releases of every combination of providers and "
        "priorities are built, indexed (whole, in parts, and one by one) and resolved on every platform with every user configuration.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

DI = "pkg-1.0.dist-info"
BASE = "pkg-1.0-py3-none-any"
# what each plugin reports where: build machine, then the platforms
REPORT = {
    "aot": {"b": [["g", ["z"]], ["f", ["x", "y"]]], "p0": [["f", ["zz"]]], "p1": [], "p2": [["g", ["z"]], ["f", ["x"]]], "p3": [["f", ["x", "y"]]]},
    "inst": {"b": [["f", ["x", "y"]], ["g", ["z"]]], "p0": [["f", ["y", "x"]], ["g", ["z"]]], "p1": [["g", ["z"]]], "p2": [], "p3": [["f", ["x"]]]},
    "opt": {"b": [["f", ["x", "y"]], ["g", ["z"]]], "p0": [["f", ["y"]]], "p1": [["g", ["z"]], ["f", ["x", "y"]]], "p2": [["f", ["x"]]], "p3": []},
    "off": {"b": [["f", ["x", "y"]], ["g", ["z"]]], "p0": [["f", ["y"]]], "p1": [["f", ["x", "y"]]], "p2": [["f", ["x"]]], "p3": [["f", ["x"]]]},
}
ALL = [["f", ["x", "y"], False], ["g", ["z"], False]]
REC = {"f": ["y", "x"], "g": ["z"]}
PLATFORMS = ["p0", "p1", "p2", "p3"]
Z = {}


def setup(e):
    z = Z["z"] = Zygote(e)
    for v in ("b", *PLATFORMS):
        Z[v], _ = z.venv(v)
        for ns, by in REPORT.items():
            z.write_spec(v, ns, {"ns": ns, "all": ALL, "sup": [[f, vs, False] for f, vs in by[v]], "aot": True})
    install_entry_points(e)


def project(nss, feat=None, prop=None):
    doc = {"default-priorities": {"namespace": list(nss), "feature": copy.deepcopy(feat or {}), "property": copy.deepcopy(prop or {})}, "providers": {}}
    for ns in nss:
        if ns == "rec":
            doc["providers"][ns] = {"install-time": False}
            doc.setdefault("static-properties", {})[ns] = copy.deepcopy(REC)
            doc["default-priorities"]["feature"].setdefault(ns, [])
            fp = doc["default-priorities"]["feature"][ns]
            fp += [f for f in ("g", "f") if f not in fp]
        else:
            doc["providers"][ns] = {"requires": [f"req-{ns}"], "plugin-api": file_api(ns)}
            if ns == "aot":
                doc["providers"][ns]["install-time"] = False
            if ns == "opt":
                doc["providers"][ns]["optional"] = True
            if ns == "off":
                doc["providers"][ns]["enable-if"] = "python_version < '3'"
    return doc


def supported(doc, platform, optional):
    """what holds on a platform, in the order of the providers"""
    out = {}
    for ns in doc["providers"]:
        if ns == "rec":
            out[ns] = REC
        elif ns == "aot":
            out[ns] = dict(REPORT[ns]["b"])
        elif ns == "off" or ns == "opt" and not optional:
            continue
        else:
            out[ns] = dict(REPORT[ns][platform])
    return out


def metadata(doc):
    """what the published metadata has beyond the project's"""
    d = copy.deepcopy(doc)
    if "aot" in d["providers"]:
        d.setdefault("static-properties", {})["aot"] = dict(REPORT["aot"]["b"])
        fp = d["default-priorities"]["feature"].setdefault("aot", [])
        fp += [f for f, _ in REPORT["aot"]["b"] if f not in fp]
    return d


def universe(doc):
    """label or None, properties of the variants that can be built"""
    nss = [n for n in doc["providers"] if n != "off"]
    out = [(None, [])]
    one = [(n, f, v) for n in nss for f, v in (("f", "x"), ("f", "y"), ("g", "z"))]
    out += [(None if k % 3 else f"l{k}", [t]) for k, t in enumerate(one)]
    two = [(a, b) for a, b in itertools.combinations(one, 2) if a[:2] != b[:2]]
    out += [(None if k % 3 else f"t.{k}_", [b, a]) for k, (a, b) in enumerate(two) if len(nss) < 3 or k % 3 == 0]
    return out


def plain_wheel(d):
    meta = b"Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n"
    path = d / f"{BASE}.whl"
    wheels.build(path, [member("pkg/__init__.py", "x = 1\n"), member(f"{DI}/METADATA", meta),
                        member(f"{DI}/RECORD", f"{wheels.record_line('pkg/__init__.py', b'x = 1' + bytes([10]))}\n{wheels.record_line(DI + '/METADATA', meta)}\n{DI}/RECORD,,\n".encode())])
    return path


def run(*args):
    try:
        return cli(*map(str, args))
    except Exception as exc:  # noqa: BLE001
        return repr(exc), ""


def make(d, src, out, label, props):
    sys_exe, status = str(Z["b"]), None
    import sys
    old, sys.executable = sys.executable, sys_exe
    try:
        status = run("make-variant", "-f", src, "-o", out, "--no-isolation", "--pyproject-toml", d / "pyproject.toml",
                     *(["--variant-label", label] if label else []), *(["-p", *map(text, props)] if props else ["--null-variant"]))[0]
    finally:
        sys.executable = old
    check_eq(status, 0, f"making {label} {props}")
    return label or ref.label(props)


def meta_of(wheel):
    [data] = [m[1] for m in wheels.read(wheel) if wheels.name_of(m) == f"{DI}/variant.json"]
    return data


def offers(index, doc, have, what, cfgs=(None,), platforms=PLATFORMS, optionals=(False, True, ["opt"])):
    """resolve a published index on every platform; have: {label: properties}"""
    m = metadata(doc)
    m["variants"] = {lab: ref.packed(ps) for lab, ps in have.items()}
    n = 0
    for cfg in cfgs:
        c05.write_config(cfg)
        for p in platforms:
            for optional in optionals:
                if optional and "opt" not in doc["providers"]:
                    continue
                # the order in which the variants are listed does not matter
                want = c05.expect(m, cfg, supp=supported(doc, p, optional))
                kw = {"venv_python_executable": Z[p], "enable_optional_plugins": optional}
                got = get_variants_by_priority(variants_json=index, **kw)
                check_eq(list(got), want, f"{what}: labels offered on {p} (optional plugins: {optional}, configuration {cfg})")
                n += 1
    c05.write_config(None)
    return n


# ---------------------------------------------------------------------------------------------------- releases
def run_release(case):
    nss, feat, prop, cfgs = case
    doc = project(nss, feat, prop)
    d = env().fresh()
    out = d / "dist"
    out.mkdir()
    src = plain_wheel(d)
    (d / "pyproject.toml").write_text(tomlkit.dumps({"project": {"name": "pkg"}, "variant": doc}))
    have = {make(d, src, out, label, props): props for label, props in universe(doc)}
    check_eq(sorted(os.listdir(out)), sorted(f"{BASE}-{lab}.whl" for lab in have), "wheels built")
    check_eq(run("generate-index-json", "-d", out)[0], 0, "indexing")
    text_ = (out / "pkg-1.0-variants.json").read_text()
    index = json.loads(text_)
    steps = len(have) + 1
    steps += offers(index, doc, have, "index", cfgs)
    check_eq({lab: {k: {f: sorted(v) for f, v in fs.items()} for k, fs in x.items()} for lab, x in index["variants"].items()},
             {lab: {k: {f: sorted(v) for f, v in fs.items()} for k, fs in ref.packed(ps).items()} for lab, ps in have.items()}, "variants in the index")
    # each wheel by itself tells the same as the index
    infos = {lab: VariantDistInfo(meta_of(out / f"{BASE}-{lab}.whl"), lab) for lab in have}
    for p in PLATFORMS:
        kw = {"venv_python_executable": Z[p]}
        listed = list(get_variants_by_priority(variants_json=index, **kw))
        for lab, info in infos.items():
            check_eq(check_variant_supported(variant_info=info, **kw), lab in listed, f"wheel {lab} supported on {p}")
            alone = get_variants_by_priority(variants_json=info, **kw)
            check_eq(list(alone), [x for x in listed if x == lab] + (["null"] if lab != "null" else []), f"wheel {lab} resolved by itself on {p}")
            steps += 2
    for lab, props in have.items():
        check_eq(get_variant_environment_dict(infos[lab].variant_desc, lab), {
            "variant_label": lab, "variant_properties": {text(t) for t in props}, "variant_features": {text(t[:2]) for t in props}, "variant_namespaces": {t[0] for t in props}},
            f"marker environment of {lab}")
    # one by one, forwards and backwards, gives the same index
    for order in (sorted(have), sorted(have)[::-1], list(have)):
        inc = d / "inc"
        inc.mkdir()
        for lab in order:
            j = inc / "pkg-1.0-variants.json"
            check_eq(run("add-wheel-to-index-json", "-f", out / f"{BASE}-{lab}.whl", "-o", inc, *(["-i", j, "--overwrite"] if j.exists() else []))[0], 0, f"adding {lab}")
            steps += 1
        check_eq(j.read_text(), text_, f"index built one by one in the order {order}")
        shutil.rmtree(inc)
    # parts of the release
    part = d / "part"
    labs = sorted(have)
    for keep in [labs[:1], labs[-1:], labs[::2], labs[1::2], labs[1:], labs[:-1], [x for x in labs if x != "null"]]:
        if not keep:
            continue
        part.mkdir()
        for lab in keep:
            os.link(out / f"{BASE}-{lab}.whl", part / f"{BASE}-{lab}.whl")
        check_eq(run("generate-index-json", "-d", part)[0], 0, "indexing a part")
        some = {lab: have[lab] for lab in keep}
        steps += 1 + offers(json.loads((part / "pkg-1.0-variants.json").read_text()), doc, some, f"index of {keep}", cfgs[:1], optionals=(False, True))
        shutil.rmtree(part)
    shutil.rmtree(d)
    return Outcome(json.dumps([nss, feat, prop]), states=[(json.dumps(case), tuple(sorted(have)))], transitions=steps, traces=1)


CFGS = [None, {"ns": ["opt", "inst"]}, {"ns": ["rec"], "fp": {"aot": ["f"], "inst": ["g"]}}, {"pp": {"aot": {"f": ["y"]}, "inst": {"f": ["x"]}, "rec": {"f": ["x", "q"]}}},
        {"ns": ["inst", "aot", "rec", "opt"], "fp": {"inst": ["g", "f"], "opt": ["g"]}, "pp": {"inst": {"f": ["y", "x"]}, "opt": {"f": ["y"]}}}]
FEAT = [{}, {"inst": ["g"], "aot": ["f", "q"]}, {"inst": ["f", "g"], "opt": ["g", "f"], "rec": ["f"]}]
PROP = [{}, {"inst": {"f": ["x"]}, "aot": {"f": ["y", "x"]}, "rec": {"f": ["x"]}}, {"opt": {"f": ["y"]}, "inst": {"f": ["q", "y"], "g": []}}]


def gen_release(tier):
    def gen():
        k = itertools.count()
        kinds = ["aot", "inst", "opt", "rec", "off"]
        orders = [list(c) for n in (1, 2) for c in itertools.permutations(kinds, n)]
        orders += [list(c) for c in (itertools.permutations(kinds, 3) if tier != "quick" else itertools.combinations(kinds, 3))] + [kinds, kinds[::-1]]
        for nss in orders:
            variants = list(itertools.product(FEAT, PROP)) if tier != "quick" else [(FEAT[next(k) % 3], PROP[(next(k) // 2) % 3])]
            for f, p in variants:
                if tier != "quick" and len(nss) > 2 and next(k) % 3:
                    continue
                yield [nss, {n: v for n, v in f.items() if n in nss}, {n: v for n, v in p.items() if n in nss}, CFGS if tier != "quick" else [CFGS[next(k) % 5], CFGS[(next(k) // 3) % 5]]]
    return gen


# ----------------------------------------------------------------------------------------------------- life cycle
NSS = ["inst", "aot", "opt"]
V = [(None, [("inst", "f", "y")]), ("lab", [("aot", "f", "x"), ("inst", "g", "z")]), (None, [])]
OPS = [("make", 0), ("make", 1), ("make", 2), ("remake", 0), ("remake", 1), ("remake", 2), ("unmake", 0), ("unmake", 1), ("remove", 0), ("remove", 1), ("remove", 2), ("index",), ("add", 0), ("add", 1), ("add", 2)]
LAB = [label or ref.label(props) for label, props in V]


def run_life(case):
    first, tail = case
    doc = project(NSS, FEAT[1], PROP[1])
    doc["default-priorities"]["feature"].pop("rec", None), doc["default-priorities"]["property"].pop("rec", None)
    made = Z.setdefault("made", {})
    if not made:
        d = made["d"] = env().fresh("made")
        (d / "pyproject.toml").write_text(tomlkit.dumps({"variant": doc}))
        made["src"] = plain_wheel(d)
        made["orig"] = wheels.read(made["src"])
    states, steps, traces = set(), 0, 0

    def enabled(have, op):
        if op[0] in ("unmake", "remove", "add"):
            return LAB[op[1]] in have
        if op[0] == "remake":
            return any(lab != LAB[op[1]] for lab in have)
        if op[0] == "index":
            return bool(have)
        return True

    def step(out, have, index, op):
        """-> new index"""
        j = out / "pkg-1.0-variants.json"
        d = made["d"]
        if op[0] in ("make", "remake"):
            src = made["src"]
            if op[0] == "remake":
                src = out / f"{BASE}-{sorted(lab for lab in have if lab != LAB[op[1]])[0]}.whl"
            got = make(d, src, out, *V[op[1]])
            check_eq(got, LAB[op[1]], "label")
            have[got] = V[op[1]][1]
        elif op[0] == "unmake":
            check_eq(run("unmake-variant", "-f", out / f"{BASE}-{LAB[op[1]]}.whl", "-o", out)[0], 0, "unmaking")
            check_eq(wheels.read(out / f"{BASE}.whl"), made["orig"], "the wheel restored")
            (out / f"{BASE}.whl").unlink()
        elif op[0] == "remove":
            (out / f"{BASE}-{LAB[op[1]]}.whl").unlink()
            del have[LAB[op[1]]]
        elif op[0] == "index":
            check_eq(run("generate-index-json", "-d", out)[0], 0, "indexing")
            index = dict(have)
        else:
            r = run("add-wheel-to-index-json", "-f", out / f"{BASE}-{LAB[op[1]]}.whl", "-o", out, *(["-i", j, "-w"] if index is not None else []))
            check_eq(r[0], 0, f"adding {LAB[op[1]]}")
            index = {**(index or {}), LAB[op[1]]: V[op[1]][1]}
        check_eq(sorted(p.name for p in out.iterdir()), sorted([f"{BASE}-{lab}.whl" for lab in have] + ([j.name] if index is not None else [])), f"files after {op}")
        if index is not None:
            text_ = j.read_text()
            check_eq(sorted(json.loads(text_)["variants"]), sorted(index), f"labels in the index after {op}")
            if Z.setdefault("texts", {}).setdefault(tuple(sorted(index)), text_) != text_:
                check_eq(text_, Z["texts"][tuple(sorted(index))], f"index after {op}, compared with that of another history with the same result")
            offers(json.loads(text_), doc, index, f"after {op}", platforms=("p0", "p3"), optionals=(False,))
        return index

    def explore(todo, out, have, index, trail):
        nonlocal steps, traces
        states.add((tuple(sorted(have)), tuple(sorted(index)) if index is not None else None))
        if not todo:
            traces += 1
            return
        options = [todo[0]] if todo[0] is not None else OPS
        for op in options:
            op = tuple(op)
            if not enabled(have, op):
                continue
            new = env().root / f"life{len(trail)}"
            shutil.copytree(out, new)
            h = dict(have)
            i = step(new, h, index, op)
            steps += 1
            explore(todo[1:], new, h, i, trail + [op])
            shutil.rmtree(new)

    start = env().root / "lifestart"
    start.mkdir()
    explore([*first, *[None] * tail], start, {}, None, [])
    shutil.rmtree(start)
    return Outcome((case,), states=states, transitions=steps, traces=traces)


def gen_life(tier):
    def gen():
        n = 1 if tier == "quick" else 3
        starts = [("make", 0), ("make", 1), ("make", 2)]
        for a in starts:
            for b in OPS:
                for c in OPS:
                    yield [[a, b, c], n]
    return gen


def spaces(tier):
    return [
        Space("releases", gen_release(tier), run_release, setup=setup),
        Space("life cycle", gen_life(tier), run_life, setup=setup),
    ]
