"""C19: ahead-of-time providers are recorded completely at build time."""
from __future__ import annotations

import copy
import itertools
import json
import os
import shutil
import subprocess
import sys

import build.env
import tomlkit

from mc import c12, c16, ref, wheels
from mc.core import Outcome, Space, check, check_eq, env, in_child
from mc.util import KEYWORDS, NAMES, cli, install_entry_points, pairs, snap, subsets, text, vd
from mc.wheels import member
from mc.zygote import Zygote, api, file_api
from variantlib.api import get_variants_by_priority, make_variant_dist_info
from variantlib.errors import ValidationError
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo

LEVEL = "exploration"
RULE = ("every ordered report of a plugin over two or three features with one or two values, every multi-value and fitness flag, every project priority and "
        "every request; every combination of providers of all kinds; every isolation mode with environments in which the plugins differ; all variants over "
        "the properties resolved with the metadata and with the plugins. An outcome is the metadata or the refusal.")
ASSUMPTIONS = ["the isolated environment is a stand-in for that of the 'build' package, into which installing a requirement puts a plugin",
               "stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

Z = {}


def setup(e):
    Z["z"] = Zygote(e)
    Z["py"], Z["site"] = Z["z"].venv("v")
    install_entry_points(e)
    sys.executable = str(Z["py"])


def record(doc, sup, props, label, disabled=()):
    """-> the document to be written, or None if it has to be refused; sup: {ns: (features, aot)}"""
    d = copy.deepcopy(doc)
    static, fp = d.setdefault("static-properties", {}), d["default-priorities"].setdefault("feature", {})
    for ns, p in d["providers"].items():
        if p.get("install-time", True) or not p.get("requires"):
            continue
        static[ns] = {}
        if ns in disabled:
            feats = []
        else:
            feats, aot = sup[ns]
            if aot is not True or any(m for _, _, m in feats):
                return None
        for f, values, _ in feats:
            static[ns][f] = list(values)
        if len(feats) > 1:
            fp[ns] = list(fp.get(ns, [])) + [f for f, _, _ in feats if f not in fp.get(ns, [])]
        if any(v not in static[ns].get(f, []) for n, f, v in props if n == ns):
            return None
    d["variants"] = {label or ref.label(props): ref.packed(props)}
    return d


def judge(out, want, props, label, what):
    if out is None or want is None:
        check(out is None and want is None, lambda: f"{what}: {'refused' if out is None else out}, expected {'a refusal' if want is None else want}")
        return "refused"
    info = VariantDistInfo(out, label or ref.label(props))
    check_eq(c12.plain(info), c12.expected(want), f"{what}: metadata")
    check_eq(c12.variants_of(info), c12.want_variants(want), f"{what}: variant")
    return json.dumps(c12.expected(want), sort_keys=True) + str(c12.want_variants(want))


def write(doc, props, label=None, py=True):
    """-> text or None"""
    info = VariantPyProjectToml({"variant": copy.deepcopy(doc)})
    before = snap(info)
    try:
        out = make_variant_dist_info(vd(props), info, variant_label=label, venv_python_executable=Z["py"] if py else None)
    except Exception:  # noqa: BLE001
        out = None
    check_eq(snap(info), before, "the project's information was modified")
    return out


def provider(ns, feats, aot=True, **more):
    return {"plugin-api": api({"ns": ns, "all": feats, "sup": feats, "aot": aot, "i": 20}), "requires": [f"req-{ns}"], "install-time": False, **more}


# ------------------------------------------------------------------------------------------------- one provider
def run_one(case):
    feats, prio, aot = case
    p = provider("a", feats, aot)
    if aot is None:
        p["plugin-api"] = api({"ns": "a", "all": feats, "sup": feats, "i": 21})
    doc = {"default-priorities": {"namespace": ["a"], "feature": {"a": prio} if prio is not None else {}, "property": {"a": {"f": ["y"]}}}, "providers": {"a": p}}
    outs = []
    uni = [("a", f, v) for f in ("f", "g", "q") for v in ("x", "y")]
    sets = [(), *([t] for t in uni), [("b", "f", "x")], uni[:1] + uni[2:3], uni[:2], [("a", "f", "x"), ("b", "f", "x")]]
    for k, props in enumerate(sets):
        label = None if not props else [None, "lab"][k % 2]
        outs.append(judge(write(doc, props, label), record(doc, {"a": (feats, aot)}, props, label), props, label, f"{props}"))
    return Outcome(outs, evaluations=len(outs))


def reports(values, names):
    """ordered reports"""
    vs = [list(p) for n in range(1, len(values) + 1) for p in itertools.permutations(values, n)]
    for n in range(len(names) + 1):
        for fs in itertools.permutations(names, n):
            for combo in itertools.product(vs, repeat=n):
                yield [[f, v, False] for f, v in zip(fs, combo)]


def gen_one(tier):
    def gen():
        prios = [None, [], ["f"], ["g"], ["g", "f"], ["f", "g"], ["q"], ["q", "g"]]
        for feats in reports(["x", "y"], ["f", "g"] if tier == "quick" else ["f", "g", "q"]):
            if len(feats) == 3 and sum(len(v) for _, v, _ in feats) > 4:
                continue
            for prio in prios:
                yield [feats, prio, True]
            yield [feats, prios[2], False]
            yield [feats, prios[2], None]
            for i in range(len(feats)):
                multi = [[f, v, k == i] for k, (f, v, _) in enumerate(feats)]
                yield [multi, prios[2], True]
        n = 12
        yield [[[f"f{(i * 5) % n}", [f"v{(j * 7) % n}" for j in range(n)], False] for i in range(n)], ["f3", "f11"], True]
        yield [[["f", [f"v{(j * 7) % 40}" for j in range(40)], False]], None, True]
        for n in (9, 17, 33, 65, 129, 257):
            yield [[["f", [f"v{(j * 8) % n}" for j in range(n - 2)] + ["x", "y"], False], ["g", ["x"], False]], None, True]
            feats = [[f"f{(i * 8) % n}", ["x"], False] for i in range(n - 2)] + [["g", ["y"], False], ["f", ["y", "x"], False]]
            for at in (0, 1, n // 2, n - 1):
                # moved to that position
                yield [feats[:at] + feats[-1:] + feats[at:-1], ["f", "f3"] if at != 1 else None, True]
                yield [[[f, v, i == at] for i, (f, v, _) in enumerate(feats)], [f"f{i}" for i in range(0, n, 2)], True]
            yield [feats, [f"f{i}" for i in range(n)][::-1], True]
    return gen


# ------------------------------------------------------------------------------------------- several providers
KINDS = {
    # namespace: (options, plugin report, fit, disabled)
    "aot": ({}, [["g", ["x", "y"], False], ["f", ["y"], False]], True, False),
    "opt": ({"optional": True}, [["f", ["x"], False]], True, False),
    "off": ({"enable-if": "python_version < '3'"}, [["f", ["x"], False]], True, True),
    "on": ({"enable-if": "python_version > '3'"}, [["h", ["x"], False], ["f", ["1"], False], ["g", ["x"], False]], True, False),
    "nil": ({}, [], True, False),
    "unfit": ({}, [["f", ["x"], False]], False, False),
    "unfitoff": ({"enable-if": "python_version < '3'"}, [["f", ["x"], False]], False, True),
    "multi": ({}, [["f", ["x"], True]], True, False),
    "inst": ({"install-time": True}, [["f", ["x", "y"], False]], None, False),
    "unfitinst": ({"install-time": True, "optional": True}, [["f", ["x", "y"], True]], False, False),
    "rec": (None, None, None, False),
}


def project(nss, fp=True):
    doc = {"default-priorities": {"namespace": list(nss), "feature": {}, "property": {}}, "providers": {}, "static-properties": {}}
    sup, disabled = {}, set()
    for ns in nss:
        opts, feats, aot, off = KINDS[ns]
        if opts is None:
            doc["providers"][ns] = {"install-time": False}
            doc["static-properties"][ns] = {"f": ["y", "x"], "g": ["z"]}
            doc["default-priorities"]["feature"][ns] = ["g", "f"]
            continue
        doc["providers"][ns] = {**provider(ns, feats, aot), **opts}
        sup[ns] = (feats, aot)
        if off:
            disabled.add(ns)
        if fp and ns in ("aot", "inst", "off"):
            doc["default-priorities"]["feature"][ns] = ["f"]
            doc["default-priorities"]["property"][ns] = {"f": ["y", "zz"], "q": ["1"]}
    return doc, sup, disabled


def run_several(case):
    nss, fp = case
    doc, sup, disabled = project(nss, fp)
    outs = []
    uni = [(ns, f, v) for ns in nss for f, v in (("f", "x"), ("f", "y"), ("g", "x"), ("q", "x"))]
    sets = [[], *[[t] for t in uni], [("none", "f", "x")], *[list(s) for s in itertools.islice(subsets(uni, 2, 2), 0, None, 5)], uni]
    for props in sets:
        Z["z"].log("v")
        outs.append(judge(write(doc, props), record(doc, sup, props, None, disabled), props, None, f"{props}"))
        asked = {line.split()[-1] for line in Z["z"].log("v")}
        check(not asked & disabled, lambda: f"disabled plugins were run: {asked & disabled}")
    return Outcome(outs, evaluations=len(outs))


def gen_several(tier):
    def gen():
        good = [n for n in KINDS if n not in ("unfit", "multi")]
        for n in range(0, 4 if tier == "quick" else 5):
            for nss in subsets(KINDS, n, n):
                if n > 2 and sum(x in ("unfit", "multi") for x in nss) + (n > 3) > 1:
                    continue
                yield [nss, True]
                if n <= 2:
                    yield [nss, False]
                    yield [nss[::-1], True]
        yield [good, True]
        yield [good[::-1], True]
    return gen


# ------------------------------------------------------------------------------------------------------ names
def run_names(case):
    (n1, n2), (f1, f2), (v1, v2) = case
    doc = {"default-priorities": {"namespace": [n2, n1], "feature": {n1: [f2]}, "property": {n1: {f1: [v2]}}}, "providers": {}}
    sup = {n1: ([[f1, [v2, v1], False], [f2, [v1], False]], True), n2: ([[f2, [v2], False]], True)}
    for n in (n1, n2):
        doc["providers"][n] = provider(n, sup[n][0])
    outs = []
    uni = [(n, f, v) for n in (n1, n2) for f in (f1, f2) for v in (v1, v2)]
    for props in [[], *[[t] for t in uni], uni[:1] + uni[7:]]:
        outs.append(judge(write(doc, props), record(doc, sup, props, None), props, None, f"{props}"))
    return Outcome((case, outs), evaluations=len(outs))


def gen_names(tier):
    def gen():
        ns = ["a", "aa", "a_a", "_", "1"] if tier == "quick" else [*NAMES, *KEYWORDS]
        for n in pairs(ns):
            for f in pairs(["a", "aa", "namespace"] if tier == "quick" else ["a", "aa", "a_", "1", "namespace"]):
                yield [n, f, ("a", "aa")]
                yield [n, f, ("1.0", "1")]
    return gen


# --------------------------------------------------------------------------------------------------- resolution
def run_resolve(case):
    fa, fb, fp, pp = case
    doc = {"default-priorities": {"namespace": ["b", "a"], "feature": fp, "property": pp}, "providers": {"a": provider("a", fa), "b": provider("b", fb)}}
    sup = {"a": (fa, True), "b": (fb, True)}
    want = record(doc, sup, [], None)
    out = write(doc, [])
    judge(out, want, [], None, "null variant")
    uni = [("a", "f", "x"), ("a", "f", "y"), ("a", "g", "x"), ("b", "f", "x"), ("b", "f", "y"), ("b", "g", "x")]
    sets = [s for s in subsets(uni, 0, 2)] + [tuple(uni[::2]), tuple(uni[1::2]), tuple(uni)]
    variants = {ref.label(s): ref.packed(s) for s in sets}
    index = json.loads(out)
    index["variants"] = variants
    Z["z"].log("v")
    got = get_variants_by_priority(variants_json=copy.deepcopy(index))
    log = Z["z"].log("v")
    check_eq(log, [], "plugins run when resolving with the recorded properties")
    # the same at installation time
    live = copy.deepcopy(doc)
    for p in live["providers"].values():
        p["install-time"] = True
    live["variants"] = variants
    check_eq(list(got), list(get_variants_by_priority(variants_json=live, venv_python_executable=Z["py"])), "resolved with the recorded properties, and with the plugins")
    supported = [(n, f, v) for n in ("b", "a") for f, vs, _ in sup[n][0] for v in vs]
    order = ref.resolve([tuple(sorted(s)) for s in sets], supported, ["b", "a"], {n: list(v) for n, v in fp.items()}, pp)
    check_eq(list(got), [ref.label(v) for v in order], "resolved variants")
    return Outcome((len(got), tuple(got)), evaluations=3)


def gen_resolve(tier):
    def gen():
        rs = list(reports(["x", "y"], ["f", "g"]))
        if tier == "quick":
            rs = [r for r in rs if len(r) != 2 or r[1][1] == ["x"]]
        k = itertools.count()
        fps = [{}, {"a": ["f"]}, {"a": ["g"]}, {"a": ["g", "f"], "b": ["g"]}, {"b": ["f", "g"]}, {"a": ["q", "f"], "b": []}]
        pps = [{}, {"a": {"f": ["y"]}}, {"a": {"g": ["x"]}, "b": {"f": ["y", "x"]}}]
        for fa in rs:
            for fb in rs:
                i = next(k)
                for fp in fps if tier != "quick" else [fps[i % 6]]:
                    yield [fa, fb, fp, pps[i % 3]]
    return gen


# --------------------------------------------------------------------------------------------------- isolation
LOG = []
ISO = {"aot": [["f", ["ix", "both"], False], ["g", ["ix"], False]], "inst": [["f", ["ix", "both"], False]], "extra": [["f", ["ix"], False]]}
HOST = {"aot": [["g", ["hx"], False], ["f", ["hx", "both"], False], ["e", ["hx"], False]], "inst": [["f", ["hx", "both"], False]], "extra": [["f", ["hx"], False]]}


def setup_isolation(e):
    setup(e)
    z = Z["z"]
    Z["iso"], Z["isosite"] = z.venv("iso")
    for n, feats in HOST.items():
        z.write_spec("v", n, {"ns": n, "all": feats, "sup": feats, "aot": True})
    cls = build.env.DefaultIsolatedEnv

    def init(self, *, installer="pip"):
        LOG.append(("init", installer))
        self.installer = installer

    def enter(self):
        LOG.append(("enter",))
        return self

    def leave(self, *a):
        LOG.append(("exit",))
        for n in ISO:
            (Z["isosite"] / f"spec_{n}.json").unlink(missing_ok=True)

    def install(self, requirements):
        LOG.append(("install", sorted(requirements)))
        if not requirements:
            return
        if Z.get("fail"):
            raise subprocess.CalledProcessError(1, ["pip"], output=b"", stderr=b"no such thing\xff" if Z["fail"] == 2 else b"no such thing")
        for n, feats in ISO.items():
            if f"req-{n} >= 1" in requirements:
                z.write_spec("iso", n, {"ns": n, "all": feats, "sup": feats, "aot": True})
    cls.__init__, cls.__enter__, cls.__exit__, cls.install = init, enter, leave, install
    cls.python_executable = property(lambda self: str(Z["iso"]))


def run_isolation(case):
    # plugin results are kept per process
    return in_child(lambda: isolated(case))


def isolated(case):
    nss, mode, props, skip, fail = case
    z = Z["z"]
    d = env().fresh()
    (d / "out").mkdir()
    wheels.build(d / "pkg-1-py3-none-any.whl", [member("pkg.py", "x"), member("pkg-1.dist-info/METADATA", "Name: pkg\n"), member("pkg-1.dist-info/RECORD", "pkg.py,,\n")])
    doc = {"default-priorities": {"namespace": list(nss), "feature": {"aot": ["g"]} if "aot" in nss else {}, "property": {}}, "providers": {}, "static-properties": {}}
    for n in nss:
        if n == "rec":
            doc["providers"][n] = {"install-time": False}
            doc["static-properties"][n] = {"f": ["ix", "hx", "both"]}
        else:
            doc["providers"][n] = {"requires": [f"req-{n} >= 1", "common"], "plugin-api": file_api(n), "install-time": n == "inst", "optional": n == "extra"}
    (d / "pyproject.toml").write_text(tomlkit.dumps({"variant": doc}))
    args = ["make-variant", "-f", d / "pkg-1-py3-none-any.whl", "-o", d / "out", "--pyproject-toml", d / "pyproject.toml", *(["--no-isolation"] if mode == "none" else ["--installer", mode] if mode else [])]
    args += ["-p", *[text(p) for p in props]] if props else ["--null-variant"]
    if skip:
        args += ["--skip-plugin-validation"]
    Z["fail"] = fail
    LOG.clear()
    z.log("v"), z.log("iso")
    try:
        status = cli(*map(str, args))[0]
    except Exception as exc:  # noqa: BLE001
        status = repr(exc)
    host, iso = z.log("v"), z.log("iso")
    world = HOST if mode == "none" else ISO
    sup = {n: (world[n], True) for n in nss if n != "rec"}
    want = record(doc, sup, props, None)
    used = {p[0] for p in props}
    queried = {n for n in nss if n != "rec" and (not doc["providers"][n]["install-time"] or (not skip and n in used))}
    if not skip and props:
        static = {**{n: {f: v for f, v, _ in world[n]} for n in world}, "rec": {"f": ["ix", "hx", "both"]}}
        if any(n not in nss or v not in static[n].get(f, []) for n, f, v in props):
            want = None
    if fail and mode != "none" and queried:
        want = None
    made = os.listdir(d / "out")
    check_eq((status == 0), want is not None, f"success (status {status})")
    check_eq(made, [f"pkg-1-py3-none-any-{ref.label(props)}.whl"] if want is not None else [], "wheels made")
    if want is not None:
        [data] = [m[1] for m in wheels.read(d / "out" / made[0]) if wheels.name_of(m).endswith("variant.json")]
        judge(data, want, props, None, f"{case}")
    kinds = [e[0] for e in LOG]
    check(not queried or mode == "none" or host == [], lambda: f"plugins were run outside of the isolated environment: {host}")
    check(mode != "none" or (iso == [] and kinds == []), lambda: f"an isolated environment was used in spite of --no-isolation: {kinds}")
    if mode != "none" and queried and want is not None:
        check(bool(iso), "no plugin was run in the isolated environment")
        check({r for e in LOG if e[0] == "install" for r in e[1]} >= {r for n in queried for r in doc["providers"][n]["requires"]}, lambda: f"installed: {LOG}")
    check_eq(kinds.count("enter"), kinds.count("exit"), "isolated environments entered and left")
    if mode in ("pip", "uv") and "init" in kinds:
        check_eq({e[1] for e in LOG if e[0] == "init"}, {mode}, "installer")
    shutil.rmtree(d)
    return (case, want is not None)



def gen_isolation(tier):
    def gen():
        for nss in subsets(["aot", "inst", "extra", "rec"], 0, 4):
            sets = [[], *[[(n, "f", v)] for n in (*nss, "zz") for v in ("ix", "hx", "both")], *[[(n, "f", "both"), (m, "f", "both")] for n, m in itertools.combinations([x for x in nss if x != "extra"], 2)]]
            sets += [[(n, "f", "ix") for n in nss]] if len(nss) > 1 else []
            for props in sets:
                for mode in ("", "pip", "uv", "none"):
                    for skip in (False, True):
                        if tier == "quick" and mode in ("pip", "uv") and props and (skip or props[0][2] != "ix"):
                            continue
                        yield [nss, mode, props, skip, 0]
                for mode in ("", "none"):
                    for fail in (1, 2):
                        if not props or props[0][2] == "both":
                            yield [nss, mode, props, False, fail]
    return gen


def spaces(tier):
    return [
        Space("one", gen_one(tier), run_one, setup=setup),
        Space("several", gen_several(tier), run_several, setup=setup),
        Space("names", gen_names(tier), run_names, setup=setup),
        Space("resolve", gen_resolve(tier), run_resolve, setup=setup),
        Space("isolation", gen_isolation(tier), run_isolation, setup=setup_isolation),
    ]
