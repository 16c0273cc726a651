"""C05: end-to-end resolution returns exactly the supported labels, best first."""
from __future__ import annotations

import copy
import itertools
import json
import os

from mc import ref
from mc.core import Outcome, Space, Violation, check, check_eq, env
from mc.util import ADJ, COLL, KEYWORDS, NAMES, pairs, snap, vd
from mc.zygote import Zygote, api
from variantlib.api import check_variant_supported, get_variants_by_priority
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("all combinations of user configuration, package defaults, provider order and index contents over a small universe, all subsets of an "
        "index, all short histories of calls, installed packages, and plugins queried in stand-in interpreters; every answer compared with an "
        "independent resolver. An outcome is the list of labels.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

SUPP = {"a": {"f": ["x", "y"], "g": ["u", "v"]}, "b": {"f": ["x", "w"]}}
VARS = [
    ("zz", [("a", "f", "x")]), ("ay", [("a", "f", "y")]), ("m.1", [("a", "f", "x"), ("a", "f", "y")]), ("0", [("a", "g", "u")]),
    ("gv", [("a", "g", "v")]), ("bx", [("b", "f", "x")]), ("bw", [("b", "f", "w")]), ("axbw", [("a", "f", "x"), ("b", "f", "w")]),
    ("aygu", [("a", "f", "y"), ("a", "g", "u")]), ("nope", [("a", "f", "q")]), ("half", [("a", "f", "q"), ("a", "f", "x")]),
    ("part", [("a", "f", "x"), ("b", "f", "q")]), ("other", [("c", "f", "x")]), ("nofeat", [("b", "g", "u")]),
]


def write_config(cfg):
    p = env().root / "cwd" / "variants.toml"
    if cfg is None:
        p.unlink(missing_ok=True)
        return
    lines = []
    if "ns" in cfg:
        lines.append("namespace_priorities = " + json.dumps(cfg["ns"]))
    for key, name in (("fp", "feature_priorities"), ("pp", "property_priorities")):
        if key in cfg:
            lines.append(f"[{name}]")
            for ns, v in cfg[key].items():
                if key == "fp":
                    lines.append(f"{ns} = {json.dumps(v)}")
                else:
                    for f, vals in v.items():
                        lines.append(f"{ns}.{f} = {json.dumps(vals)}")
    p.write_text("\n".join(lines) + "\n")


def make_index(variants, pkg, supp, null=False):
    """all providers ahead-of-time: their support is recorded in the index"""
    prio = {"namespace": list(pkg["ns"])}
    fp = {k: list(v) for k, v in pkg.get("fp", {}).items()}
    for n, fs in supp.items():
        if len(fs) > 1:
            fp[n] = ref.merge_lists(fp.get(n, []), list(fs))
    if fp:
        prio["feature"] = fp
    if "pp" in pkg:
        prio["property"] = copy.deepcopy(pkg["pp"])
    d = {"default-priorities": prio, "providers": {n: {"install-time": False} for n in pkg["ns"]},
         "static-properties": {n: copy.deepcopy(supp.get(n, {})) for n in pkg["ns"]},
         "variants": {lab: ref.packed(ps) for lab, ps in variants}}
    if null:
        d["variants"]["null"] = {}
    return d


def expect(index, cfg, abi=(), supp=None, enabled=None):
    """reference resolution of a packed index -> labels"""
    cfg = cfg or {}
    prio = index["default-priorities"]
    supp = supp if supp is not None else index.get("static-properties", {})
    sup = [(n, f, v) for n, fs in supp.items() for f, vs in fs.items() for v in vs] + list(abi)
    nsp = ref.merge_lists(cfg.get("ns", []), prio["namespace"], ["abi_dependency"])
    fp = ref.merge_feat(cfg.get("fp", {}), prio.get("feature", {}))
    pp = ref.merge_prop(cfg.get("pp", {}), prio.get("property", {}))
    vs = {lab: tuple(ref.unpacked(d)) for lab, d in index["variants"].items()}
    labels = {frozenset(v): lab for lab, v in vs.items()}
    labels.setdefault(frozenset(), "null")
    return [labels[frozenset(v)] for v in ref.resolve(list(vs.values()), sup, nsp, fp, pp)]


def resolve_all(index, cfg, abi=(), supp=None, **kw):
    """all public ways to ask, checked against each other"""
    want = expect(index, cfg, abi, supp)
    before = copy.deepcopy(index)
    got = get_variants_by_priority(variants_json=index, **kw)
    check_eq(got, want, "get_variants_by_priority(dict)")
    check(index == before and json.dumps(index) == json.dumps(before), "the index passed in was modified")
    obj = VariantsJson(index)
    s = snap(obj)
    check_eq(get_variants_by_priority(variants_json=obj, **kw), want, "get_variants_by_priority(VariantsJson)")
    check(snap(obj) == s, "the VariantsJson passed in was modified")
    got.append("clobbered")
    check_eq(get_variants_by_priority(variants_json=obj, **kw), want, "second call")
    return want, obj


def check_supported(index, obj, want, **kw):
    for lab, d in obj.variants.items():
        s = snap((d, obj))
        r = check_variant_supported(vdesc=d, variant_info=obj, **kw)
        check(r is (lab in want), lambda: f"check_variant_supported({lab}) is {r}, resolution lists {want}")
        check(snap((d, obj)) == s, "check_variant_supported modified its arguments")
        single = VariantsJson({**index, "variants": {lab: index["variants"][lab]}})
        r = check_variant_supported(variant_info=single, **kw)
        check(r is (lab in want), lambda: f"check_variant_supported({lab} from index) is {r}, resolution lists {want}")
    check(check_variant_supported(vdesc=vd([]), variant_info=obj, **kw) is True, "the null variant is not supported")
    for several in (obj, VariantsJson({**index, "variants": {}})):
        if len(several.variants) != 1:
            try:
                r = check_variant_supported(variant_info=several, **kw)
            except Exception:  # noqa: BLE001
                continue
            raise Violation(f"check_variant_supported for metadata of {len(several.variants)} variants is {r}")


CFGS = [None, {}, {"ns": ["b"]}, {"ns": ["b", "a"]}, {"ns": ["zz", "b", "b"]}, {"ns": ["a", "abi_dependency"]}]
CFG_F = [None, {"a": ["g"]}, {"a": ["f", "g"]}, {"a": ["zz", "g"], "b": ["f"], "q": ["f"]}, {"a": []}]
CFG_P = [None, {"a": {"f": ["y"]}}, {"a": {"g": ["v"], "f": []}, "b": {"f": ["w"]}}, {"b": {"f": ["q", "w", "x"]}, "q": {"f": ["w"]}}, {"a": {"f": ["q"], "zz": ["y"]}}]


def run_resolve(case):
    cfg, pkg, null, supp = case
    write_config(cfg)
    index = make_index(VARS, pkg, supp or SUPP, null)
    want, obj = resolve_all(index, cfg)
    if case[0] is None or null:
        check_supported(index, obj, want)
    return want


PKGS = [{"ns": ["a", "b"]}, {"ns": ["b", "a"]}, {"ns": ["a", "b"], "fp": {"a": ["g"]}}, {"ns": ["a", "b"], "pp": {"a": {"f": ["y"]}, "b": {"f": ["w"]}}},
        {"ns": ["b", "a"], "fp": {"a": ["g", "f"], "b": ["zz"]}, "pp": {"a": {"f": ["q", "y", "x"], "g": ["v"]}}}]


def gen_resolve(tier):
    def cfgs():
        for c in CFGS:
            yield c
        for i, f in enumerate(CFG_F):
            for j, p in enumerate(CFG_P):
                for c in (CFGS[:1] + CFGS[3:4] if tier == "quick" else CFGS):
                    d = dict(c or {})
                    if f is not None:
                        d["fp"] = f
                    if p is not None:
                        d["pp"] = p
                    yield d

    def gen():
        for i, c in enumerate(cfgs()):
            for pkg in PKGS:
                yield [c, pkg, i % 2, None]
        # what is supported: all subsets of features/values, with the provider's own order reversed
        fopts = [None, ["x"], ["y"], ["x", "y"], ["y", "x"]]
        gopts = [None, ["u"], ["v", "u"]]
        bopts = [None, ["x"], ["w", "x"]]
        for f in fopts:
            for g in gopts:
                for b in bopts:
                    for rev in (0, 1):
                        a = {**({"f": f} if f else {}), **({"g": g} if g else {})}
                        if rev:
                            a = dict(reversed(a.items()))
                        for c in (None, {"ns": ["b", "a"], "pp": {"a": {"f": ["y"]}}}):
                            yield [c, PKGS[0], rev, {"a": a, "b": {"f": b} if b else {}}]
    return gen


def run_subset(case):
    mask, cfg, null, order = case
    vs = [v for i, v in enumerate(SUB_VARS) if mask >> i & 1]
    if order:
        vs.reverse()
    write_config(cfg)
    index = make_index(vs, PKGS[0], SUPP, null)
    want, obj = resolve_all(index, cfg)
    check_supported(index, obj, want)
    return want


SUB_VARS = [VARS[i] for i in (0, 1, 2, 5, 7, 9, 10, 11)]


def gen_subset(tier):
    def gen():
        for mask in range(1 << len(SUB_VARS)):
            for null in (0, 1):
                for cfg in (None, {"ns": ["b"]}) if tier != "quick" else (None,):
                    for order in (0, 1):
                        yield [mask, cfg, null, order]
    return gen


def dist(name, version):
    d = env().root / "sp" / f"{name}-{version}.dist-info"
    d.mkdir()
    (d / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n")
    return d


def run_abi(case):
    import shutil
    installed, envvar, cfg = case
    made = [dist(n, v) for n, v in installed]
    try:
        if envvar:
            os.environ["VARIANT_ABI_DEPENDENCY"] = ",".join(f"{n}=={v}" for n, v in envvar)
        have = dict(tuple(x) for x in installed)
        have.update(dict(tuple(x) for x in envvar))
        abi = []
        for n, v in sorted(have.items()):
            parts = (v.split(".") + ["0", "0"])[:3]
            abi += [("abi_dependency", n, ".".join(parts[:k])) for k in (1, 2, 3)]
        A = "abi_dependency"
        vs = [("t2", [(A, "torch", "2")]), ("t29", [(A, "torch", "2.9")]), ("t290", [(A, "torch", "2.9.0")]), ("t3", [(A, "torch", "3")]),
              ("n1", [(A, "numpy", "1")]), ("n1t2", [(A, "numpy", "1"), (A, "torch", "2")]), ("ax", [("a", "f", "x")]),
              ("axt", [("a", "f", "x"), (A, "torch", "2.9")]), ("ayn", [("a", "f", "y"), (A, "numpy", "1")]), ("any", [(A, "torch", "2"), (A, "torch", "3")])]
        write_config(cfg)
        index = make_index(vs, PKGS[0], SUPP)
        want, obj = resolve_all(index, cfg, abi)
        check_supported(index, obj, want)
        return want
    finally:
        os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
        for d in made:
            shutil.rmtree(d)


def gen_abi():
    pk = [[], [["torch", "2.9.0"]], [["torch", "3.1"]], [["numpy", "1.26.4"]], [["numpy", "1.0"], ["torch", "2.9.0"]]]
    for inst in pk:
        for ev in pk:
            for cfg in (None, {"ns": ["b"]}, {"ns": ["abi_dependency", "a"]}, {"fp": {"abi_dependency": ["torch"]}, "pp": {"abi_dependency": {"torch": ["2.9.0", "2.9"]}}}):
                yield [inst, ev, cfg]


def run_collide(case):
    i, supm, order = case
    a, b = [*COLL, *ADJ][i]
    sup = {}
    nss = list(dict.fromkeys(["n", "m", *(t[0] for t in a + b)]))
    for t in (a if supm & 1 else ()) + (b if supm & 2 else ()):
        vs = sup.setdefault(t[0], {}).setdefault(t[1], [])
        if t[2] not in vs:
            vs.append(t[2])
    vs = [("first", list(a)), ("second", list(b))]
    write_config(None)
    index = make_index(vs[::-1] if order else vs, {"ns": nss}, sup)
    want, obj = resolve_all(index, None)
    check_supported(index, obj, want)
    return (i, supm, order, want)


# ---- histories of calls: every answer is what a fresh call gives
def run_history(case):
    idx = {0: make_index(VARS[:6], PKGS[0], SUPP), 1: make_index(VARS[4:], PKGS[4], {"a": {"f": ["y"]}, "b": {"f": ["w"]}}, True)}
    objs = {k: VariantsJson(v) for k, v in idx.items()}
    snaps = snap(objs)
    cfg = None
    write_config(None)
    out = []
    for step in case:
        if step[0] == "cfg":
            cfg = [None, {"ns": ["b"], "pp": {"a": {"f": ["y"]}}}][step[1]]
            write_config(cfg)
        elif step[0] == "resolve":
            r = get_variants_by_priority(variants_json=objs[step[1]])
            check_eq(r, expect(idx[step[1]], cfg), f"resolution of index {step[1]} in history {case}")
            r.clear()
            out.append(tuple(r))
        elif step[0] == "supported":
            want = expect(idx[step[1]], cfg)
            for lab, d in objs[step[1]].variants.items():
                check_eq(check_variant_supported(vdesc=d, variant_info=objs[step[1]]), lab in want, f"support of {lab} in history {case}")
        check(snap(objs) == snaps, lambda: f"a call modified the index objects in history {case}")
    return Outcome(case, transitions=len(case))


STEPS = [["cfg", 0], ["cfg", 1], ["resolve", 0], ["resolve", 1], ["supported", 0], ["supported", 1]]


def gen_history(k):
    return lambda: (list(t) for t in itertools.product(STEPS, repeat=k) if t[-1][0] != "cfg")


# ---- install-time providers, queried through stand-in interpreters
Z = {}


def setup_z(e):
    Z["z"] = Zygote(e)
    Z["py"] = Z["z"].venv("v")[0]


def run_plugins(case):
    afeat, bfeat, pkg, cfg, mix = case

    def spec(ns, feats):
        return {"ns": ns, "all": [[f, vs, False] for f, vs in feats], "sup": [[f, vs, False] for f, vs in feats]}
    write_config(cfg)
    index = make_index(VARS, pkg, {})
    static = {}
    for ns, feats in (("a", afeat), ("b", bfeat)):
        if mix == ns:  # this one ahead of time
            static[ns] = dict(feats)
            if len(feats) > 1:
                fp = index["default-priorities"].setdefault("feature", {})
                fp[ns] = ref.merge_lists(fp.get(ns, []), [f for f, _ in feats])
        else:
            index["providers"][ns] = {"requires": ["mcplug"], "plugin-api": api(spec(ns, feats))}
    index["static-properties"] = static
    # the order in which the index lists providers is not a priority
    index["providers"] = dict(sorted(index["providers"].items(), reverse=bool(mix)))
    supp = {"a": dict(afeat), "b": dict(bfeat)}
    want, obj = resolve_all(index, cfg, supp=supp, venv_python_executable=Z["py"])
    check_supported(index, obj, want, venv_python_executable=str(Z["py"]))
    return want


def gen_plugins(tier):
    af = [[], [["f", ["x", "y"]]], [["f", ["y", "x"]], ["g", ["v", "u"]]], [["g", ["u"]], ["f", ["x", "y"]]], [["f", ["y"]]]]
    bf = [[], [["f", ["w", "x"]]]]
    def gen():
        for a in af:
            for b in bf:
                for pkg in PKGS if tier != "quick" else PKGS[:1] + PKGS[3:]:
                    for cfg in (None, {"ns": ["b", "a"]}, {"fp": {"a": ["f"]}, "pp": {"a": {"f": ["x"]}}}):
                        for mix in (None, "a", "b"):
                            yield [a, b, pkg, cfg, mix]
    return gen


# ---- names that are easily confused, in the index and both levels of priorities
def run_names(case):
    (n1, n2), (f1, f2), (v1, v2) = case
    supp = {n1: {f1: [v1, v2], f2: [v2, v1]}, n2: {f2: [v1, v2], f1: [v1, v2]}}
    vs = [(f"l{i}", [t]) for i, t in enumerate((n, f, v) for n in (n1, n2) for f in (f1, f2) for v in (v1, v2))] + [("x1", [(n1, f1, v2), (n2, f2, v1)]), ("x2", [(n1, f2, v1), (n1, f1, v1)])]
    out = []
    for cfg, pkg in [(None, {"ns": [n1, n2], "fp": {n1: [f2, f1], n2: [f1]}, "pp": {n1: {f1: [v2], f2: [v1]}, n2: {f1: [v2]}}}),
                     ({"ns": [n2], "fp": {n1: [f1]}, "pp": {n2: {f2: [v2]}, n1: {f2: [v1]}}}, {"ns": [n1, n2], "pp": {n2: {f2: [v1], f1: [v2, v1]}}})]:
        write_config(cfg)
        index = make_index(vs, pkg, supp)
        want, obj = resolve_all(index, cfg)
        out.append(want)
    check_supported(index, obj, want)
    return Outcome((case, out), evaluations=2)


def gen_names(tier):
    def gen():
        q = tier == "quick"
        ns = ["a", "aa", "a_a", "_"] if q else NAMES
        fs = ns + (["namespace", "property"] if q else KEYWORDS)
        for n in [*pairs(ns), ("null", "a"), ("providers", "variants"), ("feature", "property")]:
            for f in pairs(fs):
                for v in [("a", "aa"), ("1.0", "1")] if q else [("a", "aa"), ("1.0", "1"), ("a_a", "a"), (".", "null"), ("10", "9")]:
                    yield [n, f, v]
    return gen


def run_sweep(case):
    kind, n, i = case
    if kind == "labels":
        labs = [f"l{(k * 7 + i) % 97}" for k in range(n)]
        vs = [(lab, [("a", "f", f"v{k}")]) for k, lab in enumerate(labs)]
        supp = {"a": {"f": [f"v{(k * 5 + i) % n}" for k in range(n)]}}
        supp["a"]["f"] = list(dict.fromkeys(supp["a"]["f"]))
        pkg = {"ns": ["a"]}
    elif kind == "namespaces":
        nss = [f"n{k}" for k in range(n)]
        vs = [(f"l{k}", [(ns, "f", "v")]) for k, ns in enumerate(nss)] + [("all", [(ns, "f", "w") for ns in nss])]
        supp = {ns: {"f": ["v", "w"]} for ns in nss}
        pkg = {"ns": nss[i:] + nss[:i]}
    elif kind == "features":
        fs = [f"f{k}" for k in range(n)]
        vs = [(f"l{k}", [("a", f, "v")]) for k, f in enumerate(fs)] + [("all", [("a", f, "w") for f in fs])]
        supp = {"a": {f: ["v", "w"] for f in fs}}
        pkg = {"ns": ["a"], "fp": {"a": fs[i:] + fs[:i]}}
    res = []
    for cfg in (None, {"ns": ["n%d" % (n - 1)], "fp": {"a": [f"f{n - 1}"]}, "pp": {"a": {"f": [f"v{i}"], f"f{i}": ["w"]}}}):
        write_config(cfg)
        index = make_index(vs, pkg, supp)
        want, obj = resolve_all(index, cfg)
        check_supported(index, obj, want)
        res.append(want)
    return res


def gen_sweep(tier):
    def gen():
        for kind in ("labels", "namespaces", "features"):
            for n in list(range(1, 13)) + ([16, 33, 40] if tier != "quick" else []):
                for i in range(n):
                    yield [kind, n, i]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("resolve", gen_resolve(tier), run_resolve),
        Space("subsets", gen_subset(tier), run_subset),
        Space("abi", gen_abi, run_abi),
        Space("collisions", lambda: ([i, s, o] for i in range(len(COLL) + len(ADJ)) for s in range(4) for o in (0, 1)), run_collide),
        Space("sweep", gen_sweep(tier), run_sweep),
        Space("names", gen_names(tier), run_names),
        Space("history", gen_history(3 if q else 5), run_history),
        Space("plugins", gen_plugins(tier), run_plugins, setup=setup_z),
    ]
