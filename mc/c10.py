"""C10: validation gives the exact verdict for every property."""
from __future__ import annotations

import io
import itertools
import sys
import zipfile
from pathlib import Path

from mc import ref
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import KEYWORDS, NAMES, cli, install_entry_points, pairs, snap, subsets, text, tup, vd, vp
from mc.zygote import Zygote, api
from variantlib.api import validate_variant
from variantlib.models.variant import VariantDescription, VariantFeature, VariantValidationResult
from variantlib.models.variant_info import ProviderInfo, VariantInfo

LEVEL = "exploration"
RULE = ("every set of up to n properties over providers of every kind (install-time, ahead-of-time, recorded, optional, disabled by marker, absent), "
        "every provider configuration over two features and two values, every result table; the verdict and what make-variant does are compared "
        "with the rules of the property. An outcome is the verdict.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

Z = {"n": 0}


def setup(e):
    Z["z"] = Zygote(e)
    Z["py"], Z["site"] = Z["z"].venv("v")


def setup_cli(e):
    setup(e)
    install_entry_points(e)
    sys.executable = str(Z["py"])


def expected(props, served):
    """served: {ns: {feature: (values, multi)}}"""
    results = {}
    for n, f, v in props:
        results[(n, f, v)] = None if n not in served else v in served[n].get(f, ((), False))[0]
    count = {}
    for n, f, v in props:
        count[(n, f)] = count.get((n, f), 0) + 1
    viol = {nf for nf, c in count.items() if c > 1 and nf[0] in served and nf[1] in served[nf[0]] and not served[nf[0]][nf[1]][1]}
    return results, viol


def judge(r, props, served):
    results, viol = expected(props, served)
    check_eq({tup(p): v for p, v in r.results.items()}, results, "verdicts")
    check_eq({(f.namespace, f.feature) for f in r.multi_value_violations}, viol, "multi-value violations")
    judge_summary(r, results, viol)
    return (tuple(sorted((k, str(v)) for k, v in results.items())), tuple(sorted(viol)))


def judge_summary(r, results, viol):
    no_bad = not viol and not any(v is False for v in results.values())
    check_eq(r.is_valid(), no_bad, "overall verdict")
    check_eq(r.is_valid(allow_unknown_plugins=True), no_bad, "overall verdict, unknown tolerated")
    check_eq(r.is_valid(allow_unknown_plugins=False), no_bad and not any(v is None for v in results.values()), "overall verdict, unknown not tolerated")
    check_eq(sorted(tup(p) for p in r.invalid_properties), sorted(k for k, v in results.items() if v is False), "invalid properties")
    check_eq(sorted(tup(p) for p in r.unknown_properties), sorted(k for k, v in results.items() if v is None), "unknown properties")


# ---------------------------------------------------------------------------------------------- all providers
ALL = {
    "inst": [["f", ["x", "y"], False], ["m", ["x", "y", "z"], True]],
    "aot": [["f", ["x"], False], ["m", ["x", "y"], True]],
    "opt": [["f", ["x", "y"], False]],
    "off": [["f", ["x"], False]],
}
SUP = {"inst": [["f", ["x"], False]], "aot": [["f", ["x"], False]], "opt": [["m", ["x"], False]], "off": []}
STATIC = {"f": ["x", "y"], "m": ["z"]}
NSS = ["inst", "aot", "opt", "off", "rec", "none"]


def mixed_info(aot_static=False):
    P = {ns: ProviderInfo(plugin_api=api({"ns": ns, "all": ALL[ns], "sup": SUP[ns], "aot": True, "i": 10}), requires=["mcplug"],
                          install_time=ns != "aot", optional=ns == "opt", enable_if='python_version < "3"' if ns == "off" else None) for ns in ALL}
    P["rec"] = ProviderInfo(install_time=False)
    info = VariantInfo(namespace_priorities=list(P), providers=P)
    info.static_properties = {"rec": {k: list(v) for k, v in STATIC.items()}}
    if aot_static:
        # recorded at build time before: the plugin still decides
        info.static_properties["aot"] = {"f": ["y"], "q": ["x"]}
    return info


def run_mixed(case):
    props, aot_static = case
    props = [tuple(p) for p in props]
    served = {ns: {f: (v, m) for f, v, m in ALL[ns]} for ns in ("inst", "aot", "opt") if any(p[0] == ns for p in props)}
    served["rec"] = {f: (v, False) for f, v in STATIC.items()}
    if aot_static:
        # a provider that is not asked is served from what is recorded
        served.setdefault("aot", {"f": (["y"], False), "q": (["x"], False)})
    info, desc = mixed_info(aot_static), vd(props)
    before = snap(info), snap(desc)
    r = validate_variant(desc, info, venv_python_executable=Z["py"])
    check_eq((snap(info), snap(desc)), before, "arguments after validation")
    out = judge(r, props, served)
    r2 = validate_variant(desc, info, venv_python_executable=str(Z["py"]))
    check(r2 == r, "the second validation differs")
    return Outcome(out, evaluations=2)


UNI = [(ns, f, v) for ns in NSS for f, vs in (("f", "xyz"), ("m", "xyz"), ("q", "x")) for v in vs]


def gen_mixed(tier):
    def gen():
        for props in subsets(UNI, 0, 2):
            for s in (False, True):
                yield [props, s]
        for props in subsets(UNI, 3, 3):
            yield [props, False]
        # many values of one feature, and many features
        for ns in NSS:
            for f in ("f", "m"):
                for n in (4, 12, 33):
                    yield [[(ns, f, v) for v in ["x", "y", "z"] + [f"v{i}" for i in range(n - 3)]], False]
            yield [[(ns, f"f{i}", "x") for i in range(33)] + [(ns, "f", "x"), (ns, "f", "y")], False]
            for n in (65, 129, 257):
                for at in (0, 1, n // 2, n - 1):
                    # names sort before, between and after the others
                    name = {0: "a", 1: "f0_", n - 1: "zz"}.get(at, f"f{at}_")
                    yield [[(ns, f"f{i}", "x") for i in range(n)] + [(ns, name, "x"), ("rec", "f", "x")][:1 + (ns != "rec")], at == 1]
        if tier == "quick":
            for props in subsets([p for p in UNI if p[0] in ("inst", "aot", "rec") and p[1] != "q"], 4, 4):
                yield [props, True]
        else:
            for props in subsets(UNI, 4, 4):
                yield [props, False]
                yield [props, True]
    return gen


# ----------------------------------------------------------------------------------------- all configurations
def feature_choices(values):
    for vs in subsets(values, 1, len(values)):
        for m in (False, True):
            yield (list(vs), m)


def run_configs(case):
    cfg, sup, kind = case
    spec = {"ns": "p", "aot": True, "all": [[f, v, m] for f, (v, m) in cfg.items()], "sup": [[f, v, m] for f, (v, m) in sup.items()], "i": 11}
    info = VariantInfo(namespace_priorities=["p"], providers={"p": ProviderInfo(plugin_api=api(spec), requires=["mcplug"], install_time=kind != "aot", optional=kind == "opt")})
    served = {"p": {f: (v, m) for f, (v, m) in cfg.items()}}
    outs = []
    uni = [("p", f, v) for f in ("f", "g") for v in ("x", "y", "w")]
    for props in subsets(uni, 1, 3):
        outs.append(judge(validate_variant(vd(props), info, venv_python_executable=Z["py"]), list(props), served))
    return Outcome(tuple(outs), evaluations=len(outs))


def gen_configs(tier):
    def gen():
        ch = list(feature_choices(["x", "y"]))
        cfgs = [{"f": c} for c in ch] + [{"f": c, "g": d} for c in ch for d in ch]
        for cfg in cfgs:
            for kind in ("inst", "aot", "opt"):
                # what is supported plays no role
                yield [cfg, {}, kind]
                yield [cfg, {f: (v[:1], not m) for f, (v, m) in cfg.items()}, kind]
                if tier != "quick":
                    yield [cfg, {"f": (["w"], True), "g": (["w"], False)}, kind]
    return gen


# ---- long configurations and long lists of properties
def run_sizes(case):
    nf, nv, nu, bad = case
    al = [[f"f{i}", [f"v{j}" for j in range(nv)], i % 2 == 0] for i in range(nf)]
    info = VariantInfo(namespace_priorities=["p"], providers={"p": ProviderInfo(plugin_api=api({"ns": "p", "aot": True, "all": al, "sup": [], "i": 14}), requires=["mcplug"])})
    served = {"p": {f: (v, m) for f, v, m in al}}
    outs = []
    for at in sorted({0, 1, nu // 2, nu - 1}):
        props = [("p", f"f{(i * 7) % nf if nf % 7 else i % nf}", f"v{i // nf % nv}") for i in range(min(nu, nf * nv))]
        if at < len(props):
            if bad == "value":
                props[at] = (*props[at][:2], "w")
            elif bad == "feature":
                props[at] = ("p", "ff", props[at][2])
            elif bad == "namespace":
                props[at] = ("pp", *props[at][1:])
            elif bad == "second":
                props.append((*props[at][:2], "w"))
        outs.append(judge(validate_variant(vd(props), info, venv_python_executable=Z["py"]), props, served))
    return Outcome((case, outs), evaluations=len(outs))


def gen_sizes(tier):
    def gen():
        for n in (2, 5, 9, 17, 33, 65, 129) if tier == "quick" else (*range(2, 70), 127, 128, 129, 255, 256, 257, 513):
            for nf, nv in ((n, 1), (1, n), (n, 2)):
                for nu in sorted({1, nf, nf * nv}):
                    for bad in ("", "value", "feature", "namespace", "second"):
                        yield [nf, nv, nu, bad]
    return gen


# ---- names that are easily confused
def run_names(case):
    (n1, n2), (f1, f2), (v1, v2) = case
    al = {n1: [[f1, [v1, v2], False], [f2, [v1], True]], n2: [[f2, [v2], False]]}
    info = VariantInfo(namespace_priorities=[n1, n2], providers={n: ProviderInfo(plugin_api=api({"ns": n, "aot": True, "all": al[n], "sup": [], "i": 13}), requires=["mcplug"]) for n in al})
    uni = [(n, f, v) for n in (n1, n2) for f in (f1, f2) for v in (v1, v2)]
    outs = []
    for k, props in enumerate([uni, *([t] for t in uni), *([s for s in uni if s != t] for t in uni), uni[::2], uni[1::2]]):
        served = {ns: {f: (v, m) for f, v, m in al[ns]} for ns in al if any(p[0] == ns for p in props)}
        outs.append(judge(validate_variant(vd(props), info, venv_python_executable=Z["py"]), list(props), served))
    return Outcome((case, outs), evaluations=len(outs))


def gen_names(tier):
    def gen():
        q = tier == "quick"
        ns = ["a", "aa", "a_a", "_"] if q else NAMES
        for n in pairs(ns):
            for f in pairs(ns if q else ns + KEYWORDS[:5]):
                for v in [("a", "aa")] if q else [("a", "aa"), ("1.0", "1"), ("a_a", "a"), (".", "null")]:
                    yield [n, f, v]
    return gen


# ------------------------------------------------------------------------------------------- result summaries
def run_summary(case):
    table, viol = case
    props = [("n", "f", f"v{i}") for i in range(len(table))]
    r = VariantValidationResult(results={vp(p): v for p, v in zip(props, table)},
                                multi_value_violations=frozenset(VariantFeature("n", f"f{i}") for i in range(viol)))
    judge_summary(r, dict(zip(props, table)), viol)
    return (case,)


def gen_summary():
    for n in range(6):
        for t in itertools.product((True, False, None), repeat=n):
            for v in range(3):
                yield [list(t), v]
    for n in (9, 17, 33, 65, 129, 257):
        for base in (True, False, None):
            for odd in (True, False, None):
                for at in (0, 1, n // 2, n - 2, n - 1):
                    for v in (0, 1, n):
                        yield [[odd if i == at else base for i in range(n)], v]


# ---------------------------------------------------------------------------------------------- make-variant
def wheel(path):
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("pkg.py", "x = 1\n")
        z.writestr("pkg-1.dist-info/METADATA", "Metadata-Version: 2.1\nName: pkg\nVersion: 1\n")
        z.writestr("pkg-1.dist-info/RECORD", "pkg.py,,\npkg-1.dist-info/METADATA,,\npkg-1.dist-info/RECORD,,\n")


def run_make(case):
    props, form = case
    props = [tuple(p) for p in props]
    d = env().fresh()
    wheel(d / "pkg-1-py3-none-any.whl")
    lines = ["[variant.default-priorities]", 'namespace = ["inst", "aot", "opt", "off", "rec"]', "feature.rec = ['f', 'm']"]
    for ns in ALL:
        spec = {"ns": ns, "all": ALL[ns], "sup": ALL[ns] if ns != "aot" else [["f", ["x"], False]], "aot": True, "i": 12}
        lines += [f"[variant.providers.{ns}]", 'requires = ["mcplug"]', f'plugin-api = "{api(spec)}"']
        if ns == "aot":
            lines += ["install-time = false"]
        if ns == "opt":
            lines += ["optional = true"]
        if ns == "off":
            lines += ["enable-if = \"python_version < '3'\""]
    lines += ["[variant.providers.rec]", "install-time = false", "[variant.static-properties.rec]", 'f = ["x", "y"]', 'm = ["z"]']
    (d / "pyproject.toml").write_text("\n".join(lines) + "\n")
    (d / "out").mkdir()
    args = ["make-variant", "-f", str(d / "pkg-1-py3-none-any.whl"), "-o", str(d / "out"), "--no-isolation", "--pyproject-toml", str(d / "pyproject.toml")]
    if props:
        for p in props:
            args += ["-p", text(p)]
    else:
        args += ["--null-variant"]
    if form == "skip":
        args += ["--skip-plugin-validation"]
    served = {ns: {f: (v, m) for f, v, m in ALL[ns]} for ns in ("inst", "aot", "opt")}
    served["rec"] = {f: (v, False) for f, v in STATIC.items()}
    results, viol = expected(props, served)
    valid = form == "skip" or (not viol and all(v is True for v in results.values()))
    # independently of validation, ahead-of-time plugins must support what is used
    if any(p[0] == "aot" and p[1:] != ("f", "x") for p in props):
        valid = False
    try:
        status, _ = cli(*args)
    except Exception as exc:  # noqa: BLE001
        status = repr(exc)
    made = sorted(p.name for p in (d / "out").iterdir())
    check_eq(made, [f"pkg-1-py3-none-any-{ref.label(props)}.whl"] if valid else [], f"wheels made (status {status})")
    check(valid == (status == 0), lambda: f"status {status}, verdict valid={valid}")
    return (valid, tuple(props), form)


def gen_make(tier):
    def gen():
        uni = [(ns, f, v) for ns in NSS for f, v in (("f", "x"), ("f", "y"), ("m", "x"), ("m", "y"), ("m", "z"))]
        for props in subsets(uni, 0, 1):
            for form in ("check", "skip"):
                yield [props, form]
        for i, props in enumerate(subsets(uni, 2, 2)):
            yield [props, "check"]
            yield [props, "skip"]
        if tier != "quick":
            for props in subsets([p for p in uni if p[0] != "off"], 3, 3):
                yield [props, "check"]
    return gen


def spaces(tier):
    return [
        Space("mixed", gen_mixed(tier), run_mixed, setup=setup),
        Space("configs", gen_configs(tier), run_configs, setup=setup),
        Space("sizes", gen_sizes(tier), run_sizes, setup=setup),
        Space("names", gen_names(tier), run_names, setup=setup),
        Space("summary", gen_summary, run_summary),
        Space("make", gen_make(tier), run_make, setup=setup_cli),
    ]
