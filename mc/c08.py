"""C08: caching plugin results is invisible in every history of queries."""
from __future__ import annotations

import itertools
import json
import shutil
import subprocess
import sys

from mc import core
from mc.c07 import HARMLESS, LOAD, NS, RESULT, RUNTIME
from mc.core import Outcome, Space, check, check_eq, in_child
from mc.util import vd
from mc.zygote import Zygote, file_api
from variantlib.api import check_variant_supported, get_variants_by_priority, make_variant_dist_info, validate_variant
from variantlib.errors import PluginError, ValidationError
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.plugins.loader import ListPluginLoader, PluginLoader
from variantlib.variants_json import VariantsJson

LEVEL = "model_checking"
RULE = ("all histories up to the bound of queries that differ in interpreter, plugin list and order, method, options and route, each starting from a "
        "fresh process and each answer destroyed in place after being checked; a state is the set of questions asked so far. The answers expected are "
        "those of a process that never asked before; the stand-in interpreters are compared with a real one on every plugin behaviour.")
ASSUMPTIONS = ["plugins are deterministic within a process"]

Z = {}
# the same reference behaves differently in the two environments
SPECS = {
    "e1": {"p": {"ns": "np", "aot": True, "all": [["f", ["a", "b"], True], ["g", ["c"], False]], "sup": [["f", ["a"], False]]},
           "q": {"ns": "nq", "aot": True, "all": [["f", ["q1"], False]], "sup": [["f", ["q1"], False]]},
           "n": {"ns": "nn", "all": [["f", ["n1"], False]], "sup": [["f", ["n1"], False]]}},
    "e2": {"p": {"ns": "np", "aot": True, "all": [["f", ["b", "a"], True], ["h", ["d"], False]], "sup": [["f", ["b", "a"], False], ["g", ["c"], False]]},
           "q": {"ns": "nq2", "aot": True, "all": [["f", ["q1", "q2"], False]], "sup": []},
           "n": {"ns": "nn", "aot": True, "all": [["f", ["n1"], False]], "sup": [["f", ["n1"], False]]}},
}


def setup(e):
    z = Z["z"] = Zygote(e)
    for env in SPECS:
        Z[env] = z.venv(env)[0]
        for name, spec in SPECS[env].items():
            z.write_spec(env, name, spec)


def info(apis, env, cls=VariantInfo, aot=False):
    nss = {p: SPECS[env][p]["ns"] for p in apis}
    i = VariantInfo(namespace_priorities=[*nss.values(), "st"],
                    providers={ns: ProviderInfo(plugin_api=file_api(p), requires=["x"], install_time=not aot) for p, ns in nss.items()},
                    static_properties={"st": {"s": ["1", "2"]}})
    i.providers["st"] = ProviderInfo(install_time=False)
    if aot:
        i.static_properties.update({ns: {} for ns in nss.values()})
    return i if cls is VariantInfo else cls(i)


def clobber(d):
    for cfg in d.values():
        for c in cfg.configs:
            c.values.append("clobbered")
            c.values.reverse()
        cfg.configs.reverse()
        cfg.configs.append(cfg.configs[0])
    d["clobbered"] = None
    d.pop(next(iter(d)))


def shape(d):
    return [(ns, cfg.namespace, [(c.name, list(c.values), c.multi_value) for c in cfg.configs]) for ns, cfg in d.items()]


def ask(step, infos):
    """perform one query -> (answer, expected)"""
    env, apis, q, via = step
    specs = [SPECS[env][p] for p in apis]
    key = "all" if q == "all" else "sup"
    exp = [(s["ns"], s["ns"], [(n, v, m) for n, v, m in s[key]]) for s in specs if s[key]]
    if q == "fixed" and any(not s.get("aot") for s in specs):
        exp = "PluginError"
    if via == "list":
        loader = ListPluginLoader([file_api(p) for p in apis], venv_python_executable=Z[env])
    elif via in ("info", "kept"):
        exp = exp if exp == "PluginError" else [("st", "st", [("s", ["1", "2"], False)])] + exp
        k = (env, tuple(apis)) if via == "kept" else None
        i = infos.get(k) or info(apis, env)
        if k:
            infos[k] = i
        loader = PluginLoader(variant_info=i, venv_python_executable=Z[env], include_aot_plugins=True)
    else:
        return api_call(step, specs, infos)
    try:
        with loader as lo:
            nss = list(lo.namespaces)
            pav = dict(lo.plugin_api_values)
            got = lo.get_all_configs() if q == "all" else lo.get_supported_configs(require_fixed=q == "fixed")
            check_eq(nss, [s["ns"] for s in specs], f"namespaces in {step}")
            check_eq(pav, {s["ns"]: file_api(p) for s, p in zip(specs, apis)}, f"plugin_api_values in {step}")
            lo.namespaces.clear()
            lo.plugin_api_values.clear()
            check_eq(list(lo.namespaces), nss, "namespaces after clearing what was returned before")
            r = shape(got)
            clobber(got) if got else None
            # the same loader again
            again = lo.get_all_configs() if q == "all" else lo.get_supported_configs(require_fixed=q == "fixed")
            check_eq(shape(again), r, f"asking the same loader again in {step}")
            clobber(again) if again else None
            return r, exp
    except PluginError:
        return "PluginError", exp


def api_call(step, specs, infos):
    env, apis, q, via = step
    py = Z[env]
    nss = [s["ns"] for s in specs]
    i = info(apis, env, VariantsJson)
    i.variants = {f"v{k}": vd([t]) for k, t in enumerate([(ns, "f", v) for ns in nss for v in ("a", "b", "q1", "n1")] + [("st", "s", "1")])}
    sup = {(s["ns"], n, v) for s in specs for n, vs, _ in s["sup"] for v in vs} | {("st", "s", "1"), ("st", "s", "2")}
    alls = {(s["ns"], n, v) for s in specs for n, vs, _ in s["all"] for v in vs} | {("st", "s", "1"), ("st", "s", "2")}
    if via == "resolve":
        got = get_variants_by_priority(variants_json=i, venv_python_executable=py)
        exp = sorted([lab for lab, d in i.variants.items() if {(p.namespace, p.feature, p.value) for p in d.properties} <= sup] + ["null"])
        r = sorted(got)
        got.clear()
        return r, exp
    if via == "supported":
        return ([lab for lab, d in i.variants.items() if check_variant_supported(vdesc=d, variant_info=i, venv_python_executable=py)],
                [lab for lab, d in i.variants.items() if {(p.namespace, p.feature, p.value) for p in d.properties} <= sup])
    if via == "validate":
        d = vd([(ns, "f", v) for ns in nss for v in ("a", "q1")] + [("st", "s", "2")])
        r = validate_variant(d, info(apis, env), venv_python_executable=py)
        got = {(p.namespace, p.feature, p.value): x for p, x in r.results.items()}
        r.results.clear()
        return got, {(p.namespace, p.feature, p.value): (p.namespace, p.feature, p.value) in alls for p in d.properties}
    if via == "dist-info":
        i = info(apis, env, aot=True)
        try:
            got = json.loads(make_variant_dist_info(vd([("st", "s", "1")]), i, venv_python_executable=py))["static-properties"]
        except PluginError:
            got = "PluginError"
        exp = "PluginError" if any(not s.get("aot") for s in specs) else {"st": {"s": ["1", "2"]}, **{s["ns"]: {n: v for n, v, _ in s["sup"]} for s in specs}}
        return got, exp
    raise AssertionError(via)


def run_history(case):
    def body():
        infos = {}
        for k, step in enumerate(case):
            got, exp = ask(step, infos)
            check(got == exp, lambda: f"step {k} of history {case}: got {got!r}, a fresh process answers {exp!r}")
        return True
    in_child(body)
    keys = [tuple(map(str, s)) for s in case]
    return Outcome(tuple(keys), states=[frozenset(keys[:k]) for k in range(len(keys) + 1)], transitions=len(case), traces=1)


APIS = [["p"], ["q"], ["p", "q"], ["q", "p"]]
LISTQ = [[e, a, q, "list"] for e in ("e1", "e2") for a in APIS for q in ("all", "sup", "fixed")]
INFOQ = [[e, a, q, v] for e in ("e1", "e2") for a in (["p"], ["p", "q"]) for q in ("all", "sup") for v in ("info", "kept")]
NQ = [[e, ["n"], q, "list"] for e in ("e1", "e2") for q in ("sup", "fixed")] + [["e1", ["n", "p"], "fixed", "list"]]
APIQ = [[e, a, "", v] for e in ("e1", "e2") for a in (["p"], ["q", "p"], ["n"]) for v in ("resolve", "supported", "validate", "dist-info")]


def gen_history(tier):
    def gen():
        everything = LISTQ + INFOQ + NQ + APIQ
        for s in everything:
            yield [s]
            yield [s, s]
        for a, b in itertools.permutations(LISTQ + NQ, 2):
            yield [a, b]
        for a, b in itertools.permutations(INFOQ, 2):
            yield [a, b]
        small = [["e1", ["p"], "sup", "list"], ["e2", ["p"], "sup", "list"], ["e1", ["p"], "all", "kept"], ["e1", ["p"], "sup", "kept"], ["e1", ["n"], "fixed", "list"],
                 ["e1", ["n"], "sup", "list"], ["e1", ["p", "q"], "sup", "list"]]
        for a in APIQ:
            for k, b in enumerate(small + APIQ):
                if a != b and (tier != "quick" or b in small or (k + APIQ.index(a)) % 5 == 0):
                    yield [a, b]
                    if b in small:
                        yield [b, a]
        for t in itertools.product(small, repeat=3):
            yield list(t)
        if tier != "quick":
            for t in itertools.permutations(LISTQ + NQ, 3):
                yield list(t)
            for t in itertools.product(small, repeat=4):
                yield list(t)
            for t in itertools.product(INFOQ, repeat=3):
                yield list(t)
            for t in itertools.product(APIQ[::2] + small[:3], repeat=3):
                yield list(t)
    return gen


# ---- the stand-in interpreters against a real one
def run_binding(case):
    at, kind, style, q = case
    z = Z["z"]
    spec = {**SPECS["e1"]["p"], "style": style}
    if kind:
        spec["fault"] = {"at": at, "kind": kind}
    z.write_spec("e1", "b", spec)
    (Z["real_site"] / "spec_b.json").write_text(json.dumps(spec))

    def via(py):
        def body():
            try:
                with ListPluginLoader([file_api("b")], venv_python_executable=py) as lo:
                    if q == "load":
                        return repr(lo.namespaces)
                    return repr(shape(lo.get_all_configs() if q == "all" else lo.get_supported_configs(require_fixed=q == "fixed")))
            except (PluginError, ValidationError) as e:
                return type(e).__name__
        return in_child(body)
    a, b = via(Z["e1"]), via(Z["real"])
    if a != b:
        raise core.HarnessError(f"stand-in interpreter differs from the real one on {case}: {a} / {b}")
    return Outcome((case, a), states=[("binding", at, kind, q)], transitions=1, traces=2)


def setup_binding(e):
    setup(e)
    real = e.root / "real"
    subprocess.run([core.REAL_PYTHON, "-m", "venv", "--without-pip", str(real)], check=True, stdin=subprocess.DEVNULL)
    Z["real"] = real / "bin/python"
    Z["real_site"] = next(real.glob("lib/python3*/site-packages"))
    shutil.copy(Z["z"].venv("e1")[1] / "mcplug.py", Z["real_site"])


def gen_binding(tier):
    def gen():
        for style in ("class", "classmethod", "instance", "property", "namespace_obj"):
            for q in ("load", "all", "sup", "fixed"):
                yield ["", None, style, q]
        for at, kinds in (("get_supported_configs", RUNTIME + RESULT + HARMLESS), ("load", LOAD + RUNTIME), ("ns", NS)):
            for k in kinds:
                if k == "kill" and at != "load":
                    pass
                for q in (("sup", "all") if tier != "quick" else ("sup",)):
                    yield [at, k, "class", q]
    return gen


def run_default(case):
    """the default interpreter is the running one; given as path or text, it is the same interpreter"""
    first, second, q = case

    def body():
        from pathlib import Path
        sys.executable = str(Z["e1"])
        forms = {"none": None, "path": Path(sys.executable), "e2": Z["e2"], "e1": Z["e1"]}
        for f in (first, second):
            i = info(["p"], "e1", VariantsJson)
            i.variants = {v: vd([("np", "f", v)]) for v in ("a", "b")}
            exp = ["b", "a", "null"] if f == "e2" else ["a", "null"]
            check_eq(get_variants_by_priority(variants_json=i, venv_python_executable=forms[f]), exp, f"resolution with interpreter {f} in {case}")
        return True
    in_child(body)
    return Outcome(tuple(case), states=[("default", first), ("default", first, second)], transitions=2, traces=1)


def spaces(tier):
    return [
        Space("history", gen_history(tier), run_history, setup=setup),
        Space("binding", gen_binding(tier), run_binding, setup=setup_binding),
        Space("default", lambda: ([a, b, "sup"] for a in ("none", "path", "e1", "e2") for b in ("none", "path", "e1", "e2")), run_default, setup=setup),
    ]
