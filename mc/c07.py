"""C07: a misbehaving plugin is reported and never yields partial or cached bad results."""
from __future__ import annotations

import itertools
import json

from mc.core import Outcome, Space, Violation, check, check_eq
from mc.util import vd
from mc.zygote import Zygote, api, file_api
from variantlib.api import check_variant_supported, get_variants_by_priority, make_variant_dist_info, validate_variant
from variantlib.errors import PluginError, ValidationError
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.plugins.loader import ListPluginLoader, PluginLoader
from variantlib.variants_json import VariantsJson

LEVEL = "fault_enumeration"
RULE = ("every fault kind at every point of the plugin protocol (import, namespace, each method) x plugin style x company of healthy plugins x "
        "query, each followed by the same query again, by a query of the healthy plugin alone, and by the query after repair; every supported "
        "style of a healthy plugin. An outcome is (fault, query, verdict).")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

REPORTED = (PluginError, ValidationError)
RUNTIME = ["raise", "raise_unicode", "keyboard", "exit0", "exit3", "_exit0", "_exit_partial", "_exit_other", "_exit_list", "_exit_null", "kill", "segv",
           "print", "stderr_garbage", "close_stdout", "late_exit3", "late_kill", "late_segv", "late_term", "late_abort"]
RESULT = ["none", "tuple", "dict", "string", "generator", "int", "element_str", "element_none", "element_dict", "element_missing", "mixed",
          "name_none", "name_int", "name_empty", "name_upper", "name_dot", "name_newline", "name_unser", "values_none", "values_str", "values_dict",
          "values_empty", "values_dup", "value_int", "value_none", "value_list", "value_upper", "value_empty", "value_space", "value_newline",
          "value_bytes", "value_float", "values_set", "multi_str", "multi_none", "multi_int", "multi_list", "last_bad", "dup_names"]
NS = ["none", "int", "upper", "empty", "newline", "list", "unser", "dot", "dash"]
LOAD = ["missing", "missing_ns", "missing_all", "missing_sup", "instance_none"]
HARMLESS = ["stderr_noise"]
Z = {"n": 0}


def setup(e):
    Z["z"] = Zygote(e)
    Z["py"], Z["site"] = Z["z"].venv("v")


GOOD = {"ns": "bad", "aot": True, "all": [["f", ["x", "y"], True], ["g", ["z"], False]], "sup": [["g", ["z"], False], ["f", ["y"], False]]}
OTHER = {"ns": "ok", "aot": True, "all": [["o", ["1", "2"], False]], "sup": [["o", ["2"], False]]}


def cfgs(d):
    return {ns: [(c.name, c.values, c.multi_value) for c in cfg.configs] for ns, cfg in d.items()}


def want(spec, key):
    return {spec["ns"]: [(n, v, m) for n, v, m in spec[key]]} if spec[key] else {}


def query(apis, q, specs):
    """-> None or the wrong answer; exceptions propagate"""
    with ListPluginLoader(apis, venv_python_executable=Z["py"]) as loader:
        if q == "load":
            got, exp = sorted(map(str, loader.namespaces)), sorted(s["ns"] for s in specs)
        elif q == "all":
            got, exp = cfgs(loader.get_all_configs()), {k: v for s in specs for k, v in want(s, "all").items()}
        else:
            got, exp = cfgs(loader.get_supported_configs(require_fixed=q == "fixed")), {k: v for s in specs for k, v in want(s, "sup").items()}
    return None if got == exp else got


TOUCH = {"load": ("load", "ns"), "all": ("load", "ns", "get_all_configs"), "sup": ("load", "ns", "get_supported_configs"),
         "fixed": ("load", "ns", "get_supported_configs")}


def attempt(fn):
    """-> 'reported' or ('answer', x)"""
    try:
        r = fn()
    except REPORTED as e:
        str(e)
        return "reported"
    return ("answer", r)


def run_fault(case):
    at, kind, style, company, q = case
    z = Z["z"]
    Z["n"] += 1
    name = f"p{Z['n']}"
    bad = {**GOOD, "style": style, "fault": {"at": at, "kind": kind}}
    ok = {**OTHER, "i": Z["n"]}
    apis = {"alone": [file_api(name)], "first": [file_api(name), api(ok)], "last": [api(ok), file_api(name)]}[company]
    specs = [GOOD] if company == "alone" else [GOOD, OTHER]
    must_fail = at in TOUCH[q] and kind not in HARMLESS
    # healthy at first, in half of the cases: the cache already holds good results of other plugins
    z.write_spec("v", name, bad)
    for again in range(2):
        r = attempt(lambda: query(apis, q, specs))
        if must_fail:
            check(r == "reported", lambda: f"fault {kind} at {at} went unnoticed in {q}: {r}")
        else:
            check(r == ("answer", None), lambda: f"{q} with {kind} at {at}: {r}")
    # the other plugin is still usable
    if company != "alone":
        r = attempt(lambda: query([api(ok)], "sup" if q == "fixed" else q, [OTHER]))
        check(r == ("answer", None), lambda: f"the healthy plugin after the fault: {r}")
    # repaired: the same query now gives the right answer
    z.write_spec("v", name, {**GOOD, "style": style})
    if must_fail or kind in HARMLESS:
        r = attempt(lambda: query(apis, q, specs))
        check(r == ("answer", None), lambda: f"{q} after repairing {kind} at {at}: {r}")
    return Outcome((at, kind, style, company, q), evaluations=4)


def gen_fault(tier):
    def gen():
        styles = ["class", "instance", "classmethod", "property", "namespace_obj"]
        comp = ["alone", "first", "last"]
        k = 0
        for at, kinds in (("get_all_configs", RUNTIME + RESULT + HARMLESS + ["empty"]), ("get_supported_configs", RUNTIME + RESULT + HARMLESS),
                          ("load", RUNTIME + LOAD + HARMLESS), ("ns", NS)):
            for kind in kinds:
                for q in ("load", "all", "sup", "fixed"):
                    if at == "load" and kind.startswith("missing") or at == "ns":
                        sts = styles
                    else:
                        sts = styles if tier != "quick" else [styles[k % len(styles)]]
                    for st in sts:
                        for c in comp if tier != "quick" else [comp[k % 3]] if at not in TOUCH[q] else ([comp[k % 3], comp[(k + 1) % 3]]):
                            yield [at, kind, st, c, q]
                    k += 1
        for kind in ("raise", "exit3", "_exit0", "kill", "print"):
            for q in ("load", "all", "sup", "fixed"):
                for c in comp:
                    yield ["ns", kind, "property", c, q]
    return gen


# ---- references that cannot be loaded
REFS = ["nosuchmodule", "nosuchmodule:attr", "mcplug:nosuch", "mcplug:hzz", "mcplug", "json", "json:dumps", "os.path:nope.nope", "brokenmod", "brokenmod:x",
        "exitmod", "syntaxmod:P", "mcplug:feats", "sys:maxsize", "..x", "a..b", "mcplug:", "mcplug:x.y", "printmod:P", "killmod:P"]


def setup_refs(e):
    setup(e)
    s = Z["site"]
    (s / "brokenmod.py").write_text("raise RuntimeError('no')\n")
    (s / "exitmod.py").write_text("import sys; sys.exit(0)\n")
    (s / "syntaxmod.py").write_text("class P(:\n")
    (s / "printmod.py").write_text("print('loaded')\n" + STYLES["staticmethods"])
    (s / "killmod.py").write_text("import os; os.kill(os.getpid(), 9)\n")


def run_ref(case):
    ref_, q, company = case
    ok = {**OTHER, "i": ref_}
    apis = {"alone": [ref_], "first": [ref_, api(ok)], "last": [api(ok), ref_]}[company]
    for again in range(2):
        r = attempt(lambda: query(apis, q, [GOOD, OTHER]))
        check(r == "reported", lambda: f"plugin reference {ref_!r} is not refused: {r}")
    r = attempt(lambda: query([api(ok)], q, [OTHER]))
    check(r == ("answer", None), lambda: f"the healthy plugin alone: {r}")
    return case


def gen_ref():
    for r in REFS:
        for q in ("load", "all", "sup"):
            for c in ("alone", "first", "last"):
                yield [r, q, c]


# ---- through the public operations
def run_op(case):
    at, kind, op = case
    z = Z["z"]
    Z["n"] += 1
    name = f"p{Z['n']}"
    aot = op == "dist-info"
    prov = {"bad": ProviderInfo(plugin_api=file_api(name), requires=["mcplug"], install_time=not aot),
            "ok": ProviderInfo(plugin_api=api({**OTHER, "i": Z["n"]}), requires=["mcplug"], install_time=not aot)}
    info = VariantInfo(namespace_priorities=["bad", "ok"], providers=prov)
    good = {**GOOD, "all": [["f", ["x", "y"], False], ["g", ["z"], False]]}
    py = Z["py"]
    d = vd([("bad", "f", "y"), ("ok", "o", "2")])
    idx = VariantsJson(VariantInfo(namespace_priorities=["bad", "ok"], providers={k: ProviderInfo(plugin_api=v.plugin_api, requires=["mcplug"]) for k, v in prov.items()}))
    idx.variants = {"v": d, "w": vd([("bad", "f", "x")]), "o": vd([("ok", "o", "2")])}

    def call():
        if op == "resolve":
            return get_variants_by_priority(variants_json=idx, venv_python_executable=py)
        if op == "supported":
            return check_variant_supported(vdesc=d, variant_info=idx, venv_python_executable=py)
        if op == "validate":
            r = validate_variant(d, info, venv_python_executable=py)
            return sorted((p.to_str(), v) for p, v in r.results.items()), r.is_valid()
        return json.loads(make_variant_dist_info(d, info, venv_python_executable=py))["static-properties"]
    right = {"resolve": ["v", "o", "null"], "supported": True, "validate": ([("bad :: f :: y", True), ("ok :: o :: 2", True)], True),
             "dist-info": {"bad": {"g": ["z"], "f": ["y"]}, "ok": {"o": ["2"]}}}[op]
    uses = "get_all_configs" if op == "validate" else "get_supported_configs"
    must_fail = at in ("load", "ns", uses) and kind not in HARMLESS
    z.write_spec("v", name, {**good, "fault": {"at": at, "kind": kind}})
    for again in range(2):
        r = attempt(call)
        check(r == ("reported" if must_fail else ("answer", right)), lambda: f"{op} with {kind} at {at}: {r}")
    z.write_spec("v", name, good)
    if must_fail:
        check(attempt(call) == ("answer", right), lambda: f"{op} after repairing {kind} at {at}: {attempt(call)}")
    return Outcome((at, kind, op), evaluations=3)


def gen_op(tier):
    def gen():
        for at, kinds in (("get_all_configs", RUNTIME + RESULT + HARMLESS), ("get_supported_configs", RUNTIME + RESULT + HARMLESS), ("load", RUNTIME + LOAD + HARMLESS), ("ns", NS)):
            for k, kind in enumerate(kinds):
                for j, op in enumerate(("resolve", "supported", "validate", "dist-info")):
                    if tier == "quick" and at.startswith("get") and (at == "get_all_configs") != (op == "validate") and (k + j) % 6:
                        continue
                    if at.startswith("get") and kind in ("empty",):
                        continue
                    yield [at, kind, op]
    return gen


# ---- healthy plugins in every supported style
F = """
class F:
    def __init__(self, n, v, m=False):
        self.name, self.values, self.multi_value = n, v, m
ALL = [F("f", ["x", "y"], True), F("g", ["z"])]
SUP = [F("g", ["z"]), F("f", ["y"])]
"""
STYLES = {
    "staticmethods": F + """
class P:
    namespace = "bad"
    is_aot_plugin = True
    @staticmethod
    def get_all_configs(): return ALL
    @staticmethod
    def get_supported_configs(): return SUP
""",
    "classmethods": F + """
class P:
    namespace = "bad"
    is_aot_plugin = True
    @classmethod
    def get_all_configs(cls): return ALL
    @classmethod
    def get_supported_configs(cls): return SUP
""",
    "instance": F + """
class Q:
    namespace = "bad"
    is_aot_plugin = True
    def get_all_configs(self): return list(ALL)
    def get_supported_configs(self): return list(SUP)
P = Q()
""",
    "instance-attributes": F + """
class Q:
    def __init__(self):
        self.namespace = "bad"
        self.is_aot_plugin = True
        self.get_all_configs = lambda: ALL
        self.get_supported_configs = lambda: SUP
P = Q()
""",
    "properties": F + """
class Q:
    @property
    def namespace(self): return "bad"
    @property
    def is_aot_plugin(self): return True
    def get_all_configs(self): return ALL
    def get_supported_configs(self): return SUP
P = Q()
""",
    "inherited": F + """
class Base:
    namespace = "other"
    is_aot_plugin = False
    @staticmethod
    def get_supported_configs(): return SUP
class P(Base):
    namespace = "bad"
    is_aot_plugin = True
    @staticmethod
    def get_all_configs(): return ALL
""",
    "slots": """
class F:
    __slots__ = ("name", "values", "multi_value")
    def __init__(self, n, v, m=False):
        self.name, self.values, self.multi_value = n, v, m
class P:
    namespace = "bad"
    is_aot_plugin = True
    extra_member = object()
    def get_all_configs(*a): return [F("f", ["x", "y"], True), F("g", ["z"])]
    def get_supported_configs(*a): return [F("g", ["z"]), F("f", ["y"])]
""",
    "namedtuple": """
from collections import namedtuple
F = namedtuple("F", "name values multi_value")
class P:
    namespace = "bad"
    is_aot_plugin = True
    def get_all_configs(*a): return [F("f", ["x", "y"], True), F("g", ["z"], False)]
    def get_supported_configs(*a): return [F("g", ["z"], False), F("f", ["y"], False)]
""",
    "class-features": """
class F1:
    name = "f"
    values = ["x", "y"]
    multi_value = True
    unrelated = 3
class F2:
    name = "g"
    values = ["z"]
    multi_value = False
class F3(F1):
    values = ["y"]
    multi_value = False
class P:
    namespace = "bad"
    is_aot_plugin = True
    def get_all_configs(*a): return [F1, F2]
    def get_supported_configs(*a): return [F2(), F3()]
""",
    "stateful": F + """
class Q:
    namespace = "bad"
    is_aot_plugin = True
    calls = 0
    def get_all_configs(self):
        assert self.calls == 0; self.calls += 1
        return ALL
    def get_supported_configs(self):
        assert self.calls == 0; self.calls += 1
        return SUP
P = Q()
""",
    "stderr": F + """
import sys, warnings, logging
warnings.warn("w")
logging.warning("hello")
class P:
    namespace = "bad"
    is_aot_plugin = True
    def get_all_configs(*a):
        print("noise", file=sys.stderr)
        return ALL
    def get_supported_configs(*a):
        sys.stderr.write("x" * 200000)
        return SUP
""",
    "module": F + """
namespace = "bad"
is_aot_plugin = True
def get_all_configs(): return ALL
def get_supported_configs(): return SUP
""",
    "getattr-module": F + """
def __getattr__(name):
    if name == "P":
        class P:
            namespace = "bad"
            is_aot_plugin = True
            get_all_configs = staticmethod(lambda: ALL)
            get_supported_configs = staticmethod(lambda: SUP)
        return P
    raise AttributeError(name)
""",
    "nested": F + """
class Outer:
    class Mid:
        class P:
            namespace = "bad"
            is_aot_plugin = True
            get_all_configs = staticmethod(lambda: ALL)
            get_supported_configs = staticmethod(lambda: SUP)
""",
}


def setup_styles(e):
    setup(e)
    for k, src in STYLES.items():
        k = k.replace("-", "_")
        (Z["site"] / f"style_{k}.py").write_text(src)
        (Z["site"] / f"style_{k}_noaot.py").write_text("\n".join(line for line in src.splitlines() if "is_aot" not in line and line != "    @property" or "namespace" in line).replace("    def namespace", "    @property\n    def namespace").replace("    @property\n    @property", "    @property"))
        pk = Z["site"] / f"pkgd_{k}"
        pk.mkdir()
        (pk / "__init__.py").write_text("")
        (pk / "sub_mod.py").write_text(src)


def run_style(case):
    style, form, q, noaot, times = case
    obj = {"module": None, "nested": "Outer.Mid.P"}.get(style, "P")
    k = style.replace("-", "_")
    mod = f"pkgd_{k}.sub_mod" if form == "package" else f"style_{k}{'_noaot' if noaot else ''}"
    sep = {"spaced": " : ", "tab": "\t:"}.get(form, ":")
    ref_ = mod if obj is None else mod + sep + obj
    for _ in range(times):
        r = attempt(lambda: query([ref_], q, [GOOD]))
        if noaot and q == "fixed":
            check(r == "reported", lambda: f"{ref_!r} is not an ahead-of-time plugin but: {r}")
        else:
            check(r == ("answer", None), lambda: f"healthy plugin {ref_!r} ({q}): {r}")
    # in company of another healthy one
    if not (noaot and q == "fixed"):
        r = attempt(lambda: query([ref_, api({**OTHER, "i": [style, form, noaot]})], q, [GOOD, OTHER]))
        check(r == ("answer", None), lambda: f"healthy plugins {ref_!r} and another ({q}): {r}")
    return case


def gen_style():
    for style in STYLES:
        for form in ("plain", "spaced", "tab", "package"):
            for q in ("load", "all", "sup", "fixed"):
                yield [style, form, q, False, 2]
        for q in ("load", "all", "sup", "fixed"):
            yield [style, "plain", q, True, 2]


def run_shape(case):
    """healthy plugins with any number of features and values"""
    nf, nv, multi, empty_sup = case
    Z["n"] += 1
    feats = [[f"f{i}", [f"{j}.{i}" for j in range(nv)][::-1], bool(multi)] for i in range(nf)]
    spec = {"ns": "bad", "i": Z["n"], "aot": True, "all": feats, "sup": [] if empty_sup else [[n, v[: max(1, nv // 2)], m] for n, v, m in feats[::-1]]}
    for q in ("all", "sup", "fixed"):
        r = attempt(lambda: query([api(spec)], q, [spec]))
        check(r == ("answer", None), lambda: f"healthy plugin with {nf} features of {nv} values ({q}): {r}")
    return case


def gen_shape():
    for nf in (1, 2, 3, 8, 12, 33):
        for nv in (1, 2, 9, 10, 11, 40):
            for multi in (0, 1):
                for e in (0, 1):
                    yield [nf, nv, multi, e]


def spaces(tier):
    return [
        Space("faults", gen_fault(tier), run_fault, setup=setup),
        Space("references", gen_ref, run_ref, setup=setup_refs),
        Space("operations", gen_op(tier), run_op, setup=setup),
        Space("styles", gen_style, run_style, setup=setup_styles),
        Space("shapes", gen_shape, run_shape, setup=setup),
    ]
