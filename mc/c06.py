"""C06: plugin code runs exactly for the providers the policy enables."""
from __future__ import annotations

import itertools

from mc import ref
from mc.core import Outcome, Space, check, check_eq
from mc.util import vd
from mc.zygote import Zygote, api
from variantlib.api import check_variant_supported, get_variants_by_priority, make_variant_dist_info, validate_variant
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.plugins.loader import PluginLoader
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("the full product of provider settings (install time, requirements, optional, marker, plugin reference) and policy arguments (optional "
        "opt-in, namespace filter, ahead-of-time inclusion) for one provider, pairwise products for two and three, through the loader and every "
        "public operation; the activity logged by the plugins themselves is compared with the policy. An outcome is that activity.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

MARK = {None: True, 'python_version >= "3.0"': True, 'python_version < "3.0"': False, 'sys_platform == "win32" or os_name == "nt"': False,
        'platform_system == "Linux" and python_version >= "3"': True}
MODULE = """
import os
def _log(x):
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "log"), "a") as f:
        f.write(x + "\\n")
_log("load {ns}")
class F:
    def __init__(self, n, v):
        self.name, self.values, self.multi_value = n, v, False
namespace = "{ns}"
is_aot_plugin = True
def get_all_configs():
    _log("get_all_configs {ns}")
    return [F("f", ["x", "y"])]
def get_supported_configs():
    _log("get_supported_configs {ns}")
    return [F("f", ["x"])]
"""
Z = {"n": 0}


def setup(e):
    Z["z"] = Zygote(e)
    Z["py"], Z["site"] = Z["z"].venv("v")


def make(ns, p):
    """-> ProviderInfo; p = dict(it, req, opt, mark, api)"""
    Z["n"] += 1
    name = f"pkg_{ns}_{Z['n']}"
    plugin_api = None
    reqs = []
    if p["req"]:
        form = p["req"]
        reqs = {1: [name], 2: [name.replace("_", "-") + " >= 1.0", "other_pkg"], 3: [name.replace("_", "-") + '[extra]==2.*; python_version > "2"', "zzz", name]}[form]
        if p["api"]:
            spec = {"ns": ns, "aot": True, "i": Z["n"], "all": [["f", ["x", "y"], False]], "sup": [["f", ["x"], False]]}
            plugin_api = api(spec)
        else:
            (Z["site"] / f"{name}.py").write_text(MODULE.format(ns=ns))
    elif p["api"]:
        plugin_api = "does_not:exist"
    return ProviderInfo(plugin_api=plugin_api, enable_if=p["mark"], install_time=p["it"], optional=p["opt"], requires=reqs)


def enabled(ns, p, optional, flt, aot):
    if not p["it"] and not (p["req"] and aot):
        return False
    if flt is not None and ns not in flt:
        return False
    if p["opt"] and not (optional if isinstance(optional, bool) else ns in optional):
        return False
    return MARK[p["mark"]]


def build(provs):
    info = VariantInfo(namespace_priorities=list(provs), providers={ns: make(ns, p) for ns, p in provs.items()})
    info.static_properties = {ns: {"f": ["s"]} for ns, p in provs.items() if not p["it"] and not (p["opt"] or p["mark"])}
    return info


def activity():
    log = [tuple(line.split(" ")) for line in Z["z"].log("v")]
    return sorted({ns for k, ns in log if k == "load"}), {m: sorted({ns for k, ns in log if k == m}) for m in ("get_all_configs", "get_supported_configs")}


def expect_activity(loaded, method, what):
    got_load, got_calls = activity()
    check_eq(got_load, sorted(loaded), f"{what}: plugins loaded")
    for m in ("get_all_configs", "get_supported_configs"):
        check_eq(got_calls[m], sorted(loaded) if m == method else [], f"{what}: plugins asked for {m}")


def run_loader(case):
    provs, optional, flt, aot = case
    info = build(provs)
    want = [ns for ns, p in provs.items() if enabled(ns, p, optional, flt, aot)]
    activity()
    with PluginLoader(variant_info=info, venv_python_executable=Z["py"], enable_optional_plugins=optional, filter_plugins=flt, include_aot_plugins=aot) as loader:
        check_eq(list(loader.namespaces), want, "namespaces of the loader")
        check_eq(sorted(loader.plugin_api_values), sorted(want), "plugin_api_values")
        got_load, got_calls = activity()
        check_eq(got_load, sorted(want), "plugins loaded on entry")
        check_eq(got_calls, {"get_all_configs": [], "get_supported_configs": []}, "configs asked for on entry")
        sup = loader.get_supported_configs()
        static = [ns for ns in info.static_properties if ns not in want]
        check_eq(sorted(sup), sorted(want + static), "namespaces with supported configs")
        for ns, cfg in sup.items():
            check_eq([(c.name, c.values) for c in cfg.configs], [("f", ["s"] if ns in static else ["x"])], f"supported configs of {ns}")
        expect_activity(want, "get_supported_configs", "supported")
        if aot:
            alls = loader.get_all_configs()
            check_eq(sorted(alls), sorted(want + static), "namespaces with all configs")
            for ns, cfg in alls.items():
                check_eq([(c.name, c.values) for c in cfg.configs], [("f", ["s"] if ns in static else ["x", "y"])], f"all configs of {ns}")
            expect_activity(want, "get_all_configs", "all")
    check_eq(activity()[0], [], "activity on exit")
    return Outcome((tuple(want), tuple(static)))


def prov_list(rich):
    for it in (True, False):
        for req in (1, 2, 3) if rich else (2,):
            for opt in (False, True):
                for mark in MARK if rich else (None, 'python_version < "3.0"'):
                    for a in (False, True) if rich else (True,):
                        yield {"it": it, "req": req, "opt": opt, "mark": mark, "api": a}
    for opt in (False, True):
        for a in (False, True):
            yield {"it": False, "req": 0, "opt": opt, "mark": None, "api": a}


OPTIONAL = [False, True, [], ["a"], ["b"], ["a", "b"]]
FILTER = [None, [], ["a"], ["b"], ["b", "a"]]


def gen_one(tier):
    def gen():
        for p in prov_list(True):
            for o in OPTIONAL[:5]:
                for f in FILTER[:4]:
                    for aot in (False, True):
                        if tier == "quick" and p["req"] == 3 and (f not in (None, ["a"]) or o not in (True, ["a"])):
                            continue
                        yield [{"a": p}, o, f, aot]
    return gen


def gen_two(tier):
    def gen():
        ps = list(prov_list(False))
        for k, (p, q) in enumerate(itertools.product(ps, ps)):
            for i, o in enumerate(OPTIONAL):
                for j, f in enumerate(FILTER):
                    for aot in (False, True):
                        # quick: every pair of providers with every value of every argument, not every combination of them
                        if tier == "quick" and (i + j + aot + k) % 10:
                            continue
                        provs = {"a": p, "b": q}
                        if (i + j) % 2:
                            provs = {"b": q, "a": p}
                        yield [provs, o, f, aot]
        for p in ps:
            for o in (True, ["a", "c"]):
                yield [{"c": p, "a": ps[0], "b": p}, o, None, True]
                yield [{"c": p, "a": ps[0], "b": p}, o, ["a", "c"], False]
    return gen


def run_clash(case):
    """two plugins reporting one namespace"""
    p, q, form = case
    Z["n"] += 1
    provs = {}
    for ns, r, n in (("a", p, 0), ("b", q, 1)):
        spec = {"ns": "a" if form == "clash" else ns, "i": [Z["n"], n], "aot": True, "all": [["f", ["x"], False]], "sup": [["f", ["x"], False]]}
        provs[ns] = ProviderInfo(plugin_api=api(spec), enable_if=r["mark"], install_time=r["it"], optional=r["opt"], requires=["mcplug"])
    info = VariantInfo(namespace_priorities=["a", "b"], providers=provs)
    on = [ns for ns, r in (("a", p), ("b", q)) if enabled(ns, r, False, None, True)]
    loader = PluginLoader(variant_info=info, venv_python_executable=Z["py"], include_aot_plugins=True)
    try:
        with loader:
            got = sorted(loader.get_supported_configs())
    except Exception as e:  # noqa: BLE001
        check(form == "clash" and len(on) == 2, lambda: f"refused: {e!r}")
        return ("refused", len(on))
    check(not (form == "clash" and len(on) == 2), "two plugins for one namespace accepted")
    check_eq(got, sorted({"a"} if form == "clash" and on else on), "namespaces")
    return (form, got)


def gen_clash():
    ps = [p for p in prov_list(False) if p["req"]]
    for p in ps:
        for q in ps:
            for form in ("clash", "distinct"):
                yield [p, q, form]


def run_clash_many(case):
    """several plugins: every assignment of reported namespaces"""
    reported, op, order = case
    Z["n"] += 1
    provs = {}
    for n, r in enumerate(reported):
        spec = {"ns": r, "i": [Z["n"], n], "aot": True, "all": [["f", ["x"], False]], "sup": [["f", ["x"], False]]}
        provs[f"p{n}"] = ProviderInfo(plugin_api=api(spec), requires=["mcplug"])
    names = list(provs)
    info = VariantInfo(namespace_priorities=names if order else names[::-1], providers=provs)
    bad = len(set(reported)) < len(reported)
    try:
        with PluginLoader(variant_info=info, venv_python_executable=Z["py"], include_aot_plugins=op == "all") as loader:
            got = sorted(loader.get_supported_configs() if op == "supported" else loader.get_all_configs() if op == "all" else loader.namespaces)
    except Exception as e:  # noqa: BLE001
        check(bad, lambda: f"refused: {e!r}")
        return Outcome((case, "refused"))
    check(not bad, lambda: f"two plugins for one namespace accepted: {reported}")
    check_eq(got, sorted(reported), "namespaces")
    return Outcome((case, got))


def gen_clash_many(tier):
    def gen():
        for n in (3, 4) if tier == "quick" else (3, 4, 5):
            for reported in itertools.product("abcd"[:n] if n < 5 else "abc", repeat=n):
                # up to renaming: namespaces in order of first use
                for order in (True, False) if n < 4 or tier != "quick" else (True,):
                    if n > 3 and list(dict.fromkeys(reported)) != sorted(set(reported)):
                        continue
                    for op in ("supported", "all", "namespaces") if n == 3 else ("supported",):
                        yield [list(reported), op, order]
        for n in (9, 17, 33):
            base = [f"n{i}" for i in range(n)]
            yield [base, "supported", True]
            for i, j in ((0, 1), (0, n - 1), (n - 2, n - 1), (1, n // 2)):
                yield [[base[i] if k == j else x for k, x in enumerate(base)], "supported", True]
    return gen


def run_ops(case):
    """public operations apply the policy"""
    provs, op, arg = case
    info = build(provs)
    nss = list(provs)
    activity()
    if op in ("resolve", "supported"):
        d = VariantsJson(info)
        for ns, p in provs.items():
            if not p["it"]:
                d.static_properties.setdefault(ns, {"f": ["s"]})
        d.variants = {"v" + ns + v: vd([(ns, "f", v)]) for ns in nss for v in ("x", "s")}
        want = [ns for ns, p in provs.items() if enabled(ns, p, arg, None, False)]
        lab = {"v" + ns + "x" for ns in want} | {"v" + ns + "s" for ns, p in provs.items() if not p["it"]}
        if op == "resolve":
            got = get_variants_by_priority(variants_json=d, venv_python_executable=Z["py"], enable_optional_plugins=arg)
            check_eq(set(got), lab | {"null"}, "labels")
            expect_activity(want, "get_supported_configs" if want else None, "resolution")
        else:
            for name, desc in d.variants.items():
                r = check_variant_supported(vdesc=desc, variant_info=d, venv_python_executable=Z["py"], enable_optional_plugins=arg)
                check_eq(r, name in lab, f"support of {name}")
            expect_activity(want, "get_supported_configs" if want else None, "support check")
    elif op == "validate":
        used = arg
        want = [ns for ns, p in provs.items() if enabled(ns, p, True, used, True)]
        static = [ns for ns in info.static_properties if ns not in want]
        r = validate_variant(vd([(ns, "f", "y") for ns in used]), info, venv_python_executable=Z["py"])
        check_eq({p.namespace: v for p, v in r.results.items()}, {ns: True if ns in want else False if ns in static else None for ns in used}, "verdicts")
        expect_activity(want, "get_all_configs" if want else None, "validation")
    elif op == "dist-info":
        want = [ns for ns, p in provs.items() if not p["it"] and p["req"] and enabled(ns, p, True, None, True)]
        if arg:
            make_variant_dist_info(vd([]), info, venv_python_executable=Z["py"])
            expect_activity(want, "get_supported_configs" if want else None, "metadata")
        else:
            make_variant_dist_info(vd([("zz", "f", "x")]), info, expand_aot_plugin_properties=False, venv_python_executable=Z["py"])
            expect_activity([], None, "metadata without expansion")
    return Outcome((op, tuple(want) if op != "dist-info" or arg else ()))


def gen_ops(tier):
    def gen():
        one = list(prov_list(True)) if tier != "quick" else [p for p in prov_list(True) if p["req"] < 3]
        for p in one:
            provs = {"a": p}
            for o in OPTIONAL[:5]:
                yield [provs, "resolve", o]
            for o in OPTIONAL[:4]:
                yield [provs, "supported", o]
            for used in (["a"], ["b"], []):
                yield [provs, "validate", used]
            for x in (True, False):
                yield [provs, "dist-info", x]
        ps = list(prov_list(False))
        for p, q in itertools.product(ps, ps):
            provs = {"a": p, "b": q}
            for k, (op, arg) in enumerate([("resolve", False), ("resolve", ["b"]), ("resolve", True), ("validate", ["a"]), ("validate", ["a", "b", "c"]), ("dist-info", True)]):
                yield [provs, op, arg]
    return gen


# ---- markers: every formula over true and false terms, every operator and variable
TERMS = {True: ['os_name == "posix"', '"lin" in sys_platform', 'python_version >= "3.9"', "implementation_name != 'pypy'"],
         False: ['os_name == "nt"', '"win" in sys_platform', 'python_version < "3.9"', "implementation_name == 'pypy'"]}
SHAPES = [("{0}", 1), ("({0})", 1), ("{0} and {1}", 2), ("{0} or {1}", 2), ("{0} and {1} and {2}", 3), ("{0} or {1} or {2}", 3), ("{0} and {1} or {2}", 3),
          ("{0} or {1} and {2}", 3), ("({0} or {1}) and {2}", 3), ("{0} and ({1} or {2})", 3), ("{0} or {1} or {2} or {3}", 4), ("({0} and {1}) or ({2} and {3})", 4),
          ("{0} and {1} or {2} and {3}", 4), ("({0} or {1}) and ({2} or {3})", 4), ("(({0} or {1}) and {2}) or {3}", 4)]
SINGLE = {'python_version ~= "3.0"': True, 'python_version ~= "2.0"': False, 'python_version == "3.*"': True, 'python_version != "3.*"': False,
          '"3.0" <= python_version': True, '"3.0" > python_version': False, 'python_version > "3.2"': True, 'python_version < "3.2"': False,
          'python_full_version >= "3.10.0"': True, 'implementation_version < "3.9"': False, 'platform_python_implementation == "CPython"': True,
          'platform_python_implementation == "cpython"': False, 'sys_platform not in "win32 darwin"': True, 'sys_platform in "win32 linux"': True,
          'sys_platform not in "linux darwin"': False, "sys_platform == 'linux'": True, 'platform_system == "linux"': False, "platform_system == 'Linux'": True,
          'os_name=="posix"and(sys_platform=="linux")': True, "platform_release != ''": True, "platform_machine == ''": False, "'3' in python_version": True}


def run_marker(case):
    marker, want, it = case
    MARK[marker] = want
    p = {"it": it, "req": 2, "opt": False, "mark": marker, "api": True}
    return run_loader([{"a": p, "b": {**p, "mark": None}}, False, None, True])


def gen_marker(tier):
    def gen():
        for m, w in SINGLE.items():
            yield [m, w, True]
            yield [m, w, False]
        k = 0
        for shape, n in SHAPES:
            for vals in itertools.product((True, False), repeat=n):
                k += 1
                for rot in range(1 if tier == "quick" else 4):
                    terms = [TERMS[v][(i + k + rot) % 4] for i, v in enumerate(vals)]
                    yield [shape.format(*terms), eval(shape.format(*vals)), bool(k % 2)]  # noqa: S307
    return gen


# ---- names of which one is a part of the other
CLOSE = ["a", "a_b", "ab", "a_", "_a", "aa", "a0"]


def gen_names(tier):
    def gen():
        for n in range(2 if tier == "quick" else 3):
            for sel in itertools.combinations(CLOSE, n):
                for others in ("", "bb") if tier == "quick" else ("", "bb", "A"):
                    lst = [*sel, *([others] if others else [])]
                    for part in ("optional", "filter"):
                        for it in (True, False) if n == 1 else (True,):
                            p = {"it": it, "req": 2, "opt": part == "optional", "mark": None, "api": True}
                            yield [dict.fromkeys(CLOSE, p), lst if part == "optional" else True, lst if part == "filter" else None, True]
        for a, b in itertools.permutations(CLOSE, 2):
            p = {"it": True, "req": 2, "opt": True, "mark": None, "api": True}
            yield [dict.fromkeys([a, b], p), [a], None, True]
            yield [dict.fromkeys([a, b], p), True, [b], False]
            yield [dict.fromkeys([a, b], p), [a], [a, b], True]
            yield [dict.fromkeys([a, b], p), [a, b], [b], False]
    return gen


# ---- plugins that support nothing although static properties are recorded
def run_none(case):
    states, aot, op = case
    Z["n"] += 1
    provs, static, want, loaded = {}, {}, {}, set()
    for i, st in enumerate(states):
        ns = f"n{i}"
        it, none, has_static = st
        spec = {"ns": ns, "i": [Z["n"], i], "aot": True, "all": [["f", ["x", "y"], False]], "sup": [] if none else [["f", ["x"], False]]}
        provs[ns] = ProviderInfo(plugin_api=api(spec), install_time=it, requires=["mcplug"])
        if has_static:
            static[ns] = {"f": ["s", "x"]}
        if it or aot:
            loaded.add(ns)
            if not none:
                want[ns] = ["x"]
        elif has_static:
            want[ns] = ["s", "x"]
    info = VariantInfo(namespace_priorities=list(provs), providers=provs, static_properties=static)
    activity()
    if op == "loader":
        with PluginLoader(variant_info=info, venv_python_executable=Z["py"], include_aot_plugins=aot) as loader:
            got = {ns: c.configs[0].values for ns, c in loader.get_supported_configs().items()}
        check_eq(got, want, "supported configs")
    elif op == "resolve":
        d = VariantsJson(info)
        d.variants = {f"{ns}{v}": vd([(ns, "f", v)]) for ns in provs for v in "sxy"}
        got = get_variants_by_priority(variants_json=d, venv_python_executable=Z["py"])
        check_eq(set(got), {f"{ns}{v}" for ns, vs in want.items() for v in vs} | {"null"}, "labels")
    else:  # the recorded properties come from the plugin asked again
        d = VariantDistInfo(make_variant_dist_info(vd([]), info, venv_python_executable=Z["py"]))
        check_eq(d.static_properties, {ns: {"f": want[ns]} if ns in want else {} for ns in provs if not provs[ns].install_time}, "recorded properties")
    return Outcome((op, sorted(want), [w[0] for w in want.values()]))


def gen_none():
    sts = [(True, False, False), (True, True, False), (False, False, True), (False, True, True)]
    for n in (1, 2, 3):
        for states in itertools.product(sts, repeat=n):
            for aot in (False, True):
                yield [states, aot, "loader"]
            yield [states, False, "resolve"]
            if not any(s[0] for s in states) or n < 3:
                yield [states, True, "record"]


# ---- plugin references: a plugin answers at every level of packages and attributes, each naming its own place
LEVELS = """
class F:
    def __init__(self, n, v):
        self.name, self.values, self.multi_value = n, v, False
class P:
    def __init__(self, where, depth):
        self.namespace, self.is_aot_plugin = "a", True
        self.where = where
        if depth:
            for n in {attrs!r}:
                setattr(self, n, P(where + "." + n, depth - 1))
    def get_all_configs(self):
        return [F("f", [self.where.encode().hex()])]
    get_supported_configs = get_all_configs
for _n in {attrs!r}:
    globals()[_n] = P({mod!r} + ":" + _n, 3)
namespace, is_aot_plugin = "a", True
def get_all_configs():
    return [F("f", [{mod!r}.encode().hex()])]
get_supported_configs = get_all_configs
"""
ATTRS = ["A", "a", "_x", "Plugin9", "\u00e9t\u00e9"]


def run_ref(case):
    form, mod, attrs, sep = case
    root = Z["site"]
    parts = mod.split(".")
    for k in range(1, len(parts) + 1):
        d = root.joinpath(*parts[:k])
        (d / "__init__.py").parent.mkdir(parents=True, exist_ok=True)
        (d / "__init__.py").write_text(LEVELS.format(attrs=ATTRS, mod=".".join(parts[:k])), encoding="utf8")
    Z["n"] += 1
    if form == "declared":
        p = ProviderInfo(plugin_api=mod + (sep + ".".join(attrs) if attrs else ""), requires=["other-pkg"])
        want = mod + (":" + ".".join(attrs) if attrs else "")
    else:
        p = ProviderInfo(requires=[form.replace("NAME", mod.replace("_", "-") if sep == "-" else mod), "other-pkg >= 2"])
        want = mod
    info = VariantInfo(namespace_priorities=["a"], providers={"a": p})
    for aot in (True, False):
        with PluginLoader(variant_info=info, venv_python_executable=Z["py"], include_aot_plugins=aot) as loader:
            cfg = loader.get_supported_configs()["a"]
        check_eq(bytes.fromhex(cfg.configs[0].values[0]).decode(), want, "the plugin that was asked")
    return (form, want)


def gen_ref():
    for mod in ("refmod", "RefMod", "ref_mod_2", "refpkg.sub", "refpkg.sub.deep", "refpkg.sub.deep.Er", "r\u00e9f"):
        for depth in range(5):
            for attrs in itertools.product(ATTRS if depth < 2 else ATTRS[:2], repeat=depth):
                for sep in (":", " : ", ":\t", " :") if depth == 1 else (":",):
                    yield ["declared", mod, list(attrs), sep]
    for mod in ("refmod", "RefMod", "ref_mod_2", "refpkg.sub", "Ref_Pkg.Sub_a", "r2", "R"):
        for form in ("NAME", "NAME >= 1.0", "NAME[extra_x,y]==2.*", 'NAME; python_version < "3"', "NAME @ https://example.com/other-1.0.whl", "NAME~=1.0,!=1.2", "  NAME  "):
            for sep in ("_", "-"):
                yield [form, mod, [], sep]


def spaces(tier):
    return [
        Space("references", gen_ref, run_ref, setup=setup),
        Space("markers", gen_marker(tier), run_marker, setup=setup),
        Space("names", gen_names(tier), run_loader, setup=setup),
        Space("none supported", gen_none, run_none, setup=setup),
        Space("one", gen_one(tier), run_loader, setup=setup),
        Space("two", gen_two(tier), run_loader, setup=setup),
        Space("clash", gen_clash, run_clash, setup=setup),
        Space("clashes of several", gen_clash_many(tier), run_clash_many, setup=setup),
        Space("operations", gen_ops(tier), run_ops, setup=setup),
    ]
