"""C13: malformed variant metadata is rejected and well-formed metadata accepted."""
from __future__ import annotations

import copy
import datetime
import itertools
import json
import tomllib

from mc import c12, ref
from mc.core import Outcome, Space, check, check_eq
from variantlib.errors import ValidationError
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every single deviation (replacing, deleting, renaming, adding) at every place of several well-formed documents, and every pair from a smaller "
        "alphabet, in all three formats; acceptance is compared with a separate acceptor and accepted content with the document. An outcome is "
        "the verdict at a place.")
ASSUMPTIONS = ["unknown keys at the top level of a document are not judged (the format allows '$schema' there)"]

DATE = {"__date__": 1}  # stands for a TOML date in cases, which have to be JSON


# ------------------------------------------------------------------------------------------------- acceptor
def is_list_of(v, ok):
    return type(v) is list and all(type(x) is str and ok(x) for x in v)


def ok_line(s):
    return len(s) > 0 and not any(c.isspace() and c != " " or c in "\x1c\x1d\x1e\x1f\x85" for c in s)


def word(s):
    return len(s) > 0 and all(c == "." or c == "_" or c.isalnum() for c in s)


def ok_api(s):
    parts = s.split(":")
    if len(parts) == 1:
        return word(s)
    return len(parts) == 2 and word(parts[0].rstrip()) and word(parts[1].lstrip())


def table_of(v, key_ok, val_ok):
    return type(v) is dict and all(type(k) is str and key_ok(k) and val_ok(x) for k, x in v.items())


def names(v):
    return is_list_of(v, ref.ok_name)


def feature_values(v):
    return table_of(v, ref.ok_name, lambda x: is_list_of(x, ref.ok_value))


def ok_provider(p):
    if type(p) is not dict or not set(p) <= {"requires", "enable-if", "optional", "plugin-api", "install-time"}:
        return False
    if "requires" in p and not is_list_of(p["requires"], ok_line):
        return False
    if "enable-if" in p and not (type(p["enable-if"]) is str and ok_line(p["enable-if"])):
        return False
    if "plugin-api" in p and not (type(p["plugin-api"]) is str and ok_api(p["plugin-api"])):
        return False
    if any(k in p and type(p[k]) is not bool for k in ("optional", "install-time")):
        return False
    return bool(p.get("requires")) or p.get("install-time", True) is False


def accept(fmt, d, label=None):
    if type(d) is not dict:
        return False
    prio = d.get("default-priorities", {})
    if type(prio) is not dict or not set(prio) <= {"namespace", "feature", "property"}:
        return False
    if not names(prio.get("namespace", [])) or not table_of(prio.get("feature", {}), ref.ok_name, names):
        return False
    if not table_of(prio.get("property", {}), ref.ok_name, feature_values):
        return False
    prov = d.get("providers", {})
    if not table_of(prov, ref.ok_name, ok_provider) or set(prio.get("namespace", [])) != set(prov):
        return False
    st = d.get("static-properties", {})
    if not table_of(st, ref.ok_name, feature_values):
        return False
    aot = {n for n, p in prov.items() if p.get("install-time", True) is False and (fmt != "project" or not p.get("requires"))}
    if set(st) != aot:
        return False
    if any(len(fs) > 1 and not set(fs) <= set(prio.get("feature", {}).get(n, [])) for n, fs in st.items()):
        return False
    if fmt == "project":
        return True
    if "variants" not in d or type(d["variants"]) is not dict:
        return False
    for lab, v in d["variants"].items():
        if not ref.ok_label(lab) or not table_of(v, ref.ok_name, feature_values):
            return False
        ps = ref.unpacked(v)
        if len(ps) != len(set(ps)) or (lab == "null") != (not ps):
            return False
    if fmt == "wheel":
        return len(d["variants"]) == 1 and label in (None, *d["variants"])
    return True


# --------------------------------------------------------------------------------------------------- the code
def revive(x):
    if isinstance(x, dict):
        return datetime.date(2020, 1, 1) if x == DATE else {k: revive(v) for k, v in x.items()}
    return [revive(v) for v in x] if isinstance(x, list) else x


def attempt(fn, want, what):
    """-> object or None"""
    try:
        o = fn()
    except ValidationError:
        check(not want, f"{what}: rejected")
        return None
    check(want, f"{what}: accepted")
    return o


def toml_ok(x):
    if isinstance(x, dict):
        return all(toml_ok(v) for v in x.values())
    return all(map(toml_ok, x)) if isinstance(x, list) else x is not None


def toml_any(v):
    if isinstance(v, datetime.date):
        return v.isoformat()
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(toml_any, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{c12.toml_str(k)} = {toml_any(x)}" for k, x in v.items()) + "}"
    return c12.toml_val(v)


def judge(fmt, d, label=None, texts=True):
    d = revive(d)
    want = accept(fmt, d, label)
    n = 1
    objs = []
    if fmt == "project":
        objs.append(attempt(lambda: VariantPyProjectToml({"variant": copy.deepcopy(d), "project": {"variant": 1}}), want, "project table"))
        if texts and toml_ok(d):
            t = tomllib.loads(f"variant = {toml_any(d)}\n")
            objs.append(attempt(lambda: VariantPyProjectToml(t), want, "project text"))
            n += 1
    elif fmt == "index":
        objs.append(attempt(lambda: VariantsJson(copy.deepcopy(d)), want, "index"))
    else:
        s = json.dumps(d)
        objs.append(attempt(lambda: VariantDistInfo(s, label), want, f"wheel metadata, label {label!r} expected"))
        if label is None:
            objs.append(attempt(lambda: VariantDistInfo(s.encode()), want, "wheel metadata as bytes"))
            n += 1
    if want:
        exp = c12.expected(d)
        for o in objs:
            check_eq({k: v for k, v in c12.plain(o).items() if k != "property_priorities"}, {k: v for k, v in exp.items() if k != "property_priorities"}, "content")
            check_eq({k: v for k, v in o.property_priorities.items() if v}, {k: v for k, v in exp["property_priorities"].items() if v}, "property priorities")
            if fmt != "project":
                check_eq(c12.variants_of(o), c12.want_variants(d), "variants")
    return want, n


# ---------------------------------------------------------------------------------------------- base documents
AOT = {"install-time": False}
BASES = [
    {"default-priorities": {"namespace": ["a", "b"], "feature": {"a": ["f", "g"]}, "property": {"a": {"f": ["y", "x"]}}},
     "providers": {"a": {"requires": ["p >= 1", "q"], "enable-if": "python_version > '3'", "plugin-api": "p.q:R", "optional": True, "install-time": True}, "b": {"requires": ["r"]}},
     "variants": {"v1": {"a": {"f": ["x", "y"]}, "b": {"g": ["1.2"]}}}},
    {"default-priorities": {"namespace": ["a", "b"], "feature": {"a": ["g", "f"], "b": ["h"]}, "property": {"b": {}}},
     "providers": {"a": {"install-time": False}, "b": {"install-time": False, "plugin-api": "m", "optional": False}},
     "static-properties": {"a": {"f": ["x"], "g": ["z", "y"]}, "b": {}}, "variants": {"null": {}}},
    {"default-priorities": {"namespace": ["a"], "feature": {}}, "providers": {"a": {"install-time": False, "requires": ["x"]}},
     "static-properties": {"a": {"f": ["1", "2"]}}, "variants": {"a.b_1": {"a": {"f": ["2"]}}}},
    {"variants": {}},
    {"$schema": "x", "default-priorities": {"namespace": []}, "providers": {}, "static-properties": {}, "variants": {"x": {"q": {"f": ["0"]}}, "null": {"z": {}}, "y": {"q": {"f": []}, "r": {"g": ["1"]}}}},
]
PROJECT_BASES = [{k: v for k, v in b.items() if k not in ("variants", "$schema")} for b in BASES]
PROJECT_BASES[2] = {k: v for k, v in PROJECT_BASES[2].items() if k != "static-properties"}

STRINGS = ["a", "f", "zz", "", "A", "a-b", "a.b", "a b", "a\n", "\na", " a", "a:b", "a : b", "a:", ":a", "a:b:c", "a[x]", "\u0661", "\u00e9", "a" * 16, "a" * 17, "null", "_", "0", ".", "a\tb", "\u2028", "b\u00a0c", "a\x1fb"]
OTHERS = [None, True, False, 0, 1, 1.5, [], ["a"], ["f", "g"], [1], [None], [["a"]], ["a", True], [{}], {}, {"a": 1}, {"a": None}, {"a": []}, {"a": ["x"]}, {"a": {}}, {"a": {"f": []}}, {"a": {"f": ["x"]}},
          {"a": {"f": "x"}}, {"a": {"f": {"x": 1}}}, {"A": ["x"]}, {"requires": ["x"]}, {"install-time": False}]
KEYS = ["a", "b", "f", "zz", "", "A", "a-b", "a.b", "a b", "a\n", "\u00e9", "null", "a" * 17, "namespace", "feature", "property", "requires", "optional", "plugin-api", "enable-if", "install-time", "install_time", "variants", "provider"]
TOP = {"default-priorities", "providers", "static-properties", "variants"}


def places(d, path=()):
    yield path
    if isinstance(d, dict):
        for k in d:
            yield from places(d[k], path + (k,))
    elif isinstance(d, list):
        for i, x in enumerate(d):
            yield from places(x, path + (i,))


def get(d, path):
    for p in path:
        d = d[p]
    return d


def deviations(d, strings, others, keys, fmt):
    """edits (path, kind, value)"""
    for path in places(d):
        if path == ("$schema",):
            continue
        for v in strings + others + ([DATE] if fmt == "project" else []):
            yield path, "set", v
        node = get(d, path)
        if path:
            yield path, "del", None
            if isinstance(get(d, path[:-1]), dict) and len(path) > 1:
                for k in keys:
                    if k not in get(d, path[:-1]):
                        yield path, "rename", k
        if isinstance(node, dict) and path:
            for k in keys:
                if k not in node:
                    for v in ("x", True, False, [], ["f"], {}, {"f": ["x"]}):
                        yield path, "add", [k, v]
        elif isinstance(node, dict):
            for k in sorted(TOP - set(node)):
                for v in strings[:2] + others:
                    yield path, "add", [k, v]
        elif isinstance(node, list):
            for v in strings + others[:6]:
                if v not in node or isinstance(v, (bool, int)):
                    yield path, "append", v
            if len(node) > 1:
                yield path, "reverse", None


class Gone(Exception):
    pass


def apply(d, edit):
    path, kind, v = edit
    v = copy.deepcopy(v)
    if not path and kind == "set":
        return v
    try:
        parent, node = (get(d, path[:-1]) if path else None), get(d, path)
    except (KeyError, IndexError, TypeError):
        raise Gone from None
    if path and not isinstance(parent, (dict, list)):
        raise Gone
    if kind == "set":
        parent[path[-1]] = v
    elif kind == "del":
        del parent[path[-1]]
    elif kind == "rename":
        if not isinstance(parent, dict) or v in parent:
            raise Gone
        parent[v] = parent.pop(path[-1])
    elif kind == "add":
        if not isinstance(node, dict) or v[0] in node:
            raise Gone
        node[v[0]] = v[1]
    elif kind == "append":
        if not isinstance(node, list):
            raise Gone
        node.append(v)
    elif kind == "reverse":
        if not isinstance(node, list):
            raise Gone
        node.reverse()
    return d


def bases(fmt):
    if fmt == "project":
        return PROJECT_BASES
    return BASES if fmt == "index" else BASES[:3]


def run_edits(case):
    fmt, b, label, edits = case
    d = copy.deepcopy(bases(fmt)[b])
    try:
        for e in edits:
            d = apply(d, (tuple(e[0]), e[1], e[2]))
    except Gone:
        return Outcome(trivial=True, evaluations=0)
    if repeated(d):
        return Outcome(trivial=True, evaluations=0)
    want, n = judge(fmt, d, label, texts=len(edits) == 1)
    return Outcome((fmt, b, want, [(e[0], e[1]) for e in edits]), evaluations=n)


def repeated(d):
    """repeated entries of priority and requirement lists are not judged"""
    if isinstance(d, dict):
        return any(repeated(v) for k, v in d.items() if k != "variants")
    if isinstance(d, list):
        return any(isinstance(x, str) and d.count(x) > 1 for x in d)
    return False


def gen_single(tier):
    def gen():
        for fmt in ("index", "wheel", "project"):
            for b, d in enumerate(bases(fmt)):
                labels = [None] if fmt != "wheel" else [None, next(iter(d["variants"])), "zz", ""]
                for lab in labels:
                    yield [fmt, b, lab, []]
                for lab in labels[:2]:
                    for e in deviations(d, STRINGS, OTHERS, KEYS, fmt):
                        yield [fmt, b, lab, [e]]
    return gen


def gen_pairs(tier):
    full = tier != "quick"

    def gen():
        S, O, K = ["a", "A", "zz"], [None, True, False, [], ["f"], {}, {"a": {}}, {"a": {"f": ["x"]}}], ["a", "b", "zz", "A", "install-time"]
        if not full:
            S, O, K = ["A", "zz"], [None, False, [], ["a"], {}], ["b", "zz"]
        for fmt in ("index", "project", "wheel"):
            for b, d in enumerate(bases(fmt)):
                if not full and (fmt, b) not in (("index", 1), ("index", 2), ("project", 1), ("project", 2), ("wheel", 2)):
                    continue
                es = list(deviations(d, S, O, K, fmt))
                for e, f in itertools.combinations(es, 2):
                    if e[0] == f[0] and e[1] in ("set", "del", "rename") and f[1] in ("set", "del"):
                        continue
                    yield [fmt, b, None, [e, f]]
    return gen


# --------------------------------------------------------------------------------- requirements between tables
def run_cross(case):
    """namespaces, providers, static properties and feature priorities against each other"""
    fmt, provs, nsp, st, fp, va = case
    d = {"default-priorities": {"namespace": nsp, "feature": fp}, "providers": provs, "static-properties": st}
    if fmt != "project":
        d["variants"] = va
    want, n = judge(fmt, d)
    return Outcome((want, json.dumps(case)), evaluations=n)


PROV = {"install": {"requires": ["x"]}, "aot": {"install-time": False, "requires": ["x"]}, "rec": {"install-time": False}, "bad": {}}


def gen_cross(tier):
    def gen():
        st_opts = [None, {}, {"f": ["x"]}, {"f": ["x"], "g": []}]
        fp_opts = [None, ["f"], ["g", "f", "e"]]
        for fmt in ("index", "wheel", "project"):
            for ka, kb in itertools.product(PROV, [None, *PROV]):
                provs = {"a": PROV[ka]} | ({"b": PROV[kb]} if kb else {})
                for nsp in ([], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "b", "c"]):
                    for sa, sb in itertools.product(st_opts, repeat=2):
                        for fa in fp_opts:
                            if tier == "quick" and (sorted(nsp) != sorted(provs)) and (sa, sb) not in ((None, None), ({}, None), (None, {}), ({"f": ["x"]}, {"f": ["x"], "g": []})):
                                continue
                            st = {k: v for k, v in (("a", sa), ("b", sb)) if v is not None}
                            fp = {k: v for k, v in (("a", fa), ("b", fp_opts[(len(nsp) + (fa is None)) % 3])) if v is not None}
                            yield [fmt, provs, nsp, st, fp, {"null": {}}]
    return gen


def run_label(case):
    """wheel metadata: number of variants, label and properties"""
    va, expected = case
    d = {"variants": va}
    outs = [judge("wheel", d, expected)[0], judge("index", d)[0]]
    return Outcome((outs, json.dumps(case)), evaluations=2)


def gen_label():
    descs = [{}, {"a": {}}, {"a": {"f": []}}, {"a": {"f": ["x"]}}, {"a": {"f": ["x", "x"]}}, {"a": {"f": ["x"]}, "b": {"f": ["x"]}}, {"A": {"f": ["x"]}}, {"a": {"": ["x"]}}, {"a": {"f": [""]}}, {"a": {"f.": ["x"]}}]
    labels = ["null", "a", "nul", "null0", "", "A", "x" * 16, "x" * 17, "a-b", "a.b_0", "a b", "a\n", "\u00e9", "Null", "0"]
    for lab in labels:
        for de in descs:
            for exp in (None, lab, "null", "a", ""):
                yield [{lab: de}, exp]
    for l1, l2 in itertools.permutations(["null", "a", "b"], 2):
        for d1, d2 in itertools.product(descs[:4], repeat=2):
            yield [{l1: d1, l2: d2}, None]
            yield [{l1: d1, l2: d2}, l1]
    yield [{}, None]
    yield [{}, "a"]
    for n in (3, 12, 33):
        yield [{f"l{i}": {"a": {"f": [f"{i}"]}} for i in range(n)}, None]


# ------------------------------------------------------------------------------------------------- long documents
def big(n, where, pos, bad):
    """a document in which one kind of list or table has n entries, with something wrong at one position"""
    def names_(key, prefix="n"):
        r = [f"{prefix}{i}" for i in range(n)]
        if where == key and bad is not None:
            r[pos] = bad
        return r

    d = {"default-priorities": {"namespace": ["a"], "feature": {"a": ["f"]}, "property": {"a": {"f": ["x"]}}}, "providers": {"a": {"install-time": False, "requires": ["x"]}}, "static-properties": {"a": {"f": ["x"]}}, "variants": {"l": {"a": {"f": ["x"]}}}}
    pr = d["default-priorities"]
    if where in ("providers", "namespaces"):
        d["providers"] = {x: {"requires": ["x"]} for x in names_("providers")}
        pr["namespace"] = names_("namespaces")
        d["static-properties"] = {}
        if where == "providers" and bad is not None:
            pr["namespace"] = list(d["providers"])
    elif where == "requires":
        d["providers"]["a"]["requires"] = names_(where)
    elif where == "features":
        pr["feature"]["a"] = ["f", *names_(where)]
    elif where == "feature tables":
        pr["feature"] = {x: ["f"] for x in names_(where)}
    elif where == "values":
        pr["property"]["a"]["f"] = names_(where)
    elif where == "property tables":
        pr["property"]["a"] = {x: ["y"] for x in names_(where)}
    elif where == "static values":
        d["static-properties"]["a"]["f"] = names_(where)
    elif where == "static features":
        fs = names_(where)
        d["static-properties"]["a"] = {x: ["y"] for x in fs}
        pr["feature"]["a"] = fs if bad is None or not isinstance(bad, str) else [x for x in fs if x != bad]
    elif where == "variant values":
        d["variants"]["l"]["a"]["f"] = names_(where)
    elif where == "variant features":
        d["variants"]["l"]["a"] = {x: ["y"] for x in names_(where)}
    elif where == "variant namespaces":
        d["variants"]["l"] = {x: {"f": ["y"]} for x in names_(where)}
    elif where == "variants":
        d["variants"] = {x: {"a": {"f": [str(i)]}} for i, x in enumerate(names_(where))}
    elif where == "variant bodies":
        d["variants"] = {f"n{i}": {"a": {"f": [str(i)]}} for i in range(n)}
        if bad is not None:
            d["variants"][f"n{pos}"] = {"a": {"f": ["x", "x"]}} if bad == "same" else {} if bad == "" else {"A": {"f": ["x"]}}
    return d


BIG = {"providers": ("", "A"), "namespaces": ("zz", "A", 1), "requires": ("", "x\ny", 1), "features": ("A", 1), "feature tables": ("A",), "values": (" ", 1), "property tables": ("A",), "static values": (" ", 1), "static features": ("A", "zz"),
       "variant values": ("X", 1, "same"), "variant features": ("A",), "variant namespaces": ("A",), "variants": ("A", "null"), "variant bodies": ("same", "", "A")}


def run_big(case):
    fmt, n, where, pos, bad = case
    if bad == "same" and where == "variant values":
        bad = "n0" if pos else f"n{n - 1}"
    d = big(n, where, pos, bad)
    if fmt == "project":
        del d["variants"]
        if where in ("static features",):
            d["providers"]["a"].pop("requires")
        elif where in ("static values",):
            del d["providers"]["a"]["requires"]
        else:
            d["static-properties"] = {}
    want, k = judge(fmt, d)
    return Outcome((fmt, n, where, pos, bad, want), evaluations=k)


def gen_big(tier):
    def gen():
        for n in (2, 5, 9, 17, 33, 65, 101, 129, 257) if tier == "quick" else (*range(1, 70), 100, 101, 127, 128, 129, 255, 256, 257, 513, 1025):
            for where, bads in BIG.items():
                for fmt in ("index", "wheel", "project"):
                    if fmt == "project" and where.startswith("variant"):
                        continue
                    yield [fmt, n, where, 0, None]
                    for bad in bads:
                        for pos in sorted({0, 1, n // 2, n - 1}):
                            if pos < n:
                                yield [fmt, n, where, pos, bad]
    return gen


def spaces(tier):
    return [
        Space("single", gen_single(tier), run_edits),
        Space("tables", gen_cross(tier), run_cross),
        Space("labels", gen_label, run_label),
        Space("pairs", gen_pairs(tier), run_edits),
        Space("sizes", gen_big(tier), run_big),
    ]
