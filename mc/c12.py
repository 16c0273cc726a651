"""C12: variant metadata survives writing, reading and conversion unchanged."""
from __future__ import annotations

import copy
import dataclasses
import itertools
import json
import tomllib

from mc import ref
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import snap, tup, vd
from variantlib.models.variant import VariantDescription
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every document of a bounded universe (providers with every combination of settings, recorded properties, priorities and variants, in every "
        "order, small and large) is read, written, re-read and converted along every chain of metadata classes; every mutable part of both sides of "
        "every conversion is changed in turn. An outcome is the plain content of the document.")
ASSUMPTIONS = ["requirement, marker and reference texts come from a fixed list including quotes, escapes and non-ASCII characters"]

# ------------------------------------------------------------------------------------------------- documents
REQ = [["p"], ["p >= 1.2", "q[x,y]==2.*; python_version >= '3.10'"], ['"q\\u" \\ \u00e4\u2603 #\x7f']]
ENABLE = [None, 'sys_platform == "linux"', "py\\x < '\u00e9\U0001f600' # a"]
API = [None, "p.q:R.S", "\u00e4_m1 : x"]


def provider_options(rich):
    """plain provider tables (json keys)"""
    for r in (range(len(REQ)) if rich else (1,)):
        for e in (ENABLE if rich else ENABLE[:2]):
            for a in (API if rich else API[:2]):
                for opt in (False, True):
                    for it in (True, False):
                        d = {"requires": list(REQ[r])}
                        if e is not None:
                            d["enable-if"] = e
                        if a is not None:
                            d["plugin-api"] = a
                        if opt:
                            d["optional"] = True
                        if not it:
                            d["install-time"] = False
                        yield d
    yield {"install-time": False}
    yield {"install-time": False, "requires": [], "optional": False}
    yield {"install-time": False, "plugin-api": "x:y"}
    yield {"requires": ["p"], "install-time": True, "optional": False}


STATICS = [{}, {"f": ["y", "x"]}, {"f": []}, {"g": ["2", "10", "1"], "f": ["x"]}]
FEATS = [None, [], ["f"], ["g", "f"], ["f", "g", "h"]]
PROPS = [None, {"f": ["y", "x"]}, {"f": [], "g": ["b.1", "a"]}]
VARIANTS = [{}, {"null": {}}, {"v1": {"a": {"f": ["x"]}}}, {"zz": {"b": {"g": ["2", "10"]}}, "a.b_1": {"a": {"f": ["x", "y"], "e": ["0"]}}, "null": {}},
            {"null": {"a": {}, "b": {"f": []}}, "0": {"c": {"f": ["y"]}}}]


def document(nss, provs, statics, feats, props, variants):
    d = {"default-priorities": {"namespace": list(nss)}, "providers": {n: copy.deepcopy(p) for n, p in zip(nss, provs)}, "variants": copy.deepcopy(variants)}
    fp = {n: list(f) for n, f in zip(nss, feats) if f is not None}
    pp = {n: copy.deepcopy(p) for n, p in zip(nss, props) if p is not None}
    st = {}
    for n, p, s in zip(nss, provs, statics):
        if p.get("install-time", True) is False:
            st[n] = copy.deepcopy(s)
            if len(s) > 1 and not set(s) <= set(fp.get(n, [])):
                fp[n] = fp.get(n, []) + [f for f in s if f not in fp.get(n, [])]
    if fp:
        d["default-priorities"]["feature"] = fp
    if pp:
        d["default-priorities"]["property"] = pp
    if st:
        d["static-properties"] = st
    return d


def gen_docs(tier):
    full = tier != "quick"
    rich, poor = list(provider_options(True)), list(provider_options(False))
    k = itertools.count()

    def v():
        return VARIANTS[next(k) % len(VARIANTS)]
    # one provider: every setting with every table
    for p in rich:
        for s in STATICS if p.get("install-time") is False else STATICS[:1]:
            for f in FEATS if full else (FEATS[next(k) % 5], FEATS[(next(k) + 2) % 5]):
                yield document(["a"], [p], [s], [f], [PROPS[next(k) % 3]], v())
    for p in poor:
        for s, f, pr, va in itertools.product(STATICS if p.get("install-time") is False else STATICS[:1], FEATS, PROPS, VARIANTS):
            yield document(["a"], [p], [s], [f], [pr], va)
    # two and three providers in every order
    for ps in itertools.product(poor, repeat=2):
        for nss in (["a", "b"], ["b", "a"]):
            i = next(k)
            for j in range(4 if full else 2):
                i += j
                yield document(nss, ps, [STATICS[i % 4], STATICS[(i // 2) % 4]], [FEATS[i % 5], FEATS[(i + 2) % 5]], [PROPS[i % 3], PROPS[(i + j) % 3]], v())
    for ps in itertools.product(poor[::1 if full else 3], repeat=3):
        for nss in itertools.permutations("abc") if full else (["c", "a", "b"], ["b", "c", "a"]):
            i = next(k)
            yield document(list(nss), ps, [STATICS[(i + n) % 4] for n in range(3)], [FEATS[(i + 2 * n) % 5] for n in range(3)], [PROPS[(i + n) % 3] for n in range(3)], v())
    from mc.c13 import BIG, big
    for n in (3, 17, 33, 65, 101, 129, 257) if not full else (*range(3, 70), 100, 101, 127, 128, 129, 255, 256, 257, 513, 1025):
        for where in BIG:
            if n < 200 or not where.startswith("variant") or where == "variant values":
                yield big(n, where, 0, None)
    # sizes
    for n in list(range(4, 13)) + [33]:
        names = [f"n{(i * 7) % n:02}" if n % 7 else f"n{i}" for i in range(n)]
        vals = [f"v{n - i}" for i in range(n)]
        yield document(names, [poor[i % len(poor)] for i in range(n)], [STATICS[i % 4] for i in range(n)], [FEATS[i % 5] for i in range(n)], [PROPS[i % 3] for i in range(n)],
                       {f"l{i}": {names[i]: {"f": [f"v{i}"]}} for i in range(n)})
        yield document(["a"], [{"install-time": False, "requires": [f"r{i}" for i in range(n)]}], [{f"f{n - i}": list(vals) for i in range(n)}], [[f"f{i + 1}" for i in range(n)]],
                       [{f"f{i}": list(vals) for i in range(n)}], {"x": {"a": {f"f{i}": list(vals) for i in range(n)}}})
    # priorities for namespaces without a provider, no provider at all
    d = document([], [], [], [], [], VARIANTS[2])
    yield d
    for f, p in itertools.product(FEATS, PROPS):
        d = document([], [], [], [], [], VARIANTS[3])
        if f is not None:
            d["default-priorities"]["feature"] = {"q": f, "abi_dependency": ["torch"]}
        if p is not None:
            d["default-priorities"]["property"] = {"q": p}
        yield d


def expected(d):
    """plain content of a document"""
    pr = d.get("default-priorities", {})
    return {
        "namespace_priorities": list(pr.get("namespace", [])),
        "feature_priorities": pr.get("feature", {}),
        "property_priorities": pr.get("property", {}),
        "providers": {n: {"requires": p.get("requires", []), "enable_if": p.get("enable-if"), "optional": p.get("optional", False), "plugin_api": p.get("plugin-api"),
                          "install_time": p.get("install-time", True)} for n, p in d.get("providers", {}).items()},
        "static_properties": d.get("static-properties", {}),
    }


def plain(o):
    return {
        "namespace_priorities": o.namespace_priorities,
        "feature_priorities": o.feature_priorities,
        "property_priorities": o.property_priorities,
        "providers": {n: {k: getattr(p, k) for k in ("requires", "enable_if", "optional", "plugin_api", "install_time")} for n, p in o.providers.items()},
        "static_properties": o.static_properties,
    }


def variants_of(o):
    return {k: tuple(tup(p) for p in v.properties) for k, v in o.variants.items()}


def want_variants(d):
    return {k: tuple(sorted(ref.unpacked(v))) for k, v in d["variants"].items()}


# ---------------------------------------------------------------------------------------------- round trips
def toml_str(s):
    return '"' + "".join({'"': '\\"', "\\": "\\\\"}.get(c, c if " " <= c != "\x7f" else f"\\u{ord(c):04x}") for c in s) + '"'


def toml_val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return toml_str(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(toml_val, v)) + "]"
    return "{" + ", ".join(f"{toml_str(k)} = {toml_val(x)}" for k, x in v.items()) + "}"


def project(d):
    """what of a document a project file can hold: no variants, static properties only where no plugin can be asked"""
    p = {k: copy.deepcopy(v) for k, v in d.items() if k not in ("variants", "$schema")}
    st = {n: s for n, s in p.get("static-properties", {}).items() if not p["providers"][n].get("requires")}
    p.pop("static-properties", None)
    if st:
        p["static-properties"] = st
    return p


def to_toml(table):
    lines = ["[project]", 'name = "x"', "[variant.default-priorities]"]
    for k, v in table["default-priorities"].items():
        lines.append(f"{k} = {toml_val(v)}")
    for n, p in table["providers"].items():
        lines.append(f"[variant.providers.{n}]")
        lines += [f"{k} = {toml_val(v)}" for k, v in p.items()]
    for n, s in table.get("static-properties", {}).items():
        lines.append(f"[variant.static-properties.{n}]")
        lines += [f"{k} = {toml_val(v)}" for k, v in s.items()]
    return "\n".join(lines) + "\n"


def reread(vj, what):
    """write, read, write again; -> the object read"""
    before = snap(vj)
    s = vj.to_str()
    check_eq(snap(vj), before, f"{what}: the object after writing")
    again = VariantsJson(json.loads(s))
    check_eq(plain(again), plain(vj), f"{what}: reading what was written")
    check_eq(variants_of(again), variants_of(vj), f"{what}: reading the variants that were written")
    check_eq(again.variants, vj.variants, f"{what}: variants")
    check_eq(again.to_str(), s, f"{what}: writing again")
    if type(vj) is VariantsJson:
        check(again == vj, f"{what}: not equal after reading back")
    return again


def run_round(case):
    d = case
    want, wantv = expected(d), want_variants(d)
    vj = VariantsJson(copy.deepcopy(d))
    check_eq(plain(vj), want, "content read")
    check_eq(variants_of(vj), wantv, "variants read")
    again = reread(vj, "index")
    # key order carries no information, and is not needed
    rev = json.loads(json.dumps(d, sort_keys=True))
    check(VariantsJson(rev) == vj, "key order changes the content")
    check_eq(VariantsJson(rev).to_str(), again.to_str(), "text after reordering keys")
    n = 4
    # wheel metadata: each variant by itself
    for lab, desc in vj.variants.items():
        one = VariantDistInfo(vj)
        one.variant_desc = desc
        one.variant_label = lab
        s = one.to_str()
        for form in (s, s.encode()):
            back = VariantDistInfo(form, lab)
            check_eq(plain(back), want, "wheel metadata read")
            check_eq((back.variant_label, back.variant_desc), (lab, desc), "variant read")
            check(back == one, "wheel metadata differs after reading back")
        check_eq(back.to_str(), s, "wheel metadata written again")
        reread(one, "wheel metadata")
        n += 3
    # project file
    table = project(d)
    text = to_toml(table)
    f = env().root / "pyproject.toml"
    f.write_text(text, encoding="utf8")
    p1 = VariantPyProjectToml.from_path(f)
    p2 = VariantPyProjectToml(tomllib.loads(text))
    check_eq(plain(p1), expected(table), "project file read")
    check(p1 == p2, "the project file reads differently from a path")
    j = VariantsJson(p1)
    check_eq(plain(j), expected(table), "project file as an index")
    check_eq(j.variants, {}, "variants of a converted project file")
    j.static_properties = copy.deepcopy(d.get("static-properties", {}))
    reread(j, "project file as an index")
    return Outcome(json.dumps([want, wantv]), evaluations=n)


# --------------------------------------------------------------------------------------------- conversions
CLASSES = {"info": lambda o: VariantInfo(**o.copy_as_kwargs()), "pyproject": VariantPyProjectToml, "index": VariantsJson, "wheel": VariantDistInfo}


def source(cls, d):
    if cls == "pyproject":
        return VariantPyProjectToml({"variant": project(d)})
    if cls == "index":
        return VariantsJson(copy.deepcopy(d))
    if cls == "wheel":
        one = VariantsJson(copy.deepcopy(d))
        one.variants = {"lab": vd([("a", "f", "x")])}
        return VariantDistInfo(one.to_str())
    return VariantInfo(**VariantsJson(copy.deepcopy(d)).copy_as_kwargs())


def run_chain(case):
    chain, d = case
    o = source(chain[0], d)
    want = copy.deepcopy(plain(o))
    for c in chain[1:]:
        before = snap(o)
        new = CLASSES[c](o)
        check_eq(plain(new), want, f"content after {chain}")
        check_eq(snap(o), before, f"source of the conversion to {c}")
        if c in ("index", "wheel"):
            check_eq(new.variants, {}, f"variants after conversion to {c}")
        o = new
    return Outcome((chain[0], json.dumps(want)), evaluations=len(chain) - 1)


def gen_chain(tier):
    def gen():
        chains = [list(c) for n in (2, 3) for c in itertools.product(CLASSES, repeat=n)]
        if tier != "quick":
            chains += [list(c) for c in itertools.product(CLASSES, repeat=4)]
        for i, d in enumerate(gen_docs("quick")):
            for c in chains:
                if (tier != "quick" or i % 4 == 0 or d.get("static-properties") and i % 3 == 0) and len(c) == 2 or i % (23 if tier == "quick" else 7) == 0:
                    yield [c, d]
    return gen


# ------------------------------------------------------------------------------------------ independence
def parts(o, path=()):
    """every mutable part of an object: (path, part)"""
    if isinstance(o, VariantDescription):
        return
    if dataclasses.is_dataclass(o):
        yield path, o
        for f in dataclasses.fields(o):
            yield from parts(getattr(o, f.name), path + (f.name,))
    elif isinstance(o, dict):
        yield path, o
        for k in list(o):
            yield from parts(o[k], path + (k,))
    elif isinstance(o, list):
        yield path, o
        for i, x in enumerate(o):
            yield from parts(x, path + (i,))


def at(o, path):
    for p in path:
        o = getattr(o, p) if dataclasses.is_dataclass(o) else o[p]
    return o


def mutations(part):
    if isinstance(part, list):
        return ["append", "clear", "replace", "reverse"] if part else ["append"]
    if isinstance(part, dict):
        return ["add", "clear", "pop"] if part else ["add"]
    if isinstance(part, ProviderInfo):
        return ["requires", "enable_if", "plugin_api", "optional", "install_time"]
    return ["fields", "variants", "merge"]


def mutate(part, how):
    if how == "append":
        part.append("zz")
    elif how == "clear":
        part.clear()
    elif how == "replace":
        part[0] = "zz"
    elif how == "reverse":
        part.reverse()
        part.append("zz")
    elif how == "add":
        part["zz"] = ["zz"]
    elif how == "pop":
        del part[next(iter(part))]
    elif how == "optional":
        part.optional = not part.optional
    elif how == "install_time":
        part.install_time = not part.install_time
    elif how == "requires":
        part.requires = ["zz"]
    elif how in ("enable_if", "plugin_api"):
        setattr(part, how, "zz")
    elif how == "fields":
        part.namespace_priorities += ["zz"]
        part.feature_priorities["zz"] = ["f"]
        part.property_priorities.setdefault("a", {})["zz"] = ["f"]
        part.static_properties.setdefault("a", {})["zz"] = ["f"]
        part.providers["zz"] = ProviderInfo(requires=["zz"])
    elif how == "variants":
        if isinstance(part, VariantDistInfo):
            part.variant_desc = vd([("zz", "f", "x")])
            part.variant_label = "zz"
        elif isinstance(part, VariantsJson):
            part.variants["zz"] = vd([("zz", "f", "x")])
    elif how == "merge":
        if isinstance(part, VariantsJson):
            other = VariantsJson(part)
            other.variants = {"zz1": vd([("zz", "f", "x")])}
            for p in other.providers.values():
                p.requires.reverse()
            try:
                part.merge(other)
            except ValueError:
                pass


def run_independent(case):
    a, b, d = case
    src0 = source(a, d)
    dst0 = CLASSES[b](src0)
    todo = [(side, path, how) for side, o in (("source", src0), ("result", dst0)) for path, part in parts(o) for how in mutations(part)]
    for side, path, how in todo:
        src = source(a, d)
        dst = CLASSES[b](src)
        mine, other = (src, dst) if side == "source" else (dst, src)
        before = snap(other)
        mutate(at(mine, path), how)
        check_eq(snap(other), before, f"after {how} of {'.'.join(map(str, path)) or 'the whole'} of the {side}, the other side")
    return Outcome((a, b, len(todo), json.dumps(expected(d))), evaluations=len(todo))


def gen_independent(tier):
    def gen():
        docs = list(gen_docs("quick"))
        small = [d for d in docs if len(d["providers"]) <= 3 and len(json.dumps(d)) < 1500]
        for i, d in enumerate(small[:: 137 if tier == "quick" else 9]):
            for a in CLASSES:
                for b in CLASSES:
                    yield [a, b, d]
    return gen


def spaces(tier):
    return [
        Space("round-trips", lambda: gen_docs(tier), run_round),
        Space("conversions", gen_chain(tier), run_chain),
        Space("independence", gen_independent(tier), run_independent),
    ]
