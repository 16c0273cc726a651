"""C02: names are accepted exactly if they match the grammar; text forms round-trip."""
from __future__ import annotations

import itertools
import json

from mc import ref
from mc.core import Outcome, Space, check, check_eq
from mc.util import cli, install_entry_points, raises
from variantlib.api import get_variant_label
from variantlib.errors import ValidationError
from variantlib.models.configuration import VariantConfiguration
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every Unicode code point (surrogates included) alone and next to valid characters, all strings over an alphabet of class "
        "representatives up to the bound, all separator/whitespace layouts up to the bound and all non-string values, through every "
        "entry point that takes a name, against set-membership reference grammars. An outcome is the (route, verdict vector) of one case.")
ASSUMPTIONS = ["whitespace means str.isspace()"]


def accepted(fn, *a):
    return not raises(ValidationError, fn, *a)


NULL = VariantDescription()
ONE = VariantDescription([VariantProperty("n", "f", "v")])


def prov(ns):
    return {"requires": ["p"]}


def index(d, **kw):
    return VariantsJson({"variants": {"x": d}, "providers": {}, "default-priorities": {"namespace": []}, **kw})


def prio(ns=(), feat=None, prop=None, **kw):
    return VariantPyProjectToml({"variant": {"default-priorities": {"namespace": list(ns), **({"feature": feat} if feat is not None else {}), **({"property": prop} if prop is not None else {})},
                                             "providers": {n: {"requires": ["p"]} for n in ns}, **kw}})


# route -> (kind, callable taking the candidate)
ROUTES = {
    "feature.namespace": ("name", lambda s: VariantFeature(s, "f")),
    "feature.feature": ("name", lambda s: VariantFeature("n", s)),
    "property.namespace": ("name", lambda s: VariantProperty(s, "f", "v")),
    "property.feature": ("name", lambda s: VariantProperty("n", s, "v")),
    "property.value": ("value", lambda s: VariantProperty("n", "f", s)),
    "deserialize.namespace": ("name", lambda s: VariantProperty.deserialize({"namespace": s, "feature": "f", "value": "v"})),
    "deserialize.feature": ("name", lambda s: VariantProperty.deserialize({"namespace": "n", "feature": s, "value": "v"})),
    "deserialize.value": ("value", lambda s: VariantDescription.deserialize([{"namespace": "n", "feature": "f", "value": s}])),
    "featureconfig.name": ("name", lambda s: VariantFeatureConfig(s, ["v"], False)),
    "featureconfig.value": ("value", lambda s: VariantFeatureConfig("f", ["a", s], False)),
    "providerconfig.namespace": ("name", lambda s: ProviderConfig(s, [VariantFeatureConfig("f", ["v"], False)])),
    "packed.namespace": ("name", lambda s: VariantDescription.from_dict({s: {"f": ["v"]}})),
    "packed.feature": ("name", lambda s: VariantDescription.from_dict({"n": {s: ["v"]}})),
    "packed.value": ("value", lambda s: VariantDescription.from_dict({"n": {"f": ["zz", s]}})),
    "index.namespace": ("name", lambda s: index({s: {"f": ["v"]}})),
    "index.feature": ("name", lambda s: index({"n": {s: ["v"]}})),
    "index.value": ("value", lambda s: index({"n": {"f": ["zz", s]}})),
    "index.label": ("label", lambda s: VariantsJson({"variants": {s: {} if s == "null" else {"n": {"f": ["v"]}}}})),
    "label": ("label!", lambda s: get_variant_label(ONE, s)),
    "config.namespace": ("name", lambda s: VariantConfiguration(namespace_priorities=["a", s])),
    "config.feature-namespace": ("name", lambda s: VariantConfiguration(namespace_priorities=[], feature_priorities={s: ["f"]})),
    "config.property-namespace": ("name", lambda s: VariantConfiguration(namespace_priorities=[], property_priorities={s: {"f": ["v"]}})),
    "toml.provider": ("name", lambda s: prio([s])),
    "toml.feature-namespace": ("name", lambda s: prio(feat={s: ["f"]})),
    "toml.feature-name": ("name", lambda s: prio(feat={"n": ["f0", s]})),
    "toml.property-namespace": ("name", lambda s: prio(prop={s: {"f": ["v"]}})),
    "toml.property-feature": ("name", lambda s: prio(prop={"n": {s: ["v"]}})),
    "toml.property-value": ("value", lambda s: prio(prop={"n": {"f": ["v0", s]}})),
    "toml.static-feature": ("name", lambda s: VariantPyProjectToml({"variant": {"default-priorities": {"namespace": ["n"]}, "providers": {"n": {"install-time": False}},
                                                                               "static-properties": {"n": {s: ["v"]}}}})),
    "toml.static-value": ("value", lambda s: VariantPyProjectToml({"variant": {"default-priorities": {"namespace": ["n"]}, "providers": {"n": {"install-time": False}},
                                                                              "static-properties": {"n": {"f": ["v0", s]}}}})),
    "dist-info.namespace": ("name", lambda s: VariantDistInfo(json.dumps({"variants": {"x": {s: {"f": ["v"]}}}}))),
    "dist-info.value": ("value", lambda s: VariantDistInfo(json.dumps({"variants": {"x": {"n": {"f": ["zz", s]}}}}))),
    "dist-info.label": ("label", lambda s: VariantDistInfo(json.dumps({"variants": {s: {} if s == "null" else {"n": {"f": ["v"]}}}}))),
}
KINDS = {"name": ref.ok_name, "value": ref.ok_value, "label": ref.ok_label, "label!": lambda s: ref.ok_label(s) and s != "null"}
CORE = ["property.namespace", "property.feature", "property.value", "label"]


def verdict(route, s):
    kind, fn = ROUTES[route]
    want = KINDS[kind](s)
    if kind == "value" and s in ("zz", "a", "v0"):  # would be a duplicate in its list
        return want
    got = accepted(fn, s)
    check(got == want, lambda: f"{route}: {s!r} is {'accepted' if got else 'rejected'}")
    return got


def run_points(case):
    lo, hi, routes, full = case
    n = 0
    sig = []
    for cp in range(lo, hi):
        c = chr(cp)
        if full == "interesting" and cp >= 0x500 and not (c.isalnum() or c.isspace() or c.isdecimal() or c.isidentifier() or c.isnumeric()):
            continue
        forms = (c,) if full == "alone" else (c, "a" + c, c + "0")
        for r in routes:
            for s in forms:
                n += 1
                if verdict(r, s):
                    sig.append((r, s))
    return Outcome(tuple(sig) or (lo, hi, full), evaluations=n, trivial=not n)


def gen_points(tier):
    def gen():
        step = 2048
        allr = list(ROUTES)
        for lo in range(0, 0x300, 64):
            yield [lo, lo + 64, allr, "both"]
        for lo in range(0, 0x110000, step):
            yield [lo, lo + step, CORE, "alone"]
        for lo in range(0, 0x110000, step):
            yield [lo, lo + step, ["property.value", "label"] if tier == "quick" else allr, "interesting"]
    return gen


ALPHA = "az09_.-A \n\té\u0663:\x00"


def run_strings(case):
    n = 0
    sig = []
    for s in case:
        for r in ROUTES:
            n += 1
            if verdict(r, s):
                sig.append((r, s))
    return Outcome(tuple(sig) or tuple(case), evaluations=n)


def gen_strings(k):
    def gen():
        yield [""]
        for n in range(1, k + 1):
            it = itertools.product(ALPHA, repeat=n)
            while chunk := list(itertools.islice(it, 40)):
                yield ["".join(t) for t in chunk]
        for n in list(range(1, 70)) + [127, 128, 255, 256, 1000, 70000]:
            yield ["a" * n, "0" * n, "." * n, "_" * n, "a" * n + "\n", "a" * n + "A"]
        yield ["null", "null.", "nul", "null0", "null\n", "Null", "null" * 4, "0" * 16, "0" * 17, "none", "true", "nan"]
    return gen



def bad_values():
    return [None, True, 0, 1, 1.5, b"a", bytearray(b"a"), ["a"], ("a",), {"a": 1}, {"a"}, object(), type, str, [], {}, ()]


def run_types(case):
    r, i = case
    v = bad_values()[i]
    got = accepted(ROUTES[r][1], v)
    check(not got, lambda: f"{r}: {v!r} of type {type(v)} accepted")
    return (r, i)


def gen_types():
    for r in ROUTES:
        if r.startswith(("dist-info", "label")):
            continue
        for i, v in enumerate(bad_values()):
            if r.startswith(("packed", "index", "toml")) or "-namespace" in r:
                try:
                    hash(v)
                except TypeError:
                    continue
            yield [r, i]


def parse(s, nparts):
    """reference for the text form"""
    parts = [p.strip() for p in s.split("::")]
    if len(parts) != nparts or not all(map(ref.ok_name, parts[:2])) or not all(map(ref.ok_value, parts[2:])):
        return None
    return tuple(parts)


TOKENS = ["a", "b.c", "_", " ", "::", ":", "\n", "\u3000"]


def run_text(case):
    n = 0
    hits = []
    for s in case:
        for cls, k in ((VariantFeature, 2), (VariantProperty, 3)):
            n += 1
            want = parse(s, k)
            try:
                o = cls.from_str(s)
            except ValidationError:
                check(want is None, lambda: f"{cls.__name__}.from_str({s!r}) refused")
                continue
            check(want is not None, lambda: f"{cls.__name__}.from_str({s!r}) accepted as {o!r}")
            check(type(o) is cls and o == cls(*want), lambda: f"{cls.__name__}.from_str({s!r}) gives {o!r}")
            check_eq(o.to_str(), " :: ".join(want), "text form")
            check(cls.from_str(o.to_str()) == o, "text form does not round-trip")
            check(cls.deserialize(o.serialize()) == o, "serialised form does not round-trip")
            hits.append(s)
    return Outcome(tuple(hits) or tuple(case), evaluations=n)


def gen_text(k):
    def gen():
        for n in range(0, k + 1):
            it = itertools.product(TOKENS, repeat=n)
            while chunk := list(itertools.islice(it, 400)):
                yield ["".join(t) for t in chunk]
        # layouts: any whitespace, any amount, at each of the six places
        ws = ["", " ", "\t", "\r\n", "\x0b\x0c", "\x1c\x1f", "\x85", "\u2003\u3000", "  " * 20, "\xa0"]
        for parts in (["n", "f"], ["n", "f", "v.1"]):
            for combo in itertools.product(ws[:6], repeat=2 * len(parts)) if len(parts) == 2 else itertools.product(ws[:4], repeat=6):
                yield ["::".join(a + p + b for (a, b), p in zip(zip(combo[::2], combo[1::2]), parts))]
            for w in ws:
                yield [w + (w + "::" + w).join(parts) + w]
            # characters that are not whitespace but look like it
            for z in ("\u200b", "\ufeff", "\x00", "\u2060", "\u180e", "\u00ad"):
                yield [z + "::".join(parts), "::".join(parts) + z, (z + "::").join(parts), ("::" + z).join(parts)]
        # every code point as separator candidate
        for lo in range(0, 0x3100, 64):
            yield [x for c in map(chr, range(lo, lo + 64)) for x in (f"n{c}f", f"n{c}{c}f", f"n:: {c}f::v", f"{c}n::f", f"n::f::v{c}", f"n::f:{c}:v", f"n {c} f {c} v")]
    return gen


def run_cli(case):
    s = case
    want = parse(s, 3)
    st, out = cli("get-variant-hash", "--property=" + s)
    if want is None:
        check(st != 0 and out == "", lambda: f"get-variant-hash accepts {s!r}: {out!r}")
    else:
        check(st == 0 and out == ref.vhash([want]) + "\n", lambda: f"get-variant-hash {s!r}: {st} {out!r}")
    return (s, st)


def run_cli_safe(case):
    try:
        return run_cli(case)
    except ValidationError:
        check(parse(case, 3) is None, lambda: f"get-variant-hash refuses {case!r}")
        return (case, "refused")


def gen_cli():
    for n in range(0, 6):
        for t in itertools.product(["a", ".", " ", "::", "\n"], repeat=n):
            if "".join(t).count("::") in (1, 2, 3):
                yield "".join(t)


def run_roundtrip(case):
    """every valid triple over short names, through all text and packed forms"""
    n, f, v = case
    p = VariantProperty(n, f, v)
    for t in (p.to_str(), f"{n}::{f}::{v}", f" {n} ::\t{f}\n:: {v} "):
        check(VariantProperty.from_str(t) == p, f"{t!r} does not parse to the property")
    check_eq(p.to_str(), f"{n} :: {f} :: {v}", "text form")
    check_eq(p.feature_object, VariantFeature(n, f), "feature object")
    check(VariantFeature.from_str(p.feature_object.to_str()) == p.feature_object, "feature text")
    d = VariantDescription([p])
    check_eq(d.to_dict(), {n: {f: [v]}}, "packed")
    check(VariantDescription.from_dict(d.to_dict()) == d, "packed form does not round-trip")
    check(VariantDescription.deserialize(d.serialize()) == d, "serialised form does not round-trip")
    i = index(d.to_dict())
    check(VariantsJson(json.loads(i.to_str())).variants == {"x": d}, "index round-trip")
    return tuple(case)


def gen_roundtrip():
    names = ["".join(t) for k in (1, 2) for t in itertools.product("a0_z", repeat=k)]
    vals = ["".join(t) for k in (1, 2) for t in itertools.product("a0_.", repeat=k)]
    for n in names:
        for f in names:
            for v in vals:
                yield [n, f, v]


def spaces(tier):
    q = tier == "quick"
    return [
        Space("points", gen_points(tier), run_points),
        Space("strings", gen_strings(3 if q else 4), run_strings),
        Space("types", gen_types, run_types),
        Space("text", gen_text(6 if q else 7), run_text),
        Space("roundtrip", gen_roundtrip, run_roundtrip),
        Space("cli", gen_cli, run_cli_safe, setup=install_entry_points),
    ]
