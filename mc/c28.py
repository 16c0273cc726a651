"""C28: malformed objects and arguments are refused, and valid objects never change."""
from __future__ import annotations

import copy
import dataclasses
import itertools
import pickle

from mc import ref
from mc.core import Outcome, Space, check, check_eq
from mc.util import COLL, snap, vd, vp
from variantlib.models.configuration import VariantConfiguration
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.resolver import filtering, lib, sorting

LEVEL = "exploration"
RULE = ("every constructor with every combination of field values from a universe of well-formed and malformed values of all kinds (wrong at every depth and position of a "
        "container), given by position, by name, by replacement of a field and from serialised form; every resolver function with every combination of up to two "
        "(thorough: all) arguments varied over such values; every attribute of valid objects assigned and deleted. An outcome is the case and its verdict.")
ASSUMPTIONS = ["the kind of the error is not judged", "subclasses of the declared types and other iterables in place of the list of a description are not judged"]


class Thing:
    def __repr__(self):
        return "thing"


# ------------------------------------------------------------------------------------------------------- universe
# a value is written as JSON; wrong kinds as {"!": kind}
def build(x):
    if isinstance(x, dict):
        if "!" in x:
            k, *a = x["!"] if isinstance(x["!"], list) else [x["!"]]
            return KINDS[k](*map(build, a))
        return {k: build(v) for k, v in x.items()}
    if isinstance(x, list):
        return [build(v) for v in x]
    return x


KINDS = {
    "tuple": lambda *a: a, "set": lambda *a: set(a), "frozenset": lambda *a: frozenset(a), "bytes": lambda s: s.encode(), "thing": Thing, "gen": lambda *a: (x for x in a), "type": lambda: str,
    "keys": lambda *a: dict.fromkeys(a), "dict": lambda *a: dict(zip(a[::2], a[1::2])), "float": lambda: 1.5, "bytearray": lambda s: bytearray(s.encode()), "iter": lambda *a: iter(a), "range": lambda: range(2),
    "f": lambda *a: VariantFeature(*a), "p": lambda *a: VariantProperty(*a), "d": lambda *a: VariantDescription(list(a)), "c": lambda n, v, m=False: VariantFeatureConfig(n, v, m),
    "pc": lambda n, cs: ProviderConfig(n, cs),
}
F1, F2 = {"!": ["f", "pl", "f"]}, {"!": ["f", "po", "g"]}
P1, P2, P3 = {"!": ["p", "pl", "f", "x"]}, {"!": ["p", "pl", "f", "y"]}, {"!": ["p", "po", "g", "1.0"]}
D0, D1, D2 = {"!": ["d"]}, {"!": ["d", P1]}, {"!": ["d", P1, P3]}
C1, C2, C3 = {"!": ["c", "f", ["x"]]}, {"!": ["c", "g", ["x", "y"], True]}, {"!": ["c", "f", ["y"]]}

OKNAMES = ["pl", "a_1", "0"]
SCALARS = [None, 1, 0, True, {"!": "float"}, {"!": ["bytes", "pl"]}, {"!": ["bytearray", "pl"]}, {"!": "thing"}, {"!": "type"}, ["pl"], [], {"!": ["tuple", "pl"]}, {"pl": "pl"}, {"!": ["set", "pl"]}]
STRINGS = ["", " ", "Pl", "p l", "p-l", "pl\n", "\npl", " pl", "p\u00e9", "p\u0661", "p:l", "p.l", "p\x00", "\u212a"]
VALS = [*OKNAMES, "1.0", "."]


def is_str(x):
    return type(x) is str


def is_list(x, item):
    return type(x) is list and all(item(i) for i in x)


def is_dict(x, key, val):
    return type(x) is dict and all(key(k) for k in x) and all(val(v) for v in x.values())


def containers(good, bad, kinds=("tuple", "set", "frozenset", "gen", "keys", "iter")):
    """lists with something wrong in them, and things that are no lists"""
    out = []
    for b in bad:
        out += [[b], [good, b], [b, good], [good, b, good]]
    for k in kinds:
        out.append({"!": [k, good]})
    return out


# ---------------------------------------------------------------------------------------------------- constructors
NAMEV = [*OKNAMES, *SCALARS, *STRINGS]
VALUEV = [*VALS, *SCALARS, *[s for s in STRINGS if s != "p.l"], "p.l"]
LISTBAD = [None, 1, {"!": "thing"}, ["pl"], {"!": ["bytes", "pl"]}, {"!": ["tuple", "pl"]}]
VLISTS = [["x"], ["x", "y"], ["y", "x", "1.0"], [], ["x", "x"], ["x", "y", "x"], *containers("x", [*LISTBAD, "X", "", "x\n"]), None, "x", "", 1, {"x": "x"}, {"!": "thing"}, True]
CLISTS = [[C1], [C1, C2], [C2, C1], [], [C1, C1], [C1, C3], [C1, C2, C3], *containers(C2, [None, "f", P1, F1, {"name": "f", "values": ["x"], "multi_value": False}, {"!": "thing"}, [C1]], ("tuple", "gen", "iter")), None, C1, 1, "f"]
PLISTS = [list(x) for n in range(4) for x in itertools.permutations([P1, P2, P3], n)] + [[P1, P1], [P1, P2, P1], [P3, P1, P3]] + [x for x in containers(P1, [None, "pl :: f :: x", F1, 1, {"!": "thing"}, D1, {"namespace": "pl", "feature": "f", "value": "x"}, [P1]]) if isinstance(x, list)] \
    + [None, 1, True, P1, F1, "pl :: f :: x", {"!": "thing"}, {"!": "float"}, [[P1]], [[P1], [P2]]]
NLISTS = [[], ["pl"], ["pl", "po"], ["po", "pl"], *containers("pl", [*LISTBAD, "Pl", "", "pl\n"]), None, "pl", "", 1, {"pl": 1}, {"!": "thing"}, True]
FDICTS = [{}, {"pl": []}, {"pl": ["f"]}, {"pl": ["f", "g"], "po": ["h"]}, {"Pl": ["f"]}, {"": []}, {"pl\n": ["f"]}, {"pl": ["f"], "p-o": []}, {"pl": None}, {"pl": "f"}, {"pl": {"f": "f"}}, {"pl": {"!": ["tuple", "f"]}}, {"pl": ["f", None]}, {"pl": ["f"], "po": [1]}, {"pl": [["f"]]},
          {"!": ["dict", 1, ["f"]]}, {"!": ["dict", "pl", ["f"], None, ["f"]]}, {"!": ["dict", {"!": ["bytes", "pl"]}, ["f"]]}, None, [], ["pl"], [["pl", ["f"]]], "pl", 1, {"!": "thing"}, {"!": ["tuple"]}, {"!": ["set"]}]
PDICTS = [{}, {"pl": {}}, {"pl": {"f": []}}, {"pl": {"f": ["x"]}}, {"pl": {"f": ["x", "y"], "g": ["1.0"]}, "po": {"g": ["x"]}}, {"Pl": {"f": ["x"]}}, {"": {}}, {"pl": {"f": ["x"]}, "pl\n": {}}, {"pl": None}, {"pl": []}, {"pl": ["f"]}, {"pl": "f"}, {"pl": {"f": None}}, {"pl": {"f": "x"}},
          {"pl": {"f": {"x": "x"}}}, {"pl": {"f": ["x", None]}}, {"pl": {"f": ["x"], "g": [1]}}, {"pl": {"f": ["x"]}, "po": {"f": [["x"]]}}, {"!": ["dict", 1, {"f": ["x"]}]}, {"pl": {"!": ["dict", 1, ["x"]]}}, {"pl": {"!": ["dict", "f", ["x"], None, ["x"]]}}, {"pl": {"f": {"!": ["tuple", "x"]}}},
          None, [], ["pl"], "pl", 1, {"!": "thing"}, {"!": ["set"]}]

for bad in (None, "f", {"f": "f"}, {"!": ["tuple", "f"]}, ["f", None], [None, "f"], [["f"]], {"!": "thing"}):
    FDICTS += [{"pl": bad, "po": ["f"]}, {"a": ["f"], "pl": bad, "po": []}]
for bad in (None, "x", {"x": "x"}, {"!": ["tuple", "x"]}, ["x", None], [1, "x"], {"!": "thing"}):
    PDICTS += [{"pl": {"f": bad, "g": ["x"]}, "po": {"f": ["x"]}}, {"pl": {"f": ["x"], "g": bad, "h": []}}, {"pl": {"f": ["x"]}, "po": {"f": ["x"], "g": bad}, "q": {}}]
FDICTS += [{"!": ["dict", k, ["f"], "pl", ["f"]]} for k in (1, None, {"!": ["bytes", "pl"]}, "Pl", {"!": ["tuple", "pl"]})]
PDICTS += [{"!": ["dict", k, {"f": ["x"]}, "pl", {"f": ["x"]}]} for k in (1, None, {"!": ["bytes", "pl"]}, "Pl")] + [{"pl": {"!": ["dict", k, ["x"], "f", ["x"]]}, "po": {}} for k in (1, None, {"!": ["bytes", "pl"]})]


def unique(x, key=lambda v: v):
    return len({key(v) for v in x}) == len(x)


CLASSES = {
    "feature": (VariantFeature, {"namespace": (NAMEV, ref.ok_name), "feature": (NAMEV, ref.ok_name)}),
    "property": (VariantProperty, {"namespace": (NAMEV, ref.ok_name), "feature": (NAMEV, ref.ok_name), "value": (VALUEV, ref.ok_value)}),
    "description": (VariantDescription, {"properties": (PLISTS, lambda x: is_list(x, lambda v: type(v) is VariantProperty) and unique(x))}),
    "feature config": (VariantFeatureConfig, {"name": (NAMEV, ref.ok_name), "values": (VLISTS, lambda x: is_list(x, ref.ok_value) and bool(x) and unique(x)),
                                              "multi_value": ([False, True, None, 0, 1, "", "yes", [], {"!": "thing"}, {"!": "float"}], lambda x: type(x) is bool)}),
    "provider config": (ProviderConfig, {"namespace": (NAMEV, ref.ok_name), "configs": (CLISTS, lambda x: is_list(x, lambda v: type(v) is VariantFeatureConfig) and bool(x) and unique(x, lambda v: v.name))}),
    "configuration": (VariantConfiguration, {"namespace_priorities": (NLISTS, lambda x: is_list(x, ref.ok_name)), "feature_priorities": (FDICTS, lambda x: is_dict(x, ref.ok_name, lambda v: is_list(v, is_str))),
                                             "property_priorities": (PDICTS, lambda x: is_dict(x, ref.ok_name, lambda v: is_dict(v, is_str, lambda w: is_list(w, is_str))))}),
}


def attempt(fn, *a, **k):
    try:
        return True, fn(*a, **k)
    except Exception as exc:  # noqa: BLE001
        return False, exc


def same(obj, values, names):
    for n, v in zip(names, values):
        got = getattr(obj, n)
        want = sorted(v) if n == "properties" else v
        check(type(got) is type(want) and got == want, lambda: f"{n} is {got!r}, given {v!r}")


def run_objects(case):
    name, ix = case
    cls, fields = CLASSES[name]
    raw = [fields[f][0][i] for f, i in zip(fields, ix)]
    fresh = lambda: [build(r) for r in raw]  # noqa: E731
    good = all(fields[f][1](v) for f, v in zip(fields, fresh()))
    names = list(fields)
    base = cls(*[build(fields[f][0][0]) for f in fields])
    ways = {"position": lambda: cls(*fresh()), "name": lambda: cls(**dict(zip(names, fresh()))), "reversed": lambda: cls(**dict(reversed(list(zip(names, fresh()))))), "replace": lambda: dataclasses.replace(base, **dict(zip(names, fresh())))}
    if name in ("feature", "property"):
        ways["deserialize"] = lambda: cls.deserialize(dict(zip(names, fresh())))
    if name == "configuration" and None not in raw:
        ways["toml"] = lambda: cls.from_toml_config(**dict(zip(names, fresh())))
    if name == "property" and good:
        ways["text"] = lambda: cls.from_str(" :: ".join(fresh()))
    objs = []
    for way, make in ways.items():
        ok, obj = attempt(make)
        check(ok == good, lambda: f"{cls.__name__}({', '.join(map(repr, fresh()))}) by {way}: {'accepted' if ok else f'refused ({obj!r})'}")
        if ok:
            same(obj, fresh(), names)
            objs.append(obj)
    if good:
        objs += [copy.copy(objs[0]), copy.deepcopy(objs[0]), pickle.loads(pickle.dumps(objs[0])), dataclasses.replace(objs[0])]
        check(all(o == objs[0] and type(o) is cls for o in objs), "equal objects")
        check_eq(attempt(cls)[0], name == "description", "no arguments")
        check(not attempt(cls, *fresh(), None)[0], "surplus argument accepted")
        check(not attempt(lambda: cls(**dict(zip(names, fresh())), nosuch=1))[0], "unknown argument accepted")
        if name in ("feature", "property"):
            for n in names:
                d = dict(zip(names, fresh()))
                del d[n]
                check(not attempt(cls.deserialize, d)[0], lambda: f"{cls.__name__} from {d}")
                check(not attempt(lambda: cls(**d))[0], lambda: f"{cls.__name__} from {d}")  # noqa: B023
            check(not attempt(cls.deserialize, {**dict(zip(names, fresh())), "nosuch": "x"})[0], "unknown key accepted")
    return Outcome((name, ix, good), evaluations=len(ways))


def gen_objects(tier):
    def gen():
        for name, (_, fields) in CLASSES.items():
            sizes = [len(v) for v, _ in fields.values()]
            if name == "configuration" or (name == "property" and tier == "quick"):
                # all pairs of fields, the other one well-formed
                seen = set()
                for keep in range(3):
                    for ix in itertools.product(*(range(2) if k == keep and tier == "quick" else range(n) for k, n in enumerate(sizes))):
                        if ix not in seen:
                            seen.add(ix)
                            yield [name, list(ix)]
            else:
                for ix in itertools.product(*map(range, sizes)):
                    yield [name, list(ix)]
    return gen


def run_long(case):
    """lists and tables with many entries, with something wrong at one place"""
    name, field, n, kind, pos = case
    cls, fields = CLASSES[name]

    def item(i):
        if field == "properties":
            return VariantProperty("n", f"f{i % 3}", str(i))
        if field == "configs":
            return VariantFeatureConfig(f"f{i}", ["x"], False)
        return f"v{i}"

    def make():
        xs = [item(i) for i in range(n)]
        if kind == "wrong":
            xs[pos] = None
        elif kind == "text":
            xs[pos] = "X"
        elif kind == "same":
            xs.insert(pos, item((pos + n // 2) % n))
        elif kind == "next":
            xs.insert(pos, item(pos % n))
        if field == "feature_priorities":
            return {"pl": xs} if kind != "text" else dict.fromkeys(xs, ["f"])
        if field == "property_priorities":
            return {"pl": {"f": xs}} if kind != "text" else dict.fromkeys(xs, {"f": ["x"]})
        return xs

    names = list(fields)
    vals = [make() if f == field else build(fields[f][0][0]) for f in names]
    good = all(fields[f][1](v) for f, v in zip(names, vals))
    check_eq(good, kind == "good" or field.endswith("priorities") and kind in ("same", "next"), "model")
    for way in (lambda: cls(*vals), lambda: cls(**dict(zip(names, vals)))):
        ok, obj = attempt(way)
        check(ok == good, lambda: f"{cls.__name__} with {n} {field} ({kind} at {pos}): {'accepted' if ok else f'refused ({obj!r})'}")
        if ok:
            same(obj, vals, names)
    return Outcome((case, good), evaluations=2)


def gen_long(tier):
    def gen():
        for n in (1, 4, 9, 17, 33, 65, 101, 129, 257) if tier == "quick" else (*range(1, 70), 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025):
            for name, (_, fields) in CLASSES.items():
                for field in fields:
                    if field in ("properties", "values", "configs") or field.endswith("priorities"):
                        yield [name, field, n, "good", 0]
                        for kind in ("wrong", "text", "same", "next"):
                            for pos in sorted({0, 1, n // 2, n - 1}):
                                if pos < n:
                                    yield [name, field, n, kind, pos]
                        if field in ("properties", "values", "configs"):
                            yield [name, field, n, "next", n]
    return gen


# ------------------------------------------------------------------------------------------------------- functions
def lists(goods, bads, wrap=()):
    g = goods[-1][0]
    out = [(x, True) for x in goods]
    for b in bads:
        out += [(x, False) for x in ([b], [g, b], [b, g], [g, b, g], [*goods[-1], b])]
    out += [(x, False) for x in (g, 1, "pl", "", True, {"!": "thing"}, {"!": ["tuple"]}, {"!": ["tuple", g]}, {"!": ["gen", g]}, {"!": ["set"]}, {})]
    return out


def iterables(goods, bads):
    g = goods[-1][0]
    out = [(x, True) for x in goods] + [({"!": [k, *goods[-1]]}, True) for k in ("tuple", "gen", "iter")]
    for b in bads:
        out += [(x, False) for x in ([b], [g, b], [b, g], [g, b, g], {"!": ["tuple", g, b]}, {"!": ["gen", g, b]})]
    out += [(x, False) for x in (g, 1, None, True, {"!": "thing"}, "pl", {"!": ["bytes", "pl"]})]
    return out


BADD = [None, 1, "pl :: f :: x", P1, F1, {"pl": {"f": ["x"]}}, [P1], {"!": "thing"}, {"!": ["tuple", P1]}]
BADP = [None, 1, "pl :: f :: x", F1, D1, {"!": "thing"}, [P1], {"!": ["tuple", "pl", "f", "x"]}]
BADF = [None, 1, "pl :: f", P1, D1, {"!": "thing"}, [F1], {"!": ["tuple", "pl", "f"]}]
BADN = [None, 1, {"!": ["bytes", "pl"]}, F1, ["pl"], {"!": "thing"}, True]
DESCS = [[], [D0], [D1, D0], [D1, D2, D0]]
GOODN = [["pl", "po"], ["po", "pl"]]
VD, VDI, VP = lists(DESCS, BADD), iterables(DESCS, BADD), lists([[], [P1], [P1, P2, P3]], BADP)
VPMORE = lists([[P1, P2, P3], [P3, P1], []][::-1], BADP)
VF, NS = lists([[], [F1], [F1, F2]], BADF), lists([[], ["po"], ["pl", "po"]], BADN)
NSP = lists([*GOODN], BADN)


def opt(spec):
    return [(None, True), *spec]


def dicts(values, ok):
    """only types count here"""
    return [(None, True)] + [(x, ok(build(x))) for x in values if x is not None]


FPR = dicts(FDICTS, lambda x: is_dict(x, is_str, lambda v: is_list(v, is_str)))
PPR = dicts(PDICTS, lambda x: is_dict(x, is_str, lambda v: is_dict(v, is_str, lambda w: is_list(w, is_str))))
ONEP = [(P1, True), (P3, True), *[(b, False) for b in BADP], ([], False), ({}, False), (D0, False)]
FUNCTIONS = {
    "remove_duplicates": (filtering.remove_duplicates, {"vdescs": VDI}),
    "filter_variants_by_namespaces": (filtering.filter_variants_by_namespaces, {"vdescs": VDI, "forbidden_namespaces": NS}),
    "filter_variants_by_features": (filtering.filter_variants_by_features, {"vdescs": VDI, "forbidden_features": VF}),
    "filter_variants_by_property": (filtering.filter_variants_by_property, {"vdescs": VDI, "allowed_properties": VP + [(None, False)], "forbidden_properties": opt(VP)}),
    "filter_variants": (lib.filter_variants, {"vdescs": VD + [(None, False)], "allowed_properties": VP + [(None, False)], "forbidden_namespaces": opt(NS), "forbidden_features": opt(VF), "forbidden_properties": opt(VP)}),
    "sort_and_filter_supported_variants": (lib.sort_and_filter_supported_variants, {
        "vdescs": VD + [(None, False)], "supported_vprops": VP + [(None, False)], "namespace_priorities": NSP, "feature_priorities": FPR, "property_priorities": PPR, "forbidden_namespaces": opt(NS), "forbidden_features": opt(VF), "forbidden_properties": opt(VP)}),
    "sort_variant_properties": (sorting.sort_variant_properties, {"vprops": VPMORE + [(None, False)], "namespace_priorities": NSP + [(None, False)], "feature_priorities": FPR, "property_priorities": PPR}),
    "sort_variants_descriptions": (sorting.sort_variants_descriptions, {"vdescs": lists([[], [D1, D0], [D1, D2, D0]], BADD) + [(None, False)], "property_priorities": lists([[P1, P2, P3], [P3, P2, P1]], BADP) + [(None, False)]}),
    "get_property_priorities": (sorting.get_property_priorities, {"vprop": ONEP, "property_priorities": PPR}),
    "get_feature_priorities": (sorting.get_feature_priorities, {"vprop": ONEP, "feature_priorities": FPR}),
    "get_namespace_priorities": (sorting.get_namespace_priorities, {"vprop": ONEP, "namespace_priorities": lists([[], ["po"], ["pl", "po"]], BADN) + [(None, False)]}),
}


def run_functions(case):
    name, dev = case
    fn, params = FUNCTIONS[name]
    given = {p: v[dev.get(p, 0)] for p, v in params.items()}
    good = all(ok for _, ok in given.values())
    for way in ("name", "position"):
        args = {p: build(x) for p, (x, _) in given.items()}
        before = snap(args)
        call = (lambda: fn(**args)) if way == "name" else (lambda: fn(*args.values()))
        ok, r = attempt(lambda: list(x) if hasattr(x := call(), "__next__") else x)  # noqa: B023
        check(ok == good, lambda: f"{name}({args}): {'accepted' if ok else f'refused ({r!r})'}")
        if not any(isinstance(x, dict) and isinstance(x.get("!"), list) and x["!"][0] in ("gen", "iter") for x, _ in given.values()):
            check_eq(snap(args), before, "arguments after the call")
    return Outcome((case, good), evaluations=2)


def gen_functions(tier):
    def gen():
        for name, (_, params) in FUNCTIONS.items():
            for n in range((2 if tier == "quick" or len(params) > 5 else 3) + 1):
                for ps in itertools.combinations(params, n):
                    for ix in itertools.product(*(range(1, len(params[p])) for p in ps)):
                        yield [name, dict(zip(ps, ix))]
    return gen


# ------------------------------------------------------------------------------------------------------------ life
def samples():
    names = ["pl", "a_1"]
    fs = [VariantFeature(a, b) for a in names for b in names]
    ps = [VariantProperty(a, b, c) for a in names for b in names for c in ("x", "1.0", "pl")]
    some = [vp(("pl", "f", "x")), vp(("pl", "f", "y")), vp(("po", "f", "x"))]
    ds = [VariantDescription(list(c)) for n in range(4) for c in itertools.combinations(some, n)] + [vd(c) for c in COLL[0] + COLL[2]]
    cs = [VariantFeatureConfig("f", ["x"], m) for m in (False, True)] + [VariantFeatureConfig("f", ["x", "y"], False), VariantFeatureConfig("f", ["y", "x"], False), VariantFeatureConfig("g", ["x"], False)]
    pcs = [ProviderConfig("pl", [c]) for c in cs] + [ProviderConfig("po", [cs[0]]), ProviderConfig("pl", [cs[0], cs[4]]), ProviderConfig("pl", [cs[4], cs[0]])]
    gs = [VariantConfiguration(*a) for a in itertools.product([[], ["pl"], ["pl", "po"]], [{}, {"pl": ["f"]}], [{}, {"pl": {"f": ["x"]}}])]
    return [*fs, *ps, *ds, *cs, *pcs, *gs]


def key(o):
    return (type(o).__name__, repr([getattr(o, f.name) if not isinstance(getattr(o, f.name), list) else [repr(x) for x in getattr(o, f.name)] for f in dataclasses.fields(o)]))


def run_life(case):
    i, = case
    objs = samples()
    o = objs[i]
    names = [f.name for f in dataclasses.fields(o)]
    before = snap(o), repr(o)
    for n in [*names, "nosuch"]:
        for v in (None, "x", getattr(o, n, None)):
            check(not attempt(setattr, o, n, v)[0], lambda: f"{n} of {o!r} can be set")
        check(not attempt(delattr, o, n)[0], lambda: f"{n} of {o!r} can be deleted")
    check_eq((snap(o), repr(o)), before, "object after the attempts")
    for j, q in enumerate(objs):
        check_eq(o == q, key(o) == key(q), f"{o!r} == {q!r}")
        check_eq(o != q, key(o) != key(q), f"{o!r} != {q!r}")
        if type(o) is type(q) and isinstance(o, VariantFeature):
            a, b = ([getattr(z, n) for n in names] for z in (o, q))
            check_eq((o < q, o <= q, o > q, o >= q), (a < b, a <= b, a > b, a >= b), f"order of {o!r} and {q!r}")
            check(hash(o) == hash(q) or i != j, "hash of equal objects")
        if isinstance(o, VariantFeature) and isinstance(q, VariantFeature):
            check_eq(o.feature_hash == q.feature_hash, (o.namespace, o.feature) == (q.namespace, q.feature), f"feature_hash of {o!r} and {q!r}")
            if isinstance(o, VariantProperty) and isinstance(q, VariantProperty):
                check_eq(o.property_hash == q.property_hash, o == q, f"property_hash of {o!r} and {q!r}")
                check_eq(o.feature_object == q.feature_object, (o.namespace, o.feature) == (q.namespace, q.feature), "feature_object")
    if isinstance(o, VariantProperty):
        check(type(o.feature_object) is VariantFeature, "feature_object")
        check_eq(o.feature_object.feature_hash, o.feature_hash, "feature_hash")
    if isinstance(o, VariantFeature):
        check(o in {o} and copy.copy(o) in {o}, "set membership")
        check_eq((type(o).deserialize(o.serialize()), type(o).from_str(o.to_str())), (o, o), "round trip")
    if isinstance(o, VariantDescription):
        check_eq((VariantDescription.deserialize(o.serialize()), VariantDescription.from_dict(o.to_dict())), (o, o), "round trip")
        given = list(reversed(o.properties))
        d = VariantDescription(given)
        h = d.hexdigest
        given.append(vp(("zz", "f", "x")))
        given.reverse()
        check_eq((d, d.hexdigest, d.properties), (o, h, o.properties), "description after its argument was changed")
        check_eq(o.is_null_variant(), not o.properties, "null variant")
    if isinstance(o, ProviderConfig):
        check_eq([p.to_str() for p in o.to_list_of_properties()], [f"{o.namespace} :: {c.name} :: {v}" for c in o.configs for v in c.values], "properties of the configuration")
    if isinstance(o, VariantConfiguration):
        check_eq(VariantConfiguration(**o.to_dict()), o, "round trip")
        check_eq(VariantConfiguration.from_toml_config(**{k: v for k, v in o.to_dict().items() if v}), o, "round trip")
        check_eq(VariantConfiguration.default(), VariantConfiguration([]), "default")
        VariantConfiguration.default().namespace_priorities.append("zz")
        VariantConfiguration.default().feature_priorities["zz"] = ["f"]
        check_eq(VariantConfiguration.default(), VariantConfiguration([]), "default after an earlier one was changed")
    return Outcome((repr(o),), evaluations=len(objs))


def gen_life(tier):
    return lambda: ([i] for i in range(len(samples())))


def spaces(tier):
    return [Space("objects", gen_objects(tier), run_objects), Space("long lists", gen_long(tier), run_long), Space("functions", gen_functions(tier), run_functions), Space("life", gen_life(tier), run_life)]
