"""C14: merging indexes is all-or-nothing and independent of order."""
from __future__ import annotations

import copy
import itertools
import json

from mc import c12, ref
from mc.core import Outcome, Space, check, check_eq
from mc.util import COLL, snap
from variantlib.errors import ValidationError
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "model_checking"
RULE = ("the model state is the common part of the index and the map from labels to property sets; the transitions are merges of every piece of metadata "
        "of a pool with consistent and conflicting members (for every attribute). All sequences up to the depth, and all ways to group them, are run on the "
        "real objects, comparing content, written text and every object involved after each step.")
ASSUMPTIONS = ["metadata is compared as sets of settings: dictionary order carries no meaning, list order does"]

BASE = {
    "default-priorities": {"namespace": ["a", "b"], "feature": {"a": ["f", "g"], "b": ["h"]}, "property": {"a": {"f": ["y", "x"]}}},
    "providers": {"a": {"requires": ["p >= 1", "q"], "enable-if": "python_version > '3'", "plugin-api": "p.q:R"}, "b": {"install-time": False, "requires": ["r"], "optional": True}},
    "static-properties": {"b": {"h": ["2", "1"]}},
}


def dev(*edits):
    d = copy.deepcopy(BASE)
    for path, v in edits:
        *up, last = path.split("/")
        node = d
        for k in up:
            node = node.setdefault(k, {})
        if v is None:
            del node[last]
        else:
            node[last] = v
    return d


DEVIATIONS = {
    "namespace order": dev(("default-priorities/namespace", ["b", "a"])),
    "feature order": dev(("default-priorities/feature/a", ["g", "f"])),
    "feature more": dev(("default-priorities/feature/a", ["f", "g", "h"])),
    "feature fewer": dev(("default-priorities/feature/b", None)),
    "feature elsewhere": dev(("default-priorities/feature/c", ["f"])),
    "property order": dev(("default-priorities/property/a", {"f": ["x", "y"]})),
    "property more": dev(("default-priorities/property/b", {"h": ["1"]})),
    "property none": dev(("default-priorities/property", None)),
    "requires order": dev(("providers/a/requires", ["q", "p >= 1"])),
    "requires more": dev(("providers/a/requires", ["p >= 1", "q", "s"])),
    "requires fewer": dev(("providers/a/requires", ["p >= 1"])),
    "requires other": dev(("providers/b/requires", ["t"])),
    "requires none": dev(("providers/b/requires", [])),
    "enable-if": dev(("providers/a/enable-if", "python_version > '2'")),
    "no enable-if": dev(("providers/a/enable-if", None)),
    "plugin-api": dev(("providers/a/plugin-api", "p.q:S")),
    "no plugin-api": dev(("providers/a/plugin-api", None)),
    "optional": dev(("providers/a/optional", True)),
    "not optional": dev(("providers/b/optional", None)),
    "install time": dev(("providers/a/install-time", False), ("static-properties/a", {"f": ["x"]})),
    "not aot": dev(("providers/b/install-time", None), ("static-properties", None)),
    "provider more": dev(("providers/c", {"requires": ["c"]}), ("default-priorities/namespace", ["a", "b", "c"])),
    "provider fewer": dev(("providers/b", None), ("static-properties", None), ("default-priorities/namespace", ["a"])),
    "static order": dev(("static-properties/b", {"h": ["1", "2"]})),
    "static more": dev(("static-properties/b", {"h": ["2", "1", "3"]})),
    "static none": dev(("static-properties/b", {})),
    "static feature": dev(("static-properties/b", {"g": ["2", "1"]})),
    "nothing": {},
}
SAME = {
    "defaults spelled out": dev(("providers/a/install-time", True), ("providers/a/optional", False)),
    "keys reordered": {k: (dict(reversed(v.items())) if isinstance(v, dict) else v) for k, v in reversed(BASE.items())},
}
A, B, C = {"a": {"f": ["x"]}}, {"a": {"f": ["x", "y"]}, "b": {"h": ["1"]}}, {"zz": {"f": ["1.0"]}}
POOL = [
    ("base", {"v1": A}), ("base", {"v2": B}), ("base", {"v1": B}), ("base", {"null": {}}), ("base", {"v3": A}),
    ("base", {"v2": B, "v4": C}), ("base", {"v4": A, "v5": C}), ("base", {}), ("dev", {"v6": C}), ("dev", {"v1": A}), ("same", {"v1": A, "v7": C}),
]


def doc(common, variants):
    return {**copy.deepcopy(common), "variants": copy.deepcopy(variants)}


def canon(common):
    """what has to be the same"""
    return json.dumps(c12.expected(common), sort_keys=True)


def load(common, variants, wheel=True):
    d = doc(common, variants)
    if wheel and len(variants) == 1:
        return VariantDistInfo(json.dumps(d))
    return VariantsJson(d)


def vset(variants):
    return {k: tuple(sorted(ref.unpacked(v))) for k, v in variants.items()}


class Machine:
    """an object under test with its model"""

    def __init__(self, common, variants, wheel=True):
        self.obj = load(common, variants, wheel)
        self.common = canon(common)
        self.variants = vset(variants)

    def check(self, what):
        check_eq(json.dumps(c12.plain(self.obj), sort_keys=True), self.common, f"{what}: common part")
        check_eq(c12.variants_of(self.obj), self.variants, f"{what}: variants")

    def merge(self, other, what):
        ok = self.common == other.common and all(self.variants.get(k, v) == v for k, v in other.variants.items())
        mine, theirs = snap(self.obj), snap(other.obj)
        try:
            self.obj.merge(other.obj)
            got = True
        except ValidationError:
            got = False
        check_eq(got, ok, f"{what}: accepted")
        if other is not self:
            check_eq(snap(other.obj), theirs, f"{what}: the merged-in metadata")
        if ok:
            self.variants = {**self.variants, **other.variants}
        else:
            check_eq(snap(self.obj), mine, f"{what}: the index after a refused merge")
        self.check(what)
        return ok

    def state(self):
        return (self.common, tuple(sorted(self.variants.items())))


TEXT = {}


def text_of(m):
    """the written form is a function of the model state, whichever way it was reached"""
    s = m.obj.to_str()
    ref_obj = VariantsJson({**json.loads(s)})
    check_eq(c12.variants_of(ref_obj), m.variants, "variants written")
    first = TEXT.setdefault(m.state(), s)
    check_eq(s, first, "text written, compared to another history with the same result")


def pool(name):
    d = DEVIATIONS.get(name, DEVIATIONS["enable-if"])
    s = SAME.get(name, SAME["keys reordered"])
    return [({"base": BASE, "dev": d, "same": s}[c], v) for c, v in POOL]


def run_sequence(case):
    name, start, ops, tail = case
    p = pool(name)
    states, steps, traces = set(), 0, 0
    todo = [list(ops) + list(t) for t in itertools.product(range(len(p)), repeat=tail)]
    for seq in todo:
        acc = Machine(*p[start], wheel=len(seq) % 2 == 0)
        others = {}
        acc.check("start")
        states.add(acc.state())
        for i, o in enumerate(seq):
            if o not in others:
                others[o] = Machine(*p[o])
            acc.merge(others[o], f"merge {seq[:i + 1]} into {start}")
            states.add(acc.state())
            steps += 1
        for o, m in others.items():
            m.check(f"metadata {o} after {seq}")
        text_of(acc)
        traces += 1
    return Outcome((name, start, ops), states=states, transitions=steps, traces=traces, evaluations=traces)


def gen_sequence(tier):
    full = tier != "quick"

    def gen():
        n = len(POOL)
        for name in [*DEVIATIONS, *SAME]:
            for start in range(n) if full else (0, 5, 7, 8, 10):
                for o in range(n):
                    yield [name, start, [o], 1]
        for start in range(n):
            for ops in itertools.product(range(n), repeat=2):
                yield ["enable-if", start, ops, 1 if not full else 2]
    return gen


def trees(seq):
    """all binary trees over a sequence"""
    if len(seq) == 1:
        yield seq[0]
        return
    for i in range(1, len(seq)):
        for left in trees(seq[:i]):
            for right in trees(seq[i:]):
                yield [left, right]


def run_tree(case):
    name, tree = case
    p = pool(name)
    states, steps = set(), [0]

    def build(t):
        if isinstance(t, int):
            m = Machine(*p[t])
        else:
            m, r = build(t[0]), build(t[1])
            before = snap(r.obj)
            m.merge(r, f"tree {t}")
            steps[0] += 1
            # what was merged in stays what it was when the index grows further
            m.merge(Machine(BASE, {"zz": C}), "later growth")
            m.merge(m, "merge with itself")
            steps[0] += 2
            check_eq(snap(r.obj), before, "the merged-in metadata after later merges")
        states.add(m.state())
        return m
    m = build(tree)
    text_of(m)
    return Outcome((name, json.dumps(tree)), states=states, transitions=steps[0], traces=1)


def gen_tree(tier):
    def gen():
        for name in [*DEVIATIONS, *SAME]:
            for seq in itertools.permutations((0, 1, 8, 10), 3):
                for t in trees(list(seq)):
                    yield [name, t]
        for seq in itertools.product((0, 1, 2, 3, 5, 6, 8, 10), repeat=4) if tier != "quick" else itertools.permutations((0, 1, 2, 3, 5, 8, 10), 4):
            for t in trees(list(seq)):
                yield ["enable-if", t]
        if tier != "quick":
            for seq in itertools.permutations((0, 1, 3, 5, 6, 10), 5):
                for t in trees(list(seq)):
                    yield ["requires order", t]
    return gen


def run_order(case):
    """consistent wheels: every order, grouping and multiplicity gives the same index"""
    n, perm = case
    wheels = [(BASE, {f"l{i}": {"a": {"f": [f"x{i}"]}}}) for i in range(n)]
    seq = perm if perm else list(range(n))
    acc = Machine(*wheels[seq[0]])
    for o in seq[1:]:
        check(acc.merge(Machine(*wheels[o]), "order"), "a consistent merge was refused")
    check_eq(set(acc.variants), {f"l{i}" for i in seq}, "labels")
    text_of(acc)
    return Outcome((n, tuple(sorted(set(seq)))), states=[acc.state()], transitions=len(seq) - 1, traces=1)


def gen_order(tier):
    def gen():
        for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
            for k in range(1, n + 1):
                for perm in itertools.permutations(range(n), k):
                    yield [n, perm]
        for n in (12, 33):
            for s in range(4):
                order = list(range(n))[s:] + list(range(n))[:s]
                yield [n, order]
                yield [n, order[::-1] + order]
                yield [n, order[::2] + order[1::2]]
    return gen


# ------------------------------------------------------------------------------------------ independence
def run_alias(case):
    """after a merge, whatever is changed in one object leaves the others as they are"""
    name, start, ops = case
    p = pool(name)

    def build():
        acc = Machine(*p[start], wheel=False)
        ms = {o: Machine(*p[o]) for o in ops}
        for o in ops:
            acc.merge(ms[o], f"merge {ops} into {start}")
        return [acc, *ms.values()]
    first = build()
    states = [first[0].state()]
    n = 0
    for i, path, how in [(i, path, how) for i, m in enumerate(first) for path, part in c12.parts(m.obj) for how in c12.mutations(part)]:
        objs = build()
        before = [snap(x.obj) for x in objs]
        c12.mutate(c12.at(objs[i].obj, path), how)
        for j, x in enumerate(objs):
            if j != i:
                check_eq(snap(x.obj), before[j], f"object {j} after {how} of {'.'.join(map(str, path)) or 'the whole'} of object {i} (0 is the index, then {ops})")
        n += 1
    return Outcome((name, start, tuple(ops), n), states=states, transitions=n, traces=n)


def gen_alias(tier):
    def gen():
        full = tier != "quick"
        for name in ["enable-if", "requires order", "feature more", *SAME]:
            for start in (0, 5, 7, 10) if full else (0, 10):
                for o in range(len(POOL)):
                    yield [name, start, [o]]
        for ops in itertools.permutations((0, 1, 4, 10) if not full else range(len(POOL)), 2):
            yield ["keys reordered", 0, ops]
    return gen


def run_collide(case):
    """two variants of equal shortened hash, under one label or two"""
    i, order, la, lb = case
    packed = []
    for ts in (COLL[i] if not order else COLL[i][::-1]):
        d = {}
        for n, f, v in ts:
            d.setdefault(n, {}).setdefault(f, []).append(v)
        packed.append(d)
    acc, other = Machine(BASE, {la: packed[0]}), Machine(BASE, {lb: packed[1]})
    check_eq(acc.merge(other, "merge"), la != lb, "accepted")
    both = Machine(BASE, {la: packed[0], **({lb: packed[1]} if la != lb else {"zz": {"n": {"f": ["1"]}}})}, wheel=False)
    both.merge(Machine(BASE, {lb: packed[0]}), "merge of the other under that label")
    text_of(acc)
    return Outcome((i, la == lb), states=[acc.state(), both.state()], transitions=2, traces=1)


def run_large(case):
    """a large index and one more piece of metadata that agrees or not at one place"""
    n, at, how = case
    names = [f"l{(i * 7) % n if n % 7 else i}" for i in range(n)]
    common = {"default-priorities": {"namespace": [f"n{i}" for i in range(n)], "feature": {"n0": [f"f{i}" for i in range(n)]}, "property": {"n0": {"f0": [f"v{i}" for i in range(n)]}}},
              "providers": {**{f"n{i}": {"requires": [f"r{i}"]} for i in range(1, n)}, "n0": {"install-time": False, "requires": [f"r{i}" for i in range(n)]}}, "static-properties": {"n0": {f"f{i}": [f"v{j}" for j in range(3)] for i in range(n)}}}
    variants = {x: {"n0": {"f": [x]}} for x in names}
    acc = Machine(common, variants, wheel=False)
    c2, v2 = copy.deepcopy(common), {names[at]: copy.deepcopy(variants[names[at]])}
    if how == "variant":
        v2[names[at]]["n0"]["f"] = ["other"]
    elif how == "more":
        v2[names[at]]["n0"]["g"] = ["x"]
    elif how == "new":
        v2 = {"new": {"n0": {"f": ["x"]}}}
    elif how == "all":
        v2 = copy.deepcopy(variants)
    elif how == "all but one":
        v2 = copy.deepcopy(variants)
        v2[names[at]] = {"n0": {"f": ["other"]}}
    elif how == "static":
        c2["static-properties"]["n0"][f"f{at}"] = ["v0", "v2", "v1"]
    elif how == "priority":
        c2["default-priorities"]["property"]["n0"]["f0"][at] = "other"
    elif how == "features":
        fs = c2["default-priorities"]["feature"]["n0"]
        fs.append(fs.pop(at))
    elif how == "requires":
        c2["providers"]["n0"]["requires"][at] = "other"
    elif how == "provider":
        c2["providers"][f"n{at}"]["optional"] = True
    elif how == "namespaces":
        ns = c2["default-priorities"]["namespace"]
        ns.insert(0, ns.pop(at or -1))
    other = Machine(c2, v2, wheel=len(v2) == 1)
    acc.merge(other, f"merge ({how})")
    acc.merge(Machine(common, {"zz": {"n0": {"f": ["zz"]}}}), "a merge later")
    text_of(acc)
    return Outcome(case, states=[acc.state()], transitions=2, traces=1)


def gen_large(tier):
    def gen():
        for n in (2, 5, 9, 17, 33, 65, 129) if tier == "quick" else (*range(2, 70), 127, 128, 129, 255, 256, 257):
            for at in sorted({0, 1, n // 2, n - 1}):
                for how in ("same", "variant", "more", "new", "all", "all but one", "static", "priority", "features", "requires", "provider", "namespaces"):
                    yield [n, at, how]
    return gen


def spaces(tier):
    return [
        Space("sequences", gen_sequence(tier), run_sequence),
        Space("grouping", gen_tree(tier), run_tree),
        Space("orders", gen_order(tier), run_order),
        Space("large", gen_large(tier), run_large),
        Space("collisions", lambda: ([i, o, "l", lb] for i in range(len(COLL)) for o in (0, 1) for lb in ("l", "m")), run_collide),
        Space("independence", gen_alias(tier), run_alias),
    ]
