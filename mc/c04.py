"""C04: supported variants are ordered by namespace, then feature, then value priority."""
from __future__ import annotations

import itertools

from mc import ref
from mc.core import Outcome, Space, check, check_eq
from mc.util import COLL, raises, snap, subsets, tup, tups, vd, vp
from variantlib.errors import ValidationError
from variantlib.resolver.lib import sort_and_filter_supported_variants
from variantlib.resolver.sorting import sort_variant_properties, sort_variants_descriptions

LEVEL = "exploration"
RULE = ("all provider declaration orders x namespace, feature and value priority lists (unlisted, foreign and repeated entries included) over a "
        "two-namespace universe, ranking every variant of the universe in two input orders against a lexicographic reference; size sweeps over "
        "the number of namespaces, features and values with every position of the deciding one. An outcome is the resulting order.")
ASSUMPTIONS = ["a provider's features are listed contiguously, as providers report them"]


def flat(order):
    return [(n, f, v) for (n, f), vals in order for v in vals]


def decide(supported, variants, nsp, fp, pp):
    """supported: ordered triples; variants: list of lists of triples (compatible or not)"""
    order = ref.feature_order(supported, nsp, fp, pp)
    asup = [vp(t) for t in supported]
    before = snap((asup, nsp, fp, pp))
    got = sort_variant_properties(asup, nsp, fp, pp)
    dups = {t: supported.count(t) for t in supported}
    check_eq([tup(p) for p in got], [t for t in flat(order) for _ in range(dups[t])], "sort_variant_properties")
    sorts = []
    for vs in (variants, variants[::-1]):
        descs = [vd(v) for v in vs]
        b2 = snap(descs)
        want = ref.resolve(vs, supported, nsp, fp, pp)
        res = sort_and_filter_supported_variants(descs, asup, nsp, fp, pp)
        check([tups(d) for d in res] == [sorted(v) for v in want],
              lambda: f"resolution order {[tups(d) for d in res]}, expected {[sorted(v) for v in want]}")
        # the sorter on its own, on compatible variants only
        keep = [v for v in vs if ref.compatible(v, supported)]
        res2 = sort_variants_descriptions([vd(v) for v in keep], got)
        want2 = sorted(keep, key=lambda v: ref.rank(v, order))
        check([tups(d) for d in res2] == [sorted(v) for v in want2], lambda: f"sort_variants_descriptions gives {[tups(d) for d in res2]}, expected {want2}")
        check(snap(descs) == b2, "the variants were modified")
        if any(len(v) == 0 for v in want2):
            check(not tups(res2[-1]), "the null variant is not last")
        sorts.append(tuple(map(tuple, want)))
    check(snap((asup, nsp, fp, pp)) == before, "an argument was modified")
    return Outcome((tuple(t for t in flat(order)), tuple(sorts)), evaluations=2 * len(variants))


# namespaces a (features f, g) and b (feature f); values overlap between features; 'q' is never supported
DECL = {"a": {"f": ["x", "y"], "g": ["y", "x", "z"]}, "b": {"f": ["x", "w"]}}
VARS = None


def variants():
    global VARS
    if VARS is None:
        af = [[], [("a", "f", "x")], [("a", "f", "y")], [("a", "f", "x"), ("a", "f", "y")], [("a", "f", "y"), ("a", "f", "q")]]
        ag = [[], [("a", "g", "x")], [("a", "g", "y")], [("a", "g", "z"), ("a", "g", "x")], [("a", "g", "z")]]
        bf = [[], [("b", "f", "x")], [("b", "f", "w")], [("b", "f", "q")]]
        VARS = [x + y + z for x in af for y in ag for z in bf]
    return VARS


def build(nso, fo, vo):
    out = []
    for n in nso:
        fs = [f for f in fo if f in DECL[n]]
        for f in fs:
            vals = DECL[n][f]
            out += [(n, f, v) for v in (vals[::-1] if vo else vals)]
    return out


def run_prio(case):
    (nso, fo, vo), nsp, fp, pp = case
    return decide(build(nso, fo, vo), variants(), nsp, fp, pp)


DECLS = [(ns, f, v) for ns in (["a", "b"], ["b", "a"]) for f in (["f", "g"], ["g", "f"]) for v in (0, 1)]
NSP = [["a", "b"], ["b", "a"], ["zz", "b", "a"], ["b", "b", "a", "b"], ["a", "zz", "b", "a"]]
FP_A = [None, [], ["f"], ["g"], ["f", "g"], ["g", "f"], ["zz", "g"], ["g", "g", "f", "g"], ["f", "zz", "g", "f"]]
VP = [None, [], ["x"], ["y"], ["z"], ["q", "y"], ["z", "y", "x"], ["y", "x"], ["z", "zz", "x", "z", "y"]]


def fpd(a, b=None):
    d = {}
    if a is not None:
        d["a"] = a
    if b is not None:
        d["b"] = b
    return d


def gen_prio(tier):
    def gen():
        for decl in DECLS:
            d = list(decl)
            for nsp in NSP:
                for fa in FP_A:
                    yield [d, nsp, fpd(fa), None]
                for fa in FP_A[:6]:
                    for fb in (["f"], ["g", "f"]):
                        yield [d, nsp, fpd(fa, fb), {}]
                yield [d, nsp, None, None]
            for nsp in (NSP[:2] if decl[1][0] == "f" else []) if tier == "quick" else NSP:
                for vf in VP:
                    for vg in VP:
                        for fa in (None, ["g"]) if tier == "quick" else FP_A:
                            pa = {}
                            if vf is not None:
                                pa["f"] = vf
                            if vg is not None:
                                pa["g"] = vg
                            pp = {"a": pa, "b": {"f": ["w"]}} if decl[2] else {"a": pa}
                            yield [d, nsp, fpd(fa), pp]
            # priorities of one namespace must not leak into another, nor of one feature into another
            for vb in VP:
                if vb is not None:
                    yield [d, ["a", "b"], {"b": ["g", "f"], "zz": ["g"]}, {"b": {"f": vb, "g": vb}, "zz": {"f": vb}}]
    return gen


def run_missing(case):
    present, prios = case
    sup = [(n, "f", "x") for n in present]
    vs = [[(n, "f", "x")] for n in present] + [[]]
    want_err = bool(set(present) - set(prios))
    for fn in (lambda: sort_variant_properties([vp(t) for t in sup], list(prios)),
               lambda: sort_and_filter_supported_variants([vd(v) for v in vs], [vp(t) for t in sup], list(prios))):
        got = raises(ValidationError, fn)
        check(got == want_err, lambda: f"namespaces {present} with priorities {prios}: {'refused' if got else 'accepted'}")
    return (tuple(present), tuple(prios))


def gen_missing():
    names = ["a", "b", "c"]
    for k in range(4):
        for present in itertools.permutations(names, k):
            for j in range(4):
                for prios in itertools.permutations(["a", "b", "c", "d"], j):
                    yield [list(present), list(prios)]


def run_sweep(case):
    kind, n, i, j = case
    if kind == "values":  # n values; priority list names value i first; compare variants per value
        sup = [("n", "f", f"{k}") for k in range(n)]
        vs = [[t] for t in sup] + [[sup[i], sup[j]] if i != j else [("n", "f", "q"), sup[i]], []]
        return Outcome([decide(sup, vs, ["n"], None, pp).observed for pp in (None, {"n": {"f": [f"{i}"]}}, {"n": {"f": [f"{j}", f"{i}"]}}, {"n": {"f": [f"{k}" for k in reversed(range(n))]}})])
    if kind == "features":
        sup = [("n", f"f{k}", v) for k in range(n) for v in ("a", "b")]
        vs = [[("n", f"f{i}", "a")], [("n", f"f{j}", "a")], [("n", f"f{i}", "a"), ("n", f"f{j}", "b")] if i != j else [("n", f"f{i}", "b")],
              [("n", f"f{k}", "b") for k in range(n)], [("n", f"f{k}", "a" if k != i else "b") for k in range(n)], []]
        return Outcome([decide(sup, ref.dedupe(vs), ["n"], fp, None).observed for fp in (None, {"n": [f"f{i}"]}, {"n": [f"f{j}", f"f{i}"]}, {"n": [f"f{k}" for k in reversed(range(n))]})])
    if kind == "namespaces":
        sup = [(f"n{k}", "f", v) for k in range(n) for v in ("a", "b")]
        base = [f"n{k}" for k in range(n)]
        vs = [[(f"n{i}", "f", "a")], [(f"n{j}", "f", "a")], [(f"n{i}", "f", "b")], [(f"n{k}", "f", "b") for k in range(n)],
              [(f"n{k}", "f", "a") for k in range(n) if k != i], []]
        return Outcome([decide(sup, ref.dedupe(vs), p, None, None).observed for p in (base, base[::-1], [base[i]] + base, [base[j], base[i]] + base)])
    if kind == "ties":  # n variants tying on everything supported keep their order
        sup = [("n", "f", "s"), ("n", "g", "t")]
        vs = [[("n", "f", "s"), ("n", "f", f"u{(k * 7 + i) % 101}")] for k in range(n)] + [[("n", "g", "t")]] + [[("n", "f", "s")]]
        return decide(sup, vs, ["n"], None, None)


def gen_sweep(tier):
    def gen():
        top = 9 if tier == "quick" else 20
        for kind in ("values", "features", "namespaces"):
            for n in range(1, top):
                for i in range(n):
                    for j in range(n):
                        yield [kind, n, i, j]
            for n in (10, 11, 12, 13, 17, 33) + ((101,) if tier != "quick" else ()):
                for i in (0, 1, 2, 9, n - 2, n - 1):
                    for j in (0, n // 2, n - 1):
                        yield [kind, n, i, j]
        for n in (1, 2, 3, 5, 8, 9, 17, 40):
            for i in range(0, 30):
                yield ["ties", n, i, 0]
    return gen


def run_random_names(case):
    """the order never depends on the names themselves: rename everything and compare with the renamed result"""
    perm = dict(zip("fgxyzw", case))
    vs = [[(n, perm.get(f, f), perm.get(v, v)) for n, f, v in var] for var in variants()]
    sup = [(n, perm[f], perm[v]) for n, f, v in build(["b", "a"], ["g", "f"], 0)]
    return decide(sup, vs, ["b", "a"], {"a": [perm["g"]]}, {"a": {perm["g"]: [perm["z"]], perm["f"]: [perm["y"]]}})


def run_collide(case):
    """variants whose shortened hashes coincide are ranked each on its own"""
    i, nsp, rev, order = case
    a, b = COLL[i][::-1] if order else COLL[i]
    groups = {}
    for t in (*a, ("n", "f", "mid"), ("n", "g", "mid"), *b):
        vals = groups.setdefault(t[:2], [])
        if t[2] not in vals:
            vals.append(t[2])
    sup = [(*g, v) for n in ("n", "m") for g, vals in groups.items() if g[0] == n for v in vals]
    pp = {}
    for (n, f), vals in groups.items():
        pp.setdefault(n, {})[f] = vals[::-1]
    return decide(sup, [list(a), [("n", "f", "mid")], list(b), [("n", "g", "mid")], []], nsp, None, pp if rev else None)


JOINS = [[("a", "b_c"), ("a_b", "c")], [("a", "bc"), ("ab", "c")], [("a", "_b"), ("a_", "b")], [("a", "a"), ("aa", "a")], [("1", "11"), ("11", "1")], [("a", "b"), ("b", "a")]]


def run_joined(case):
    """features whose names coincide once they are joined to their namespaces' (or are exchanged) are told apart"""
    i, order, nsp, fo, rev, second = case
    g = JOINS[i][::-1] if order else JOINS[i]
    sup = [(*g[0], "x"), (*g[0], "y"), (*g[1], "y"), (*g[1], "x")]
    if second:  # a feature of their own in each namespace
        sup = [(g[0][0], "zz", "x"), *sup, (g[1][0], "zz", "y")]
    fp = {n: [f, "zz"] if fo else ["zz", f] for n, f in g}
    pp = {g[rev - 1][0]: {g[rev - 1][1]: ["y", "x"]}, g[rev - 2][0]: {g[rev - 2][1]: ["x"]}} if rev else None
    vs = [[]] + [[t] for t in sup] + [[s, t] for s, t in itertools.combinations(sup, 2)] + [[s, t, u] for s, t, u in itertools.combinations(sup, 3)]
    return decide(sup, vs, [g[0][0], g[1][0]] if nsp else [g[1][0], g[0][0]], fp, pp)


def gen_joined():
    yield from (list(t) for t in itertools.product(range(len(JOINS)), (0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1)))


def gen_names():
    yield from (list(t) for t in itertools.permutations(["f", "g", "10", "9", "_", "a1"], 6))


def spaces(tier):
    return [
        Space("priorities", gen_prio(tier), run_prio),
        Space("missing", gen_missing, run_missing),
        Space("sweep", gen_sweep(tier), run_sweep),
        Space("names", gen_names, run_random_names),
        Space("joined names", gen_joined, run_joined),
        Space("collisions", lambda: ([i, n, r, o] for i in range(len(COLL)) for n in (["n", "m"], ["m", "n"]) for r in (0, 1) for o in (0, 1)), run_collide),
    ]
