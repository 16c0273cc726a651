"""C03: a variant is kept exactly when it is compatible and not forbidden."""
from __future__ import annotations

import itertools

from mc import ref
from mc.core import HarnessError, Outcome, Space, check, check_eq
from mc.util import ADJ, COLL, KEYWORDS, NAMES, VALUES, pairs, snap, subsets, tups, vd, vp
from variantlib.models.variant import VariantDescription, VariantFeature
from variantlib.resolver.filtering import (filter_variants_by_features, filter_variants_by_namespaces,
                                           filter_variants_by_property, remove_duplicates)
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants

LEVEL = "exploration"
RULE = ("all supported sets x forbidden namespaces/features/properties over a six-property universe, each against every variant of the "
        "universe; all sequences of variants with repetitions up to the bound; colliding shortened hashes; size sweeps; compared with a "
        "set-theoretic reference. An outcome is the tuple of kept positions.")
ASSUMPTIONS = []

# gluing namespace and feature, or feature and value, without separator would conflate these
U = [("a", "bc", "x"), ("a", "bc", "y"), ("a", "c", "x"), ("ab", "c", "x"), ("ab", "c", "y"), ("ab", "bc", "x")]
FEATS = sorted({t[:2] for t in U})
NSS = ["a", "ab"]
ALL = [list(s) for s in subsets(U, 0, len(U))]



def pick(seq, mask):
    return None if mask is None else [x for i, x in enumerate(seq) if mask >> i & 1]


def expect(variants, supported, fns, ff, fp, dedupe=True):
    vs = ref.dedupe(variants) if dedupe else variants
    return [v for v in vs if ref.compatible(v, supported, fns or (), ff or (), fp or ())]


def run_filter(case):
    """every variant of the universe in one call, plus the single filters one by one"""
    sm, nm, fm, pm = case
    sup, fns, ff, fp = pick(U, sm), pick(NSS, nm), pick(FEATS, fm), pick(U, pm)
    return decide(ALL, sup, fns, ff, fp)


_ALL_DESCS = []


def decide(variants, sup, fns, ff, fp):
    if variants is ALL:
        if not _ALL_DESCS:
            _ALL_DESCS.extend(vd(v) for v in ALL)
        descs = list(_ALL_DESCS)
    else:
        descs = [vd(v) for v in variants]
    asup = [vp(t) for t in sup]
    aff = None if ff is None else [VariantFeature(*t) for t in ff]
    afp = None if fp is None else [vp(t) for t in fp]
    args = (descs, asup, fns, aff, afp)
    before = snap(args[1:]), list(descs), [list(d.properties) for d in descs]
    got = list(filter_variants(vdescs=descs, allowed_properties=asup, forbidden_namespaces=fns, forbidden_features=aff, forbidden_properties=afp))
    ident = {tuple(sorted(v)): d for v, d in reversed(list(zip(variants, descs)))}
    want = expect(variants, sup, fns, ff, fp)
    check([tups(d) for d in got] == [sorted(v) for v in want], lambda: f"filter_variants keeps {[tups(d) for d in got]}, expected {want}")
    for d, v in zip(got, want):
        check(d is ident[tuple(sorted(v))], "not the object of the first occurrence")
    # single filters: duplicates pass through them
    if fns is not None:
        check_eq(list(filter_variants_by_namespaces(iter(descs), fns)),
                 [d for d, v in zip(descs, variants) if not any(t[0] in fns for t in v)], "filter_variants_by_namespaces")
    if aff is not None:
        check_eq(list(filter_variants_by_features(tuple(descs), aff)),
                 [d for d, v in zip(descs, variants) if not any(tuple(t[:2]) in ff for t in v)], "filter_variants_by_features")
    check_eq(list(filter_variants_by_property(iter(descs), asup, afp)),
             [d for d, v in zip(descs, variants) if ref.compatible(v, sup, (), (), fp or ())], "filter_variants_by_property")
    check((snap(args[1:]), list(descs), [list(d.properties) for d in descs]) == before, "an argument was modified")
    return Outcome(tuple(map(tuple, want)), evaluations=len(variants), trivial=not variants)


def gen_filter(tier):
    def gen():
        full = [None, *range(64)]
        small = [None, 0, 1, 2, 4, 8, 16, 32]
        for sm in range(64):
            seen = set()
            combos = itertools.chain(
                itertools.product([None, 0, 1, 2, 3], [None, 0, 1, 2, 4, 8], small) if tier == "quick" else
                itertools.product([None, 0, 1, 2, 3], [None, *range(16)], full),
                ((None, None, pm) for pm in full), ((n, f, None) for n in (None, 1, 2) for f in range(16)),
            )
            for c in combos:
                if c not in seen:
                    seen.add(c)
                    yield [sm, *c]
    return gen


SEQ_V = [[], [U[0]], [U[0], U[1]], [U[0], U[3]], [U[4]]]


def run_seq(case):
    variants = [[list(t) for t in SEQ_V[i]] for i in case]
    variants = [v[::-1] if k % 2 else v for k, v in enumerate(variants)]
    variants = [[tuple(t) for t in v] for v in variants]
    descs = [vd(v) for v in variants]
    got = list(remove_duplicates(iter(descs)))
    first = [descs[i] for i in range(len(descs)) if case[i] not in case[:i]]
    check(len(got) == len(first) and all(a is b for a, b in zip(got, first)), lambda: f"remove_duplicates of {case}: {got}")
    outs = []
    for sup in ([U[0], U[3]], [U[1], U[4]], U):
        for fp in (None, [U[0]]):
            outs.append(decide(variants, sup, None, None, fp).observed)
    return Outcome(tuple(outs), evaluations=7)


def gen_seq(k):
    return lambda: (list(t) for n in range(k + 1) for t in itertools.product(range(len(SEQ_V)), repeat=n))


def run_collide(case):
    i, order, supm, dup, form = case
    a, b = [*COLL, *ADJ][i]
    if i < len(COLL) and ref.vhash(a) != ref.vhash(b) or a == b:
        raise HarnessError("not a collision")
    variants = [a, b, (), (("n", "f", "1"),)]
    variants = [list(variants[j]) for j in order] + ([list(variants[order[0]])] if dup else [])
    sup = (list(a) if supm & 1 else []) + (list(b) if supm & 2 else [])
    if form == "dups":
        descs = [vd(v) for v in variants]
        want = ref.dedupe(variants)
        check_eq(list(remove_duplicates(descs)), [vd(v) for v in want], "remove_duplicates")
        return Outcome((i, tuple(order)))
    o = decide(variants, sup, None, None, None)
    # the resolver as a whole
    got = sort_and_filter_supported_variants([vd(v) for v in variants], [vp(t) for t in dict.fromkeys(sup)], list(dict.fromkeys(["n", "m", *(t[0] for t in sup)])))
    want = expect(variants + [()], sup, None, None, None)
    check_eq(sorted(map(repr, got)), sorted(repr(vd(v)) for v in want), "resolution")
    return o


def gen_collide():
    for i in range(len(COLL) + len(ADJ)):
        for k in (2, 3, 4):
            for order in itertools.permutations(range(4), k):
                for supm in range(4):
                    for dup in (0, 1):
                        yield [i, list(order), supm, dup, "filter"]
                    if not supm:
                        yield [i, list(order), 0, 1, "dups"]


def run_sweep(case):
    kind, n, k = case
    if kind == "values":  # one feature with n values, the k-th supported
        variants = [[("n", "f", str(j)) for j in range(n)], [("n", "f", str(k))], [("n", "f", str((k + 1) % n))]]
        sup = [("n", "f", str(k))]
    elif kind == "features":  # n features, all but the k-th supported
        variants = [[("n", f"f{j}", "v") for j in range(n)], [("n", f"f{j}", "v") for j in range(n) if j != k], [("n", f"f{k}", "v")]]
        sup = [("n", f"f{j}", "v") for j in range(n) if j != k]
    elif kind == "namespaces":
        variants = [[(f"n{j}", "f", "v") for j in range(n)], [(f"n{j}", "f", "v") for j in range(n) if j != k], [(f"n{k}", "f", "v")]]
        sup = [(f"n{j}", "f", "v") for j in range(n) if j != k]
    elif kind == "many":  # n variants, the k-th incompatible
        variants = [[("n", "f", str(j))] for j in range(n)] * 2
        sup = [("n", "f", str(j)) for j in range(n) if j != k]
    elif kind == "forbid":
        variants = [[(f"n{j % 3}", f"f{j}", "v")] for j in range(n)]
        sup = [t for v in variants for t in v]
        return Outcome([decide(variants, sup, [f"n{k % 3}"], None, None).observed, decide(variants, sup, None, [sup[k][:2]], None).observed,
                        decide(variants, sup, None, None, [sup[k]]).observed, decide(variants, sup, None, [sup[k][:2], sup[0][:2]], [sup[-1]]).observed])
    elif kind == "repeat":  # the supported list repeats entries and holds foreign ones
        variants = [[("n", "f", str(j))] for j in range(3)]
        sup = [("n", "f", "1")] * n + [("n", "g", str(j)) for j in range(k)] + [("m", "f", "0")]
    return decide(variants, sup, None, None, None)


def gen_sweep(tier):
    def gen():
        top = 14 if tier == "quick" else 40
        for kind in ("values", "features", "namespaces", "many", "forbid", "repeat"):
            for n in range(1, top):
                for k in range(n):
                    yield [kind, n, k]
        for kind in ("values", "features", "many", "namespaces"):
            for n in (33, 65, 129):
                for k in (0, 1, n // 2, n - 1):
                    yield [kind, n, k]
    return gen


# ---- names that are easily confused
def run_names(case):
    nss, fs, vals = case
    uni = [(n, f, v) for n in nss for f in fs for v in vals]
    variants = [[t] for t in uni] + [[uni[0], uni[7]], [uni[0], uni[1]], [uni[2], uni[5]], []]
    outs = [decide(variants, uni[::2], None, None, None).observed, decide(variants, uni, [nss[0]], None, [uni[-1]]).observed,
            decide(variants, uni, [nss[1]], [uni[0][:2]], None).observed, decide(variants, uni[:5], None, [uni[2][:2]], [uni[0]]).observed,
            decide(variants, uni, None, None, [uni[3], uni[5]]).observed]
    return Outcome((case, outs), evaluations=5 * len(variants))


def gen_names(tier):
    def gen():
        ns = NAMES[:5] if tier == "quick" else NAMES + KEYWORDS[:4]
        for n in pairs(ns):
            for f in pairs(ns):
                for v in [("a", "aa"), ("aa", "a"), ("a_a", "_a"), ("1.0", "1"), ("a.a", "a_a"), (".", "..")] if tier == "quick" else pairs(VALUES[:8]):
                    yield [n, f, v]
    return gen


# ---- the same filters as part of resolution, which adds the variant without properties
WHOLE = {"all": ALL, "without null": [v for v in ALL if v], "repeated": ALL[1:9] + [[]] + ALL[1:9], "nothing": [], "only null": [[]]}


def run_whole(case):
    which, sm, nm, fm, pm = case
    variants = WHOLE[which]
    sup, fns, ff, fp = pick(U, sm), pick([*NSS, "abi_dependency"], nm), pick(FEATS, fm), pick(U, pm)
    descs = [vd(v) for v in variants]
    args = [descs, [vp(t) for t in sup], NSS[::-1]]
    before = snap(args)
    got = [tups(d) for d in sort_and_filter_supported_variants(
        *args, forbidden_namespaces=fns, forbidden_features=None if ff is None else [VariantFeature(*t) for t in ff],
        forbidden_properties=None if fp is None else [vp(t) for t in fp])]
    want = expect([*variants, []], sup, fns, ff, fp)
    check(sorted(map(sorted, got)) == sorted(map(sorted, want)), lambda: f"resolution keeps {got}, expected {want}")
    check(got[-1] == [], lambda: f"the variant without properties is not last: {got}")
    check_eq(snap(args), before, "the arguments afterwards")
    return Outcome((which, tuple(map(tuple, want))), evaluations=len(variants) + 1)


def gen_whole(tier):
    def gen():
        masks = [None, 0, 1, 6] if tier == "quick" else [None, *range(8)]
        for which in WHOLE:
            for sm in (0, 1, 21, 42, 47, 63) if tier == "quick" else range(64):
                for nm in masks:
                    for fm in [None, 0, 1, 4]:
                        for pm in [None, 0, 2, 33]:
                            yield [which, sm, nm, fm, pm]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("filter", gen_filter(tier), run_filter),
        Space("sequences", gen_seq(4 if q else 5), run_seq),
        Space("collisions", gen_collide, run_collide),
        Space("sweep", gen_sweep(tier), run_sweep),
        Space("names", gen_names(tier), run_names),
        Space("whole", gen_whole(tier), run_whole),
    ]
