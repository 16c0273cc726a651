"""C01: variant hash and default label are a canonical identity of the property set."""
from __future__ import annotations

import copy
import itertools
import json
import os
import subprocess
import sys

from mc import core, ref
from mc.core import REPO, Outcome, Space, Violation, check, check_eq
from mc.util import COLL, cli, install_entry_points, raises, subsets, text, tups, vd, vp
from variantlib.api import get_variant_label
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantProperty
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every subset (size <= bound) of a property universe whose texts collide when concatenated, in every order and by "
        "every construction route, compared with an independent SHA-256 reference; single-character and size sweeps; "
        "fresh interpreters with different hash seeds. Non-trivial: the outcome is the digest of one case; distinct digests are counted.")
ASSUMPTIONS = ["hashlib.sha256 is correct"]

# neighbouring texts collide when glued together without separators; chars cover the ordering classes ('.' < digit < '_' < letter)
UNI = [("a", "b", "c"), ("a", "b", "cx"), ("a", "bc", "x"), ("ab", "c", "x"), ("a", "b", "c.0"), ("a", "b_", "c"),
       ("a0", "b", "c"), ("a_", "b", "0"), ("0", "9", "_"), ("xd", "e", "f"), ("d", "e", "f"), ("a", "b", "10"), ("a", "b", "9")]


def routes(order):
    """every way to construct the description with the properties in this order"""
    yield "objects", lambda: VariantDescription([VariantProperty(*t) for t in order])
    yield "kwargs", lambda: VariantDescription(properties=[VariantProperty(namespace=n, feature=f, value=v) for n, f, v in order])
    yield "text", lambda: VariantDescription([VariantProperty.from_str(text(t)) for t in order])
    yield "tight", lambda: VariantDescription([VariantProperty.from_str("::".join(t)) for t in order])
    yield "deserialize", lambda: VariantDescription.deserialize([{"value": v, "feature": f, "namespace": n} for n, f, v in order])
    d = {}
    for n, f, v in order:
        d.setdefault(n, {}).setdefault(f, []).append(v)
    yield "dict", lambda: VariantDescription.from_dict(d)
    yield "index", lambda: VariantsJson({"variants": {"x": d, "null": {}}, "providers": {}, "default-priorities": {"namespace": []}}).variants["x"]
    yield "dist-info", lambda: VariantDistInfo(json.dumps({"variants": {"x": d}})).variant_desc
    yield "reserialize", lambda: VariantDescription.deserialize(vd(order).serialize())
    yield "todict", lambda: VariantDescription.from_dict(vd(order).to_dict())
    yield "deepcopy", lambda: copy.deepcopy(vd(order))


def run_sets(case):
    props = [tuple(t) for t in case]
    want_hash, want_order = ref.vhash(props), sorted(props)
    base = vd(props)
    n = 0
    perms = itertools.permutations(props) if len(props) <= 4 else [props, props[::-1], props[1:] + props[:1], props[len(props) // 2:] + props[:len(props) // 2], props[::2] + props[1::2]]
    for order in perms:
        for name, make in routes(order):
            if not order and name in ("index", "dist-info"):
                continue
            d = make()
            n += 1
            check_eq(d.hexdigest, want_hash, f"hash of {order} via {name}")
            check_eq(tups(d), want_order, f"property order via {name}")
            check(d == base and not (d != base), f"{name}: not equal to the same set")
            check_eq(get_variant_label(d), want_hash if props else "null", "default label")
            check_eq(d.is_null_variant(), not props, "is_null_variant")
            check_eq(d.to_dict(), ref.packed(props), "packed form")
            check_eq(d.hexdigest, want_hash, "hash, second time")
    # the caller's list is neither reordered nor shared
    lst = [VariantProperty(*t) for t in reversed(want_order)]
    snap = list(lst)
    d = VariantDescription(lst)
    check(lst == snap, "constructor reordered the caller's list")
    lst.clear()
    check_eq(d.hexdigest, want_hash, "hash after the caller's list changed")
    # equality is equality of sets
    some = props if len(props) <= 40 else [props[0], props[1], props[len(props) // 2], props[-2], props[-1]]
    for drop in some:
        check(vd([p for p in props if p != drop]) != base, "different sets compare equal")
    # repeating any property anywhere is refused
    for p in some:
        for pos in range(len(props) + 1) if some is props else (0, 1, len(props) // 2, len(props) - 1, len(props)):
            l2 = [vp(t) for t in props[:pos] + [p] + props[pos:]]
            check(raises(ValidationError, VariantDescription, l2), lambda: f"duplicate accepted: {l2}")
        dd = ref.packed(props)
        dd[p[0]][p[1]].append(p[2])
        check(raises(ValidationError, VariantDescription.from_dict, dd), "duplicate accepted in packed form")
    return Outcome(want_hash, evaluations=n)


def gen_sets(k):
    def gen():
        yield from (list(s) for s in subsets(UNI, 0, k))
    return gen


def gen_sweep(tier):
    def gen():
        for c in "abcdefghijklmnopqrstuvwxyz0123456789_":
            yield [[c, "f", "v"], ["m", c, "v"], ["m", "f", c]]
            yield [["m" + c, "f", "v"], ["m", "f" + c, "v"], ["m", "f", c + "v"]]
        yield [["m", "f", "."], ["m", "f", ".."], ["m", "f", "v."]]
        top = 14 if tier == "quick" else 40
        for n in range(1, top):
            yield [["ns", "f", str(i)] for i in range(n)]
            yield [["ns", f"f{i}", "v"] for i in range(n)]
            yield [[f"ns{i}", "f", "v"] for i in range(n)]
            yield [[f"ns{i % 3}", f"f{i % 2}", f"{'z' * (i % 5)}{i}"] for i in range(n)]
        for n in (33, 64, 65, 101, 129, 257) if tier == "quick" else (*range(40, 140), 255, 256, 257, 511, 512, 513, 1000, 1025):
            yield [["ns", "f", str(i)] for i in range(n)]
            yield [[f"ns{i % 3}", f"f{i % 7}", f"{'z' * (i % 5)}{i}"] for i in range(n)]
            yield [[f"ns{i}", f"f{i % 2}", "v"] for i in range(n)]
        for ln in (2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000):
            yield [["n" * ln, "f", "v"], ["n", "f" * ln, "v"], ["n", "f", "v" * ln + "w"]]
    return gen


def run_pairs(case):
    """distinct sets in one description family: the digest equals the reference for both, also when computed interleaved"""
    a, b = [[tuple(t) for t in s] for s in case]
    da, db = vd(a), vd(b)
    check_eq(da.hexdigest, ref.vhash(a), "hash of the first")
    check_eq(db.hexdigest, ref.vhash(b), "hash of the second")
    check_eq(da.hexdigest, ref.vhash(a), "hash of the first again")
    check_eq(da == db, set(a) == set(b), "equality")
    return (da.hexdigest, db.hexdigest)


def gen_pairs():
    ss = list(subsets(UNI[:7], 0, 2))
    for a in ss:
        for b in ss:
            yield [list(a), list(b)]
    for a, b in COLL:
        yield [list(a), list(b)]
        yield [list(b), list(a)[::-1]]


def run_cli(case):
    props = [tuple(t) for t in case["props"]]
    args = []
    for group in case["groups"]:
        args.append(case["flag"])
        args += [case["sep"].join(props[i]) for i in group]
    status, out = cli("get-variant-hash", *args)
    check_eq(status, 0, "exit status")
    check_eq(out, ref.vhash(props) + "\n", "get-variant-hash output")
    return out


def gen_cli():
    for s in subsets(UNI[:8], 0, 3):
        idx = list(range(len(s)))
        for perm in itertools.permutations(idx):
            for split in ([[i] for i in perm], [list(perm)] if perm else []):
                for flag in ("-p", "--property"):
                    yield {"props": [list(t) for t in s], "groups": split, "flag": flag, "sep": " :: " if flag == "-p" else "::"}


SCRIPT = f"""
import sys, json
sys.path.insert(0, {str(REPO)!r})
from variantlib.models.variant import VariantDescription as D, VariantProperty as P
from variantlib.api import get_variant_label
out = []
for s in json.load(sys.stdin):
    d = D([P(*t) for t in s])
    out.append([d.hexdigest, [[p.namespace, p.feature, p.value] for p in d.properties], get_variant_label(d)])
json.dump(out, sys.stdout)
"""


def run_seed(case):
    sets = [list(p) for s in subsets(UNI, 0, 2) for p in itertools.permutations(s)] + [[list(t) for t in UNI], [list(t) for t in UNI[::-1]]]
    e = dict(os.environ, PYTHONHASHSEED=str(case), PYTHONPATH="")
    r = subprocess.run([core.REAL_PYTHON, "-c", SCRIPT], input=json.dumps(sets).encode(), capture_output=True, env=e)
    check(r.returncode == 0, f"failed: {r.stderr.decode()[-500:]}")
    for s, (h, order, lab) in zip(sets, json.loads(r.stdout), strict=True):
        check_eq(h, ref.vhash(s), f"hash of {s} under hash seed {case}")
        check_eq(order, [list(t) for t in sorted(map(tuple, s))], "order")
        check_eq(lab, ref.label(s), "label")
    return Outcome(case, evaluations=len(sets))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("sets", gen_sets(3 if q else 4), run_sets),
        Space("sweep", gen_sweep(tier), run_sets),
        Space("pairs", gen_pairs, run_pairs),
        Space("cli", gen_cli, run_cli, setup=install_entry_points),
        Space("hash-seeds", lambda: iter(range(8 if q else 64)), run_seed),
    ]
