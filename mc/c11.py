"""C11: ABI dependency properties reflect the installed packages and the override."""
from __future__ import annotations

import importlib
import itertools
import os
import sys

from mc.core import HarnessError, Outcome, Space, check, check_eq, env
from mc.util import snap, tup, vd, vp
from variantlib.api import check_variant_supported, get_variants_by_priority
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.resolver.lib import inject_abi_dependency, sort_and_filter_supported_variants
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every version form, name spelling, sequence of override entries and pair of search path entries from fixed alphabets, installed for real in "
        "a scratch search path; the supported abi_dependency properties are compared with the ones computed from tables. An outcome is that set.")
ASSUMPTIONS = ["version strings and package names come from fixed lists with known results (up to 33 packages at once)"]

# version -> (major, minor, micro), None: not a version
VERSIONS = {
    "0": (0, 0, 0), "1": (1, 0, 0), "1.2": (1, 2, 0), "1.2.3": (1, 2, 3), "1.2.3.4": (1, 2, 3), "0.0.7": (0, 0, 7), "10.20.30": (10, 20, 30),
    "01.02.03": (1, 2, 3), "2024.10.1": (2024, 10, 1), "v4.5": (4, 5, 0), "1!2.3.4": (2, 3, 4), "1.2.3rc1": (1, 2, 3), "1.2a1": (1, 2, 0),
    "2.1.dev3": (2, 1, 0), "1.2.post4": (1, 2, 0), "1.2.3+cu12.9": (1, 2, 3), "1.2-1": (1, 2, 0), "1.0.0.0.5": (1, 0, 0), "3.0.0-beta.2": (3, 0, 0),
    "1.2.c3": (1, 2, 0), "": None, "abc": None, "1.x": None, "1..2": None, "=1.0": None, "torch==1.2": None, "1.2==": None, "1.2=": None, "=1.2": None, "1.2;": None, "1.2 #": None, "1.2 torch==0": None, "1.0==2": None, "1 2": None, "1.2.*": None, "-1": None,
}
# spelling -> feature name, None: cannot be expressed
NAMES = {
    "=torch": None,
    "torch": "torch", "Torch": "torch", "a.b": "a_b", "a-b": "a_b", "a_b": "a_b", "A--._b": "a_b", "x1": "x1", "1x": "1x", "zope.interface": "zope_interface",
    "a b": None, "a@b": None, "a/b": None, "\u00e4b": None, "a+b": None, "a:b": None, "": None, "a\u0661": None,
}
NS = "abi_dependency"


def triples(feature, version):
    a, b, c = VERSIONS[version]
    return {(NS, feature, f"{a}"), (NS, feature, f"{a}.{b}"), (NS, feature, f"{a}.{b}.{c}")}


def install(path, dists, form="dist-info"):
    for i, (name, version) in enumerate(dists):
        d = path / (f"p{i}-{form}.{form}" if form == "egg-info" else f"p{i}-1.dist-info")
        d.mkdir(parents=True)
        lines = ["Metadata-Version: 2.1"]
        if name is not None:
            lines.append(f"Name: {name}")
        if version is not None:
            lines.append(f"Version: {version}")
        (d / ("PKG-INFO" if form == "egg-info" else "METADATA")).write_text("\n".join(lines) + "\n\n", encoding="utf8")


class installed:
    """context: exactly these distributions and this override"""

    def __init__(self, *paths, override=None, form="dist-info"):
        self.paths, self.override, self.form = paths, override, form

    def __enter__(self):
        self.saved = list(sys.path)
        dirs = []
        for dists in self.paths:
            d = env().fresh("s")
            install(d, dists, self.form)
            dirs.append(str(d))
        # the scratch site directory holds nothing
        sys.path[:] = dirs + self.saved[1:]
        importlib.invalidate_caches()
        if self.override is not None:
            os.environ["VARIANT_ABI_DEPENDENCY"] = self.override
        return self

    def __exit__(self, *a):
        sys.path[:] = self.saved
        importlib.invalidate_caches()
        os.environ.pop("VARIANT_ABI_DEPENDENCY", None)


def parse_entry(entry):
    """-> (feature, version) or None; entries use names and versions of the tables"""
    e = entry.strip()
    if "==" not in e:
        return None
    name, ver = e[:e.index("==")].strip(), e[e.index("==") + 2:].strip()
    if name not in NAMES or ver not in VERSIONS:
        raise HarnessError(f"entry {entry!r} is not in the tables")
    if NAMES.get(name) is None or VERSIONS.get(ver) is None:
        return None
    return NAMES[name], ver


def reference(paths, override):
    pk = {}
    for dists in paths:
        for name, ver in dists:
            if name is None or ver is None or NAMES[name] is None or VERSIONS[ver] is None:
                continue
            pk.setdefault(NAMES[name], ver)
    for entry in (override or "").split(","):
        r = parse_entry(entry)
        if r:
            pk[r[0]] = r[1]
    want = set()
    for f, v in pk.items():
        want |= triples(f, v)
    return want


CAND = sorted({t for f in {"torch", "a_b", "x1", "1x", "zope_interface", "a", "b", "a_b_", "ab", "a.b".replace(".", "")} for v in VERSIONS if VERSIONS[v] for t in triples(f, v)}
              | {(NS, "torch", "1.2.3.4"), (NS, "torch", "1.2.3rc1"), (NS, "torch", "01"), (NS, "torch", "01.02"), (NS, "torch", "2.3.4.0"), (NS, "torch", "1.2.3.0")})


def observe(want, base=()):
    """the abi properties that resolution supports, by every route"""
    base = [vp(t) for t in base]
    nsp = list(dict.fromkeys(p.namespace for p in base))
    before = (snap(base), list(nsp))
    vdescs = [vd([t]) for t in CAND]
    got = sort_and_filter_supported_variants(vdescs, base, namespace_priorities=nsp)
    check_eq({tup(v.properties[0]) for v in got if v.properties}, want & set(CAND), "supported properties")
    check_eq((snap(base), nsp), before, "the lists passed in")
    check(got and not got[-1].properties, "the null variant comes last")
    sup, prio = list(base), list(nsp)
    inject_abi_dependency(sup, prio)
    check_eq(sorted({tup(p) for p in sup} - {tup(p) for p in base}), sorted(want), "injected properties")
    check_eq([p for p in sup if p.namespace != NS], [p for p in base if p.namespace != NS], "other properties")
    check_eq((prio[:-1], prio[-1]), (nsp, NS), "namespace priorities")
    check_eq(len(sup) - len(base), len(want), "number of injected properties")


def run_case(case):
    paths, override, form = case
    paths = [[tuple(d) for d in p] for p in paths]
    want = reference(paths, override)
    with installed(*paths, override=override, form=form):
        observe(want)
        observe(want, base=[("n", "f", "x"), ("a", "f", "y")])
    return Outcome((tuple(sorted(want)),), trivial=not want, evaluations=2)


def gen_single(tier):
    def gen():
        for v in VERSIONS:
            for name in ("torch", "a.b"):
                for form in ("dist-info", "egg-info"):
                    yield [[[(name, v)]], None, form]
                yield [[[]], f"{name}=={v}", "dist-info"]
                yield [[[(name, "2024.10.1")]], f"{name}=={v}", "dist-info"]
        for n in NAMES:
            for v in ("1.2.3", "1", "abc"):
                yield [[[(n, v)]], None, "dist-info"]
                yield [[[]], f"{n}=={v}", "dist-info"]
                yield [[[("torch", "1.2")]], f" {n} ==  {v} ", "dist-info"]
        # what is broken never hides what is not
        for d in ((None, "1.2"), ("torch", None), (None, None), ("a b", "1.2"), ("torch", "abc")):
            for form in ("dist-info", "egg-info"):
                yield [[[d, ("x1", "1.2")]], None, form]
                yield [[[("x1", "1.2"), d]], "a-b==0.0.7", form]
        for n in NAMES:
            for m in NAMES:
                if NAMES[n] is None or NAMES[m] is None or NAMES[n] == NAMES[m]:
                    yield [[[(n, "1.2.3")]], f"{m}==0.0.7", "dist-info"]
        if tier != "quick":
            for v, w in itertools.product(VERSIONS, repeat=2):
                yield [[[("torch", v)]], f"Torch=={w}", "dist-info"]
                yield [[[("torch", v)], [("torch", w)]], None, "dist-info"]
                yield [[[]], f"torch=={v},torch=={w}", "dist-info"]
    return gen


ENTRIES = ["torch==1.2", "Torch==2.1.dev3", " torch == 10.20.30 ", "a.b==1", "a-b==1.2.3rc1", "torch", "torch==", "==1.2", "", "torch==abc", "a b==1",
           "torch=1.2", "torch>=1.2", "torch==1.2.*", "x1==v4.5", "torch ==0",
           "==torch==1.2", "=torch==1.2", "torch==1.2==", "torch==1.2=", "torch===1.2", "torch==1.2;", "torch==1.2 #", "torch==1.2 torch==0"]


def gen_env(tier):
    def gen():
        for n in range(1, 4):
            for es in itertools.product(ENTRIES[: 10 if n == 3 and tier == "quick" else 99], repeat=n):
                insts = ([], [("torch", "0.0.7"), ("A--._b", "3.0.0-beta.2")]) if n < 3 or tier != "quick" else ([("torch", "0.0.7")],)
                for inst in insts:
                    yield [[inst], ",".join(es), "dist-info"]
        big = ",".join(f"torch=={v}" for v in VERSIONS if VERSIONS[v])
        yield [[[]], big, "dist-info"]
        yield [[[]], ",".join(reversed(big.split(","))), "dist-info"]
    return gen


DISTS = [("torch", "1.2"), ("Torch", "0.0.7"), ("a.b", "1"), ("a_b", "v4.5"), ("torch", "abc"), ("a b", "1"), ("x1", "1.2.3")]


def gen_twice(tier):
    def gen():
        sets = [[]] + [[d] for d in DISTS] + [list(p) for p in itertools.combinations(DISTS, 2) if NAMES[p[0][0]] != NAMES[p[1][0]]]
        for a, b in itertools.product(sets, repeat=2):
            yield [[a, b], None, "dist-info"]
            yield [[a, b], "torch==2024.10.1", "dist-info"]
        for a, b, c in itertools.product(sets[:8], repeat=3):
            if tier != "quick" or a and b and c:
                yield [[a, b, c], None if len(a) else "A-b==0", "dist-info"]
    return gen


# ----------------------------------------------------------------------------------------------------- ranking
def run_rank(case):
    """end to end: abi properties are supported and rank below those of every provider"""
    order, inst, override, nsp = case
    inst = [tuple(d) for d in inst]
    want = reference([inst], override)
    nss = ["m", "b0"][:nsp]
    info = VariantInfo(namespace_priorities=list(nss), providers={ns: ProviderInfo(install_time=False) for ns in nss})
    info.static_properties = {ns: {"f": ["x"]} for ns in nss}
    j = VariantsJson(info)
    variants = {"m": [("m", "f", "x")], "b": [("b0", "f", "x")], "t": [(NS, "torch", "1.2")], "u": [(NS, "x1", "1")], "mt": [("m", "f", "x"), (NS, "torch", "1.2")],
                "bt": [("b0", "f", "x"), (NS, "torch", "1.2")], "bad": [("m", "f", "x"), (NS, "torch", "7")], "z": [(NS, "zzz", "1")], "tw": [(NS, "torch", "7"), (NS, "torch", "1.2")]}
    j.variants = {k: vd(variants[k]) for k in order}
    before = snap(j)

    def key(k):
        v = variants[k]
        has = lambda *t: tuple(t) in v  # noqa: E731
        r = [0 if has(ns, "f", "x") else 1 for ns in nss]
        return (r, [0 if has(NS, "torch", "1.2") else 1])

    def ok(k):
        v = variants[k]
        for n, f in {(n, f) for n, f, _ in v}:
            if n in nss and any((n, f, x) == (n, "f", "x") for n2, f2, x in v if (n2, f2) == (n, f)):
                continue
            if n == NS and any((n2, f2) == (n, f) and (n, f, x) in want for n2, f2, x in v):
                continue
            return False
        return True
    with installed(inst, override=override):
        got = get_variants_by_priority(variants_json=j)
        check_eq(set(got), {k for k in order if ok(k)} | {"null"}, "labels")
        for k in order:
            check_eq(check_variant_supported(vdesc=j.variants[k], variant_info=j), ok(k), f"support of {k}")
        # among variants whose only difference is in the abi namespace the order is not stated
        ranks = [key(k)[0] for k in got[:-1]]
        check_eq(ranks, sorted(ranks), f"order of namespaces in {got}")
        withabi = [k for k in ("mt", "bt") if k in got]
        for k in withabi:
            check(k[0] not in got or got.index(k) < got.index(k[0]), f"{k} is not preferred to {k[0]} in {got}")
        check_eq(got[-1], "null", "last")
        check_eq(get_variants_by_priority(variants_json=j), got, "second answer")
    check_eq(snap(j), before, "the index passed in")
    return Outcome(tuple(got), evaluations=3)


def gen_rank(tier):
    def gen():
        labels = ["m", "b", "t", "u", "mt", "bt", "bad", "z", "tw"]
        for n in range(1, 4 if tier == "quick" else 5):
            for order in itertools.permutations(labels, n):
                for inst, ov in (([("torch", "1.2.3")], None), ([], "torch==1.2.3,x1==1"), ([("torch", "0")], None), ([("torch", "1.2"), ("x1", "1")], "torch==0")):
                    for nsp in (0, 2) if n < 3 else (2,):
                        yield [order, inst, ov, nsp]
    return gen


def run_many(case):
    """many packages at once"""
    n, where = case
    names = [f"p{i}" for i in range(n)]
    want = {(NS, p, v) for i, p in enumerate(names) for v in (f"{i}", f"{i}.1", f"{i}.1.0")}
    dists = [(p, f"{i}.1") for i, p in enumerate(names)]
    k = n if where == "path" else 0 if where == "env" else n // 2
    ov = ",".join(f"{p}=={v}" for p, v in dists[k:]) if k < n else None
    with installed(dists[:k][: n // 2], dists[:k][n // 2:], override=ov):
        sup, prio = [], []
        inject_abi_dependency(sup, prio)
        check_eq({tup(p) for p in sup}, want, "injected")
        got = sort_and_filter_supported_variants([vd([t]) for t in sorted(want)] + [vd([(NS, p, "x") for p in names])], [], [])
        check_eq(len(got), len(want) + 1, "supported")
    return (n, where)


def gen_many():
    for n in list(range(1, 13)) + [33]:
        for w in ("path", "env", "both"):
            yield [n, w]


def spaces(tier):
    return [
        Space("single", gen_single(tier), run_case),
        Space("override", gen_env(tier), run_case),
        Space("search-path", gen_twice(tier), run_case),
        Space("rank", gen_rank(tier), run_rank),
        Space("many", gen_many, run_many),
    ]
