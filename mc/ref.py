"""Reference models: small, boring, written from the property texts, sharing no code with variantlib."""
from __future__ import annotations

import hashlib
import itertools

NAME_CHARS = frozenset("abcdefghijklmnopqrstuvwxyz0123456789_")
VALUE_CHARS = NAME_CHARS | {"."}
LABEL_CHARS = VALUE_CHARS


def ok_name(s):
    return isinstance(s, str) and len(s) > 0 and all(c in NAME_CHARS for c in s)


def ok_value(s):
    return isinstance(s, str) and len(s) > 0 and all(c in VALUE_CHARS for c in s)


def ok_label(s):
    return isinstance(s, str) and 1 <= len(s) <= 16 and all(c in LABEL_CHARS for c in s)


def vhash(props):
    """props: iterable of (ns, feature, value)"""
    text = "".join(f"{n} :: {f} :: {v}\n" for n, f, v in sorted(set(map(tuple, props))))
    return hashlib.sha256(text.encode()).hexdigest()[:8]


def label(props):
    return vhash(props) if props else "null"


def packed(props):
    """the dictionary form, in sorted order"""
    d = {}
    for n, f, v in sorted(set(map(tuple, props))):
        d.setdefault(n, {}).setdefault(f, []).append(v)
    return d


def unpacked(d):
    return [(n, f, v) for n, fs in d.items() for f, vs in fs.items() for v in vs]


def compatible(props, supported, forbidden_ns=(), forbidden_feat=(), forbidden_prop=()):
    """props/supported: collections of triples"""
    if any(n in forbidden_ns for n, f, v in props):
        return False
    if any((n, f) in forbidden_feat for n, f, v in props):
        return False
    usable = set(supported) - set(forbidden_prop)
    for nf in {(n, f) for n, f, v in props}:
        if not any((n, f, v) in usable for n, f, v in props if (n, f) == nf):
            return False
    return True


def dedupe(seq):
    out, seen = [], set()
    for x in seq:
        k = frozenset(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def prio_sorted(items, prio):
    """listed items first in listed order, the others after in given order"""
    prio = list(dict.fromkeys(prio or []))
    listed = [p for p in prio if p in items]
    return listed + [i for i in items if i not in listed]


def feature_order(supported, ns_prio, feat_prio, prop_prio):
    """supported: ordered list of triples (a provider's features contiguous) ->
    ordered list of ((ns, feature), [values best first])"""
    by = {}
    for n, f, v in supported:
        vals = by.setdefault(n, {}).setdefault(f, [])
        if v not in vals:
            vals.append(v)
    out = []
    for n in prio_sorted(list(by), ns_prio):
        for f in prio_sorted(list(by[n]), (feat_prio or {}).get(n, [])):
            out.append(((n, f), prio_sorted(by[n][f], (prop_prio or {}).get(n, {}).get(f, []))))
    return out


INF = float("inf")


def rank(props, order):
    r = []
    for nf, values in order:
        mine = [values.index(v) for n, f, v in props if (n, f) == nf and v in values]
        r.append(min(mine) if mine else INF)
    return tuple(r)


def merge_lists(*lists):
    return list(dict.fromkeys(itertools.chain.from_iterable(lists)))


def merge_feat(*dicts):
    out = {}
    for d in dicts:
        for k, v in d.items():
            out[k] = merge_lists(out.get(k, []), v)
    return out


def merge_prop(*dicts):
    out = {}
    for d in dicts:
        for k, sub in d.items():
            out[k] = merge_feat(out.get(k, {}), sub)
    return out


def resolve(variants, supported, ns_prio, feat_prio, prop_prio, **forbidden):
    """variants: list of property lists -> kept variants best first (the null variant is implied)"""
    vs = dedupe(variants)
    if not any(len(v) == 0 for v in vs):
        vs = vs + [()]
    order = feature_order(supported, ns_prio, feat_prio, prop_prio)
    kept = [v for v in vs if compatible(v, supported, **forbidden)]
    return sorted(kept, key=lambda v: rank(v, order))
