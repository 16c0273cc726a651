from __future__ import annotations

import itertools
import json

from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty


def vp(t):
    return VariantProperty(*t)


def vd(props):
    return VariantDescription([VariantProperty(*t) for t in props])


def tup(vprop):
    return (vprop.namespace, vprop.feature, vprop.value)


def tups(vdesc):
    return [tup(p) for p in vdesc.properties]


def subsets(seq, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.combinations(seq, n)


def text(t):
    return " :: ".join(t)


def raises(exc, fn, *a, **k):
    """True if fn raises exc (a class or tuple), False if it returns; other exceptions propagate"""
    try:
        fn(*a, **k)
    except exc:
        return True
    return False


def snap(obj):
    """deep, comparable snapshot of models/containers, for non-modification checks"""
    import dataclasses
    if dataclasses.is_dataclass(obj) and not isinstance(obj, type):
        return (type(obj).__name__, tuple((k, snap(getattr(obj, k))) for k in sorted(f.name for f in dataclasses.fields(obj))))
    if isinstance(obj, dict):
        return ("dict", tuple((snap(k), snap(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(x) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, map(snap, obj)))))
    return obj


def cli(*args):
    """run the command line entry point in-process -> (exit status, stdout text); other exceptions propagate"""
    import contextlib
    import io
    import logging
    from variantlib.commands.main import main
    out = io.StringIO()
    lg = logging.getLogger("variantlib")
    before = list(lg.handlers)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main(list(args))
        return 0, out.getvalue()
    except SystemExit as e:
        return (e.code if isinstance(e.code, int) else 1) or 0, out.getvalue()
    finally:
        lg.handlers[:] = before


def install_entry_points(e):
    """make variantlib's own commands discoverable in the scratch environment"""
    import shutil
    from pathlib import Path
    for p in Path("/opt/venv/lib").glob("python*/site-packages/variantlib-*.dist-info"):
        shutil.copytree(p, e.root / "sp" / p.name)


# names that any sloppy comparison, gluing, splitting, prefix or keyword handling confuses
NAMES = ["a", "aa", "a_a", "a_", "_", "1", "10"]
KEYWORDS = ["null", "variants", "namespace", "feature", "property", "providers", "requires", "abi_dependency", "true", "__class__", "static"]
VALUES = [*NAMES, "a.a", ".", "1.0", "1.00", "a.1"]


def pairs(names):
    return itertools.permutations(names, 2)


def jd(x):
    return json.dumps(x, sort_keys=True)


# pairs with equal 8-digit hashes (found offline by birthday search, see tools/find_collisions.py)
COLL = [((("n", "f", "28852"),), (("n", "f", "90907"),)), ((("n", "f", "16268"),), (("n", "f", "125929"),)),
        ((("n", "f", "s"), ("n", "g", "85312")), (("n", "f", "s"), ("n", "g", "113282"))),
        ((("n", "f", "s"), ("n", "g", "47088")), (("n", "f", "s"), ("n", "g", "132512"))),
        ((("n", "f", "89502"),), (("m", "g", "6477"),)), ((("n", "f", "88715"),), (("m", "g", "38435"),))]

# pairs that coincide when their properties are written one after the other without a separator
ADJ = [((("n", "f", "1"), ("xn", "f", "1")), (("n", "f", "1x"), ("n", "f", "1"))), ((("m", "f", "a"), ("xn", "g", "1")), (("m", "f", "ax"), ("n", "g", "1"))),
       ((("m", "f", "1"), ("1n", "g", "1")), (("m", "f", "11"), ("n", "g", "1"))), ((("n", "f", "ab"), ("n", "g", "c")), (("n", "f", "a"), ("n", "g", "bc"))),
       ((("n", "a", "b"), ("n", "b", "a")), (("n", "a", "a"), ("n", "b", "b"))), ((("n", "ab", "c"),), (("n", "a", "bc"),)), ((("n", "a_b", "c"),), (("n_a", "b", "c"),))]
