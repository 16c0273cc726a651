"""C24: inspection commands report exactly what is there."""
from __future__ import annotations

import ast
import itertools
import json
import os
import re
import shutil
import sys

from mc import ref, wheels
from mc.core import Outcome, Space, check, check_eq, env, in_child
from mc.util import KEYWORDS, NAMES, VALUES, cli, install_entry_points, pairs, snap, subsets, text, vd
from mc.wheels import member
from mc.zygote import Zygote, api
from variantlib.api import get_variant_environment_dict

LEVEL = "exploration"
RULE = ("every set of up to three properties over names that contain, prefix and extend each other (with every label and order) through the marker environment, "
        "get-variant-hash and analyze-wheel; every choice and order of up to three providers with every small report through the plugin list, the configuration "
        "dump under every filter, and analyze-platform; the outputs are parsed and compared with the source data, and all files with what they were. An outcome "
        "is one output.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters", "the order of providers of different packages is not judged",
               "layout, headers and log lines of the reports are not judged"]

UNI = [("a", "a", "a"), ("a", "a", "aa"), ("a", "aa", "a"), ("aa", "a", "a"), ("b", "a", "a"), ("a", "b", "1.0"), ("a_", "a", "1"), ("_", "_", "."), ("abi_dependency", "a", "a"), ("1", "0", "1.00")]
DI = "pkg-1.0.dist-info"


def setup(e):
    z = Zygote(e)
    sys.executable = str(z.venv("v")[0])
    install_entry_points(e)


def cmd(*args):
    try:
        return cli(*args)
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__, ""


def files(*skip):
    """everything in the scratch area that a command could touch"""
    out = {}
    for top in ("cwd", "home", "xdg", "site_xdg", "prefix", "sp", "tmp", *(p for p in os.listdir(env().root) if p.startswith("d"))):
        for d, dirs, names in os.walk(env().root / top):
            for n in names + dirs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_size, st.st_mtime_ns if not os.path.isdir(p) or not str(p).startswith(str(env().root / "tmp")) else 0, st.st_ino)
    return out


# ---------------------------------------------------------------------------------------------- environment
def run_env(case):
    props, label = case
    props = [tuple(p) for p in props]
    d = vd(props)
    before = snap(d)
    got = get_variant_environment_dict(d) if label is False else get_variant_environment_dict(d, label)
    want = {"variant_namespaces": {n for n, _, _ in props}, "variant_features": {f"{n} :: {f}" for n, f, _ in props}, "variant_properties": {text(p) for p in props}}
    if label not in (False, None):
        want["variant_label"] = label
    check_eq(got, want, "environment")
    check(all(type(got[k]) is set for k in list(want)[:3]), "environment: not sets")
    for k in list(got)[:3]:
        got[k].add("other")
    check_eq(get_variant_environment_dict(d, label or None), want, "environment, after changing the first one")
    check_eq(snap(d), before, "the variant was modified")
    return (props, label)


def gen_env(tier):
    def gen():
        for props in subsets(UNI, 0, 3 if tier == "quick" else 4):
            for label in (False, None, "lab", ref.label(props)) if len(props) < 3 else (None, "lab"):
                yield [list(props), label]
        for a, b in pairs(list(dict.fromkeys(NAMES + KEYWORDS))):
            yield [[(a, b, a), (b, a, b)], "x"]
            yield [[(a, b, "1"), (a, b, "2"), (a, "c", "1")], None]
        for props in sized(tier):
            yield [props, None]
    return gen


def sized(tier):
    """longer and longer lists that differ in one part, or in all"""
    for n in (*range(4, 34), 65, 129, 257) if tier == "quick" else (*range(4, 140), 255, 256, 257, 513, 1025):
        for parts in (("n", "f", "v{}"), ("n", "f{}", "v"), ("n{}", "f", "v"), ("n{0}", "f{0}", "v{0}"))[n % 4 if 8 < n < 60 else 0:][:1 if 8 < n < 60 else 4]:
            yield [tuple(p.format(i) for p in parts) for i in range(n)]


# ------------------------------------------------------------------------------------------------------ hash
def run_hash(case):
    props, style = case
    props = [tuple(p) for p in props]
    before = files()
    n = 0
    for order in itertools.permutations(props) if len(props) < 4 else (props, props[::-1], props[1:] + props[:1], props[1::2] + props[::2]):
        if style == "one option":
            args = ["-p", *map(text, order)] if order else []
        elif style == "many":
            args = [x for p in order for x in ("--property", text(p))]
        elif style == "tight":
            args = ["-p", *("::".join(p) for p in order)] if order else []
        else:
            args = [x for p in order for x in ("-p", f"  {p[0]}  ::{p[1]}:: {p[2]}  ")]
        status, out = cmd("get-variant-hash", *args)
        check_eq((status, out.split()), (0, [ref.vhash(props)]), f"hash of {order} ({style})")
        n += 1
    check_eq(files(), before, "files")
    return Outcome((props, style), evaluations=n)


def gen_hash(tier):
    def gen():
        for props in subsets(UNI, 0, 3):
            for style in ("one option", "many", "tight", "blanks") if len(props) < 3 or tier != "quick" else ("many",):
                yield [props, style]
        for a, b in pairs(VALUES):
            yield [[("n", "f", a), ("n", "f", b)], "one option"]
        if tier != "quick":
            for props in subsets(UNI[:7], 4, 4):
                yield [props, "one option"]
        for i, props in enumerate(sized(tier)):
            yield [props, ("one option", "many", "tight", "blanks")[i % 4]]
    return gen


def run_hash_refused(case):
    before = files()
    status, out = cmd("get-variant-hash", *case)
    check(status != 0 and not re.search(r"\b[0-9a-f]{8}\b", out), lambda: f"not refused: {status} {out!r}")
    check_eq(files(), before, "files")
    return case


def gen_hash_refused():
    bad = ["a", "a :: b", "a :: b :: c :: d", "A :: b :: c", "a :: b :: C", "a.b :: c :: d", "a :: b.c :: d", " :: b :: c", "a ::  :: c", "a :: b :: ", "a : b : c", "", "a-b :: c :: d", "a :: b :: c\u00e9", "a :: b :: c d", "a = b = c"]
    for b in bad:
        yield ["-p", b]
        yield ["-p", "a :: b :: c", b]
        yield ["-p", "a :: b :: c", "-p", b]
    yield ["-p", "a :: b :: c", "a :: b :: c"]
    yield ["-p", "a :: b :: c", "-p", "a::b::c"]
    yield ["-p", "a :: b :: c", "-p", "a :: b :: d", "-p", "a :: b :: c"]
    yield ["-p"]
    yield ["a :: b :: c"]


# ----------------------------------------------------------------------------------------------------- wheel
PROP = re.compile(r"^\s*(\w+) *:: *(\w+) *:: *([\w.]+)\s*$", re.M)


def run_wheel(case):
    label, variants, how, common = case
    d = env().fresh()
    name = f"pkg-1.0-py3-none-any{'' if label is None else '-' + label}.whl"
    doc = {"default-priorities": {"namespace": ["a"]} if common else {}, "providers": {"a": {"requires": ["x"], "plugin-api": "x:Y"}} if common else {}, "variants": {k: ref.packed([tuple(p) for p in v]) for k, v in variants}}
    data = json.dumps(doc) if how != "broken" else "{"
    members = [member("pkg/__init__.py", ""), member("pkg/variant.json", '{"decoy": 1}')]
    meta = {"none": [], "elsewhere": [member(f"{DI}/sub/variant.json", data)], "other name": [member(f"{DI}/variants.json", data)], "not dist-info": [member("pkg.data/variant.json", data)],
            "prefix": [member(f"x{DI}/xvariant.json", data), member(f"{DI}/variant.json", data)]}.get(how, [member(f"{DI}/variant.json", data)])
    members += [*meta, member(f"{DI}/METADATA", "Metadata-Version: 2.1\n"), member(f"{DI}/RECORD", "")]
    if how == "first":
        members = meta + members[:2] + members[3:]
    wheels.build(d / name, members)
    before = files()
    os.chdir(d if how == "relative" else env().root / "cwd")
    status, out = cmd("analyze-wheel", "-i", name if how == "relative" else str(d / name))
    os.chdir(env().root / "cwd")
    listed = [m.groups() for m in PROP.finditer(out)]
    if label is None:
        check_eq((status, listed), (0, []), "plain wheel")
    elif [k for k, _ in variants] != [label] or how in ("none", "elsewhere", "other name", "not dist-info", "broken"):
        check(status != 0, lambda: f"not refused: {out!r}")
        check_eq(listed, [], "refused, but listed")
    else:
        want = sorted(tuple(p) for p in variants[0][1])
        check(status == 0, lambda: f"refused: {status}")
        check_eq(listed, want, "listed properties")
    check_eq(files(), before, "files")
    shutil.rmtree(d)
    return (case, status)


def gen_wheel(tier):
    def gen():
        for props in subsets(UNI, 0, 3):
            own = ref.label(props)
            for label in (own, "lab", "1") if len(props) < 3 and props else (own,):
                yield [label, [(label, props)], "plain", len(props) != 2]
        one, two = ref.label(UNI[:1]), ref.label(UNI[:2])
        for how in ("plain", "none", "elsewhere", "other name", "not dist-info", "broken", "prefix", "first", "relative"):
            yield [one, [(one, UNI[:1])], how, True]
            yield [None, [(one, UNI[:1])], how, True]
            yield ["null", [("null", [])], how, False]
        yield [one, [(two, UNI[:2])], "plain", True]
        yield ["lab", [(one, UNI[:1])], "plain", True]
        yield [one, [("lab", UNI[:1])], "plain", True]
        yield [one, [(one, UNI[:1]), (two, UNI[:2])], "plain", True]
        yield [one, [], "plain", True]
        yield [None, [], "none", True]
        for a, b in pairs(NAMES):
            props = [(a, b, a), (a, b, b), (b, a, a)]
            yield [ref.label(props), [(ref.label(props), props)], "plain", False]
        for i, props in enumerate(sized(tier)):
            lab = ref.label(props) if i % 2 else "lab"
            yield [lab, [(lab, props)], "plain", False]
    return gen


def run_wheel_refused(case):
    d = env().fresh()
    kind, name = case
    if kind == "text":
        (d / name).write_text("not an archive")
    elif kind == "dir":
        (d / name).mkdir()
    elif kind == "wheel":
        wheels.build(d / name, [member(f"{DI}/variant.json", json.dumps({"default-priorities": {}, "providers": {}, "variants": {"lab": {"a": {"a": ["a"]}}}}))])
    before = files()
    status, out = cmd("analyze-wheel", "-i", str(d / name))
    check(status != 0, lambda: f"not refused: {out!r}")
    check_eq(files(), before, "files")
    shutil.rmtree(d)
    return (case, str(status))


def gen_wheel_refused():
    good = "pkg-1.0-py3-none-any-lab.whl"
    yield from (("missing", good), ("text", good), ("dir", good))
    for name in ("pkg-1.0-py3-none-any-lab.zip", "pkg-1.0-py3-none-any-lab", "pkg-1.0-py3-none-any-lab.whl.bak", "pkg-1.0-none-any.whl", "pkg.whl", "pkg-1.0-py3-none-any-la%b.whl", "pkg-1.0-py3-none-any-LAB.whl", "pkg-1.0-py3-none-any-toolonglabelforthis.whl",
                 "pkg-1.0-1-py3-none-any-lab-x.whl", "pkg-1.0-py3-none-any-.whl"):
        yield ("wheel", name)


# --------------------------------------------------------------------------------------------------- plugins
def feature_sets(values=(("x",), ("y", "x"))):
    one = [("f", v, m) for v in values for m in (False, True)]
    yield from ([x] for x in one)
    for a in (("f", ("y", "x"), False), ("g", ("x",), True)):
        yield [a, ("ff", ("x", "xx"), False)]
        yield [("ff", ("xx", "x"), False), a]
    yield [("g", ("1.0", "1"), False), ("f", ("x",), False), ("f_", ("a",), True)]


class Installed:
    """packages with entry points: [(package, [(entry point name, namespace, all, supported)])]"""

    def __init__(self, packages):
        self.d = env().fresh()
        for name, eps in packages:
            di = self.d / f"{name}-1.0.dist-info"
            di.mkdir()
            (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n")
            (di / "entry_points.txt").write_text("[console_scripts]\nx = y:z\n[variant_plugins]\n" + "".join(
                f"{ep} = " + api({"ns": ns, "all": all_, "sup": sup, "i": 50, **more}) + "\n" for ep, ns, all_, sup, *rest in eps for more in (rest[0] if rest else {},)) + "[other_plugins]\nq = q:q\n")

    def __enter__(self):
        sys.path.insert(0, str(self.d))

    def __exit__(self, *exc):
        sys.path.remove(str(self.d))
        shutil.rmtree(self.d)


def dump(cfgs):
    return {ns: [{"name": f, "values": list(v), "multi_value": m} for f, v, m in feats] for ns, feats in cfgs.items()}


def check_dump(out, reported, ns, feat, what):
    got = json.loads(out)
    want = {n: [c for c in cs if feat in (None, c["name"])] for n, cs in dump(reported).items() if ns in (None, n)}
    check_eq({n: c for n, c in got.items() if c}, {n: c for n, c in want.items() if c}, what)
    check(set(got) <= set(want), lambda: f"{what}: namespaces {list(got)}")
    return got


def platform(out):
    """parse the report -> {namespace: [(feature, [values])]}"""
    res = {}
    for line in out.splitlines():
        if m := re.search(r"`(\w+)`", line):
            check(m[1] not in res, lambda: f"analyze-platform lists {m[1]} twice")
            cur = res[m[1]] = []
        elif m := re.search(r"(\w+) *:: *(\[.*\])\s*$", line):
            cur.append((m[1], ast.literal_eval(m[2])))
    return res


def run_plugins(case):
    packages, filters = case
    nss = [ep[1] for _, eps in packages for ep in eps]
    all_ = {ep[1]: ep[2] for _, eps in packages for ep in eps}
    sup = {ep[1]: ep[3] for _, eps in packages for ep in eps}
    seen = []
    with Installed(packages):
        before = files()
        status, out = cmd("plugins", "list")
        listed = out.split()
        check(status == 0, lambda: f"list: {status}")
        check_eq(sorted(listed), sorted(nss), "list")
        for _, eps in packages:
            own = [ep[1] for ep in eps]
            check_eq([n for n in listed if n in own], own, "list: order within a package")
        for ns, feat in filters:
            args = [x for k, v in (("-n", ns), ("-f", feat)) if v is not None for x in (k, v)]
            for opt, reported in (("--all", all_), ("-s", sup)):
                status, out = cmd("plugins", "get-configs", opt, *args)
                if opt == "--all" and not all(all_.values()):
                    check(status != 0, lambda: f"get-configs --all with an empty report: {out}")
                    continue
                check(status == 0, lambda: f"get-configs {opt} {args}: {status}")
                got = check_dump(out, reported, ns, feat, f"get-configs {opt} {args}")
                seen.append(repr(got))
                if ns is None and feat is None:
                    check_eq([n for n in got if got[n]], [n for n in listed if reported[n]], f"order of get-configs {opt}")
        status, out = cmd("analyze-platform")
        check(status == 0, lambda: f"analyze-platform: {status}")
        check_eq(platform(out), {n: [(f, list(v)) for f, v, _ in fs] for n, fs in sup.items() if fs}, "analyze-platform")
        check_eq(files(), before, "files")
    return Outcome(seen, evaluations=2 + 2 * len(filters))


FILTERS = [(None, None), ("a", None), (None, "f"), ("a", "f"), ("zz", None), (None, "zz"), ("a", "zz"), ("aa", "ff")]


def gen_plugins(tier):
    def gen():
        yield [[], FILTERS]
        sets = list(feature_sets())
        for sup in [[], *sets]:
            yield [[("p", [("x", "a", sets[-1], sup)])], FILTERS]
            yield [[("p", [("x", "a", sup, sup)])], FILTERS[:4]]
        for s1, s2 in itertools.product([[], *sets] if tier != "quick" else [[], sets[0], sets[4], sets[-1]], repeat=2):
            for ns in (("a", "aa"), ("aa", "a"), ("b", "a")):
                yield [[("p", [("x", ns[0], sets[-1], s1), ("y", ns[1], sets[5], s2)])], FILTERS]
                yield [[("p", [("x", ns[0], sets[-1], s1)]), ("q", [("x", ns[1], sets[5], s2)])], FILTERS]
        for order in itertools.permutations(("a", "aa", "a_")):
            for k in range(4):
                eps = [("e" + "zyx"[i], n, sets[-1], [] if k == i else sets[-1 - i]) for i, n in enumerate(order)]
                yield [[("p", eps)], FILTERS]
                yield [[("p", eps[:1]), ("q", eps[1:])], FILTERS]
        for a, b in pairs(list(dict.fromkeys(NAMES + KEYWORDS[:6]))):
            one, two = [(a, ["x", b], False), (b, [a], True)], [(b, ["y"], False)]
            yield [[("p", [("e", a, one, one), ("f", b, two, two)])], [(None, None), (a, None), (None, a), (b, a), (a, b)]]
        for n in (7, 12, 33, 129) if tier == "quick" else (*range(4, 34), 65, 129, 257):
            last = f"f{n - 1}"
            yield [[("p", [("e", "a", [("f", [str(i) for i in range(n)], True)], [("f", [str((i * 5) % n) if n % 5 else str(i) for i in range(n)], False)])])], [(None, None), ("a", "f")]]
            feats = [(f"f{(i * 5) % n if n % 5 else i}", [f"v{i}"], i % 2 == 0) for i in range(n)]
            yield [[("p", [("e", "a", feats, feats[::-1])])], [(None, None), ("a", last), (None, "f1")]]
            if n < 40:
                eps = [(f"e{i}", f"n{i}", [("f", [str(i)], False)], [("f", [str(i)], True)]) for i in range(n)]
                yield [[("p", eps)], [(None, None), (f"n{n - 1}", None), ("n1", "f")]]
                yield [[(f"p{i}", [ep]) for i, ep in enumerate(eps)], [(None, None), ("n1", None)]]
    return gen


def run_plugins_refused(case):
    packages, args = case
    with Installed(packages):
        before = files()
        status, out = cmd(*args)
        check(status != 0, lambda: f"{args}: not refused: {out}")
        check(not any(c in out for c in "{`"), lambda: f"{args}: refused, but printed {out}")
        check_eq(files(), before, "files")
    return (case, str(status))


def gen_plugins_refused():
    feats = [("f", ["x"], False)]
    good = ("p", [("x", "a", feats, feats)])
    for args in (["plugins"], ["plugins", "xx"], ["plugins", "get-configs"], ["plugins", "get-configs", "-a", "-s"], ["plugins", "get-configs", "-a", "x"], ["plugins", "list", "x"], ["analyze-platform", "x"], ["xx"], []):
        yield [[good], args]
    for bad in ([("q", [("y", "a", feats, feats, {"i": 51})])], [("q", [("y", "B", feats, feats)])], [("q", [("y", "b", [("F!", ["x"], False)], [("F!", ["x"], False)])])],
                *([("q", [("y", "b", feats, feats, {"fault": {"at": at, "kind": kind}})])] for at, kind in (("get_supported_configs", "raise"), ("get_supported_configs", "none"), ("load", "raise"), ("load", "exit3"), ("get_supported_configs", "_exit0"), ("load", "missing_sup"))),):
        for args in (["plugins", "get-configs", "-s"], ["plugins", "get-configs", "-s", "-n", "a"], ["analyze-platform"]):
            yield [[good, *bad], args]


def spaces(tier):
    return [
        Space("environment", gen_env(tier), run_env),
        Space("hash", gen_hash(tier), run_hash, setup=setup),
        Space("hash, refused", gen_hash_refused, run_hash_refused, setup=setup),
        Space("wheel", gen_wheel(tier), run_wheel, setup=setup),
        Space("wheel, refused", gen_wheel_refused, run_wheel_refused, setup=setup),
        Space("plugins", gen_plugins(tier), run_plugins, setup=setup),
        Space("plugins, refused", gen_plugins_refused, run_plugins_refused, setup=setup),
    ]
