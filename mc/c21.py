"""C21: the configuration in effect is the first one found, read exactly."""
from __future__ import annotations

import copy
import datetime
import itertools
import json
import os
import re
import shutil
import sys
import tomllib
from pathlib import Path

import tomlkit

from mc.core import Outcome, Space, check, check_eq, env, in_child
from mc.util import KEYWORDS, NAMES, VALUES, cli, install_entry_points
from variantlib.api import get_variants_by_priority
from variantlib.configuration import VariantConfiguration

LEVEL = "exploration"
RULE = ("every combination of {absent, three different contents, empty, invalid, directory, symbolic links} at the four places and of the variables that "
        "determine them; every configuration over small lists, in several TOML notations; every single deviation of the structure and type of a value. "
        "Each is read in a fresh process image through the library, through 'config show' (with and without a place) and through the order of resolved "
        "variants. An outcome is the configuration read.")
ASSUMPTIONS = ["the places are determined once per process (get_configuration_files keeps them)",
               "feature names and values that are not valid may be accepted or refused, but not changed"]

PLACES = ["LOCAL", "VIRTUALENV", "USER", "GLOBAL"]
BAD = object()
NAME = re.compile(r"[a-z0-9_]+")


def setup(e):
    install_entry_points(e)


def where(e):
    return {"LOCAL": e.root / "cwd/variants.toml", "VIRTUALENV": e.root / "prefix/variants.toml", "USER": e.root / "xdg/variantlib/variants.toml", "GLOBAL": e.root / "site_xdg/variantlib/variants.toml"}


def model(data):
    """parsed TOML -> (namespaces, features, properties), or BAD; None in place of what may be refused as well"""
    if not isinstance(data, dict) or set(data) - {"namespace_priorities", "feature_priorities", "property_priorities"}:
        return BAD, False
    ns, fp, pp = data.get("namespace_priorities", []), data.get("feature_priorities", {}), data.get("property_priorities", {})

    def names(x):
        return isinstance(x, list) and all(isinstance(i, str) for i in x)
    if not names(ns) or not all(NAME.fullmatch(n) for n in ns):
        return BAD, False
    for d in (fp, pp):
        if not isinstance(d, dict) or not all(NAME.fullmatch(n) for n in d):
            return BAD, False
    if not all(names(x) for x in fp.values()) or not all(isinstance(d, dict) and all(names(x) for x in d.values()) for d in pp.values()):
        return BAD, False
    doubtful = any(not NAME.fullmatch(f) for x in fp.values() for f in x) or any(not NAME.fullmatch(f) or any(not re.fullmatch(r"[a-z0-9_.]+", v) for v in vs) for d in pp.values() for f, vs in d.items())
    return (ns, fp, pp), doubtful


def plain(c):
    return (c.namespace_priorities, c.feature_priorities, c.property_priorities)


def without_empty(conf):
    ns, fp, pp = conf
    return ns, fp, {n: d for n, d in pp.items() if d}


def cmd(*args):
    try:
        return cli(*args)
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__, ""


def attempt(fn):
    try:
        return fn()
    except Exception:  # noqa: BLE001
        return BAD


def shown(*args):
    status, out = cmd("config", "show", *args)
    if status != 0:
        return BAD
    conf, doubtful = model(tomllib.loads(out))
    check(conf is not BAD, lambda: f"config show printed an invalid configuration: {out}")
    return conf


def judge(want, what, doubtful=False, show=True):
    """want: configuration in effect or BAD"""
    def same(got, exact=True):
        if got is BAD and doubtful:
            return True
        return got == want if exact or want is BAD or got is BAD else without_empty(got) == without_empty(want)
    for fn, name in ((lambda: plain(VariantConfiguration.get_config()), "get_config"), (lambda: plain(VariantConfiguration), "attributes"), (lambda: plain(VariantConfiguration), "attributes, again")):
        got = attempt(fn)
        check(same(got), lambda: f"{what}: configuration in effect ({name}): {'refused' if got is BAD else got}, expected {'a refusal' if want is BAD else want}")
    if show:
        got = shown()
        check(same(got, False), lambda: f"{what}: 'config show': {'refused' if got is BAD else got}, expected {'a refusal' if want is BAD else want}")
        if want is not BAD and got is not BAD:
            check_eq(list(got[1]), list(want[1]), f"{what}: order of the shown namespaces with features")


# -------------------------------------------------------------------------------------------------- placement
ORDER = ["z", "a", "b", "c", "d"]
INDEX = {"$schema": "", "default-priorities": {"namespace": ORDER, "feature": {}, "property": {}}, "providers": {n: {"install-time": False} for n in ORDER},
         "static-properties": {n: {"f": ["x"]} for n in ORDER}, "variants": {f"v{n}": {n: {"f": ["x"]}} for n in ORDER}}


def content(place, kind):
    """-> (text, configuration)"""
    me = "abcd"[PLACES.index(place)]
    if kind == "full":
        return f"namespace_priorities = ['{me}', 'q{me}']\nfeature_priorities.{me} = ['f{me}', 'e']\nproperty_priorities.{me}.f = ['{me}1', 'x']\n", (
            [me, f"q{me}"], {me: [f"f{me}", "e"]}, {me: {"f": [f"{me}1", "x"]}})
    if kind == "features":
        return f"[feature_priorities]\n{me} = ['k{me}']\n", ([], {me: [f"k{me}"]}, {})
    if kind == "empty":
        return "", ([], {}, {})
    return {"syntax": "namespace_priorities = [", "type": "namespace_priorities = 'abc'\n", "key": "namespace_priorities = ['a']\nother = 1\n", "name": "namespace_priorities = ['A b']\n"}[kind], BAD


def place(path, name, kind):
    path.parent.mkdir(parents=True, exist_ok=True)
    if kind == "absent":
        return None
    if kind == "dir":
        path.mkdir()
        return BAD
    if kind == "dangling":
        path.symlink_to(path.parent / "nowhere")
        return None
    if kind.startswith("link "):
        text, conf = content(name, kind[5:])
        (path.parent / "elsewhere.toml").write_text(text)
        path.symlink_to("elsewhere.toml")
        return conf
    text, conf = content(name, kind)
    path.write_text(text)
    return conf


def clear(e):
    for p in where(e).values():
        shutil.rmtree(p.parent, ignore_errors=True)
    for d in ("cwd", "prefix", "xdg", "site_xdg"):
        shutil.rmtree(e.root / d, ignore_errors=True)
        (e.root / d).mkdir()
    os.chdir(e.root / "cwd")


def run_places(case):
    e = env()
    clear(e)
    at = where(e)
    confs = {n: place(at[n], n, k) for n, k in zip(PLACES, case)}
    want = next((c for c in confs.values() if c is not None), ([], {}, {}))

    def body():
        judge(want, f"{case}")
        for n in PLACES:
            got = shown(n)
            c = confs[n]
            check(got == (BAD if c is None else c), lambda: f"{case}: 'config show {n}': {'refused' if got is BAD else got}")
        if want is not BAD:
            res = get_variants_by_priority(variants_json=copy.deepcopy(INDEX))
            lead = [n for n in want[0] if n in ORDER]
            order = lead + [n for n in ORDER if n not in lead]
            check_eq([v for v in res if v != "null"], [f"v{n}" for n in order], f"{case}: order of the variants")
        else:
            check(attempt(lambda: list(get_variants_by_priority(variants_json=copy.deepcopy(INDEX)))) is BAD, f"{case}: resolved with an invalid configuration")
        for opts in ((), ("-v",)):
            status, out = cmd("config", "list-paths", *opts)
            check_eq(status, 0, f"{case}: status of list-paths")
            pos = [out.find(str(at[n])) for n in PLACES]
            check(pos == sorted(pos) and pos[0] >= 0 and len(set(pos)) == 4, lambda: f"{case}: list-paths printed {out}")
        return str(want)
    got = in_child(body)
    return Outcome((want is BAD, got), trivial=False, evaluations=8)


def gen_places(tier):
    kinds = ["absent", "full", "features", "empty", "syntax"]
    more = ["type", "key", "name", "dir", "dangling", "link full", "link syntax"]

    def gen():
        yield from itertools.product(kinds, repeat=4)
        if tier == "quick":
            for k in more:
                for pos in range(4):
                    for other in ("absent", "full"):
                        yield [k if i == pos else other for i in range(4)]
        else:
            for combo in itertools.product(kinds + more, repeat=4):
                if any(c in more for c in combo):
                    yield combo
    return gen


# ------------------------------------------------------------------------------------------- where the places are
def run_env(case):
    xdg_home, xdg_dirs, odd, k = case
    e = env()
    clear(e)
    base = e.fresh("r")
    names = {"plain": "dir", "space": "d r #x `q` 'a' \"b\"", "unicode": "d\u00e9\u2603", "dots": "a.b/../c", "long": "x" * 100}
    cwd = base / names[odd]
    cwd.mkdir(parents=True)
    if odd == "dots":
        (base / "a.b").mkdir(exist_ok=True)

    def body():
        os.chdir(cwd)
        sys.prefix = str(base / "prefix")
        os.environ["HOME"] = str(base / "home")
        for var, val in (("XDG_CONFIG_HOME", xdg_home), ("XDG_CONFIG_DIRS", xdg_dirs)):
            if val is None:
                os.environ.pop(var, None)
            else:
                os.environ[var] = ":".join(str(base / v) for v in val)
        at = {"LOCAL": Path.cwd() / "variants.toml", "VIRTUALENV": base / "prefix/variants.toml",
              "USER": (base / xdg_home[0] if xdg_home else base / "home/.config") / "variantlib/variants.toml",
              "GLOBAL": (base / xdg_dirs[0] if xdg_dirs else Path("/etc/xdg")) / "variantlib/variants.toml"}
        status, out = cmd("config", "list-paths")
        check_eq(status, 0, "status of list-paths")
        check_eq([line.split(": ", 1)[1] for line in out.splitlines()], [str(at[n]) for n in PLACES], "paths")
        if at[k].is_relative_to(base):
            at[k].parent.mkdir(parents=True, exist_ok=True)
            text, conf = content(k, "full")
            at[k].write_text(text)
        else:
            conf = ([], {}, {})
            if at[k].exists():
                return "skipped"
        # decoys
        for d in (base, base / "home", base / "home/.config", base / "cfg2/variantlib", cwd / "variantlib", cwd / ".config/variantlib", base / "prefix/variantlib", base / "prefix/etc"):
            d.mkdir(parents=True, exist_ok=True)
            f = d / "variants.toml"
            if f not in at.values():
                f.write_text("namespace_priorities = ['decoy']\n")
        judge(conf, f"{case}")
        check((shown(k) if conf[0] else None) == (conf if conf[0] else None), "config show of the place")
        return str(at[k].relative_to(base)) if conf[0] else "none"
    got = in_child(body)
    shutil.rmtree(base)
    return (case, got)


def gen_env():
    for xdg_home in (None, ["cfg"]):
        for xdg_dirs in (None, ["sys"], ["sys", "cfg2"]):
            for odd in ("plain", "space", "unicode", "dots", "long"):
                for k in PLACES:
                    yield [xdg_home, xdg_dirs, odd, k]


# ---------------------------------------------------------------------------------------------------- contents
def dumps(conf, style):
    ns, fp, pp = conf
    q = json.dumps
    out = []
    if style == "dotted":
        out += [f"feature_priorities.{n} = {q(v)}" for n, v in fp.items()]
        out += [f"property_priorities.{n}.{f} = {q(v)}" for n, d in pp.items() for f, v in d.items()]
        out.append(f"namespace_priorities = {q(ns)}")
    elif style == "tables":
        out.append(f"namespace_priorities = [ # comment\n  {', '.join(map(q, ns))}\n]")
        if pp:
            out += [f"[property_priorities.{n}]\n" + "\n".join(f'"{f}" = {q(v)}' for f, v in d.items()) for n, d in pp.items()]
        if fp:
            out += ["[feature_priorities]"] + [f'"{n}" = {q(v)}' for n, v in fp.items()]
    elif style == "inline":
        out.append("feature_priorities = {" + ", ".join(f"{n} = {q(v)}" for n, v in fp.items()) + "}")
        out.append("property_priorities = {" + ", ".join(f"{n} = {{" + ", ".join(f"{f} = {q(v)}" for f, v in d.items()) + "}" for n, d in pp.items()) + "}")
        out.append(f"namespace_priorities = {q(ns)}")
    elif style == "tomlkit":
        out.append(tomlkit.dumps({"namespace_priorities": ns, "feature_priorities": fp, "property_priorities": pp}))
    elif style == "crlf":
        return dumps(conf, "tables").replace("\n", "\r\n")
    return "\n".join(out) + "\n"


STYLES = ["dotted", "tables", "inline", "tomlkit", "crlf"]


def run_contents(case):
    conf, style = case
    conf = (list(conf[0]), {n: list(v) for n, v in conf[1]}, {n: {f: list(v) for f, v in d} for n, d in conf[2]})
    text = dumps(conf, style)
    return read_back(text, conf, PLACES[len(text) % 4])


def read_back(text, conf, at, doubtful=False):
    e = env()
    clear(e)
    p = where(e)[at]
    p.parent.mkdir(parents=True, exist_ok=True)
    raw = text if isinstance(text, bytes) else text.encode()
    p.write_bytes(raw)

    def body():
        judge(conf, repr(text)[:1500], doubtful)
        if conf is not BAD:
            # what is shown reads back when used as the configuration
            status, out = cmd("config", "show")
            if status == 0:
                p.write_text(out)
                VariantConfiguration.reset()
                got = attempt(lambda: plain(VariantConfiguration))
                check(got is not BAD and without_empty(got) == without_empty(conf), lambda: f"{text!r} shown as {out!r} reads back as {got if got is not BAD else 'invalid'}")
            # another file is another configuration
            p.write_text("namespace_priorities = ['other']\n")
            VariantConfiguration.reset()
            check_eq(plain(VariantConfiguration), (["other"], {}, {}), "configuration after a reset")
            p.unlink()
            VariantConfiguration.reset()
            check_eq(plain(VariantConfiguration), ([], {}, {}), "configuration after removal of the file and a reset")
        else:
            check(cmd("config", "show", at)[0] != 0, f"'config show {at}' of {text!r}")
    in_child(body)
    return (repr(text)[:200], repr(conf) if conf is not BAD else "refused")


def gen_contents(tier):
    def gen():
        k = itertools.count()
        lists = [[], ["a"], ["b", "a"], ["aa", "a", "b"], ["a", "b", "a"]]
        flists = [[], ["f"], ["g", "f"], ["f", "g", "f"]]
        vlists = [[], ["x"], ["1.0", "1.00", "1"], ["x", "x"]]
        fps = [[], *[[["a", f]] for f in flists], *[[["b", f], ["a", g]] for f, g in itertools.product(flists[1:], repeat=2)], [["1", ["1"]], ["_", ["_"]], ["true", ["true"]]]]
        pps = [[], *[[["a", [["f", v]]]] for v in vlists], [["b", [["g", vlists[2]], ["f", ["x"]]]], ["a", [["f", ["y", "x"]]]]], [["a", []]], [["1", [["1", ["1"]]]], ["a", []], ["inf", [["nan", ["nan"]]]]]]
        for conf in itertools.product(lists, fps, pps):
            for style in STYLES if tier != "quick" else [STYLES[next(k) % 5]]:
                if style == "dotted" and any(not d for _, d in conf[2]):
                    continue
                yield [conf, style]
        words = [*NAMES, *KEYWORDS, "namespace_priorities", "feature_priorities", "property_priorities", "inf", "nan", "0x1", "1979_05_27", "00"]
        for w in words:
            for style in STYLES:
                yield [[[w], [[w, [w]]], [[w, [[w, [w]]]]]], style]
                yield [[[w, "a"], [["a", [w, "f"]], [w, ["f"]]], [["a", [["f", ["y", w]], [w, ["x"]]]], [w, [["f", ["x"]]]]]], style]
        for v in VALUES:
            yield [[["a"], [], [["a", [["f", [v, "x"]]]]]], "dotted"]
        yield [[[f"n{i}" for i in range(200)], [[f"n{i}", [f"f{j}" for j in range(20)]] for i in range(20)], [[f"n{i}", [[f"f{j}", [f"v{j}", "x"]] for j in range(5)]] for i in range(20)]], "tables"]
    return gen


# ----------------------------------------------------------------------------------------------------- invalid
VALID = {"namespace_priorities": ["a", "b"], "feature_priorities": {"a": ["f", "g"], "b": ["f"]}, "property_priorities": {"a": {"f": ["x", "y"]}, "b": {"g": ["z"]}}}
WRONG = [0, 1, True, False, 1.5, "", "a", "a b", "A", [], ["a"], [1], [[]], [["a"]], [""], ["A"], ["a", 1], ["a\n"], ["\u00e9"], ["a-b"], ["a::b"], {}, {"a": ["x"]}, {"a": 1}, {"a": "x"}, {"a": {}}, {"a": {"f": ["x"]}}, {"a": {"f": {}}}, {"a": {"f": "x"}},
         {"A": []}, {"a\n": []}, {"": []}, {"a b": {"f": []}}, {"a": {"f": [1]}}, "DATE", ["DATE"]]


def nodes(data, path=()):
    yield path
    items = data.items() if isinstance(data, dict) else enumerate(data) if isinstance(data, list) else ()
    for k, v in items:
        yield from nodes(v, (*path, k))


def dates(x):
    if x == "DATE":
        return datetime.date(2020, 1, 2)
    if isinstance(x, list):
        return [dates(i) for i in x]
    if isinstance(x, dict):
        return {k: dates(v) for k, v in x.items()}
    return x


def run_structure(case):
    path, op, value = case
    data = copy.deepcopy(VALID)
    at = data
    for k in path[:-1]:
        at = at[k]
    if op == "set":
        at[path[-1]] = dates(value)
    elif op == "del":
        del at[path[-1]]
    elif op == "key":
        at[value] = at.pop(path[-1])
    elif op == "add":
        (at[path[-1]] if path else at)[value] = ["a"]
    text = tomlkit.dumps(data)
    assert tomllib.loads(text) == data
    conf, doubtful = model(tomllib.loads(text))
    return read_back(text, conf, PLACES[len(text) % 4], doubtful)


def gen_structure():
    every = [p for p in nodes(VALID) if p]
    for p in every:
        for w in WRONG:
            yield [p, "set", w]
        yield [p, "del", 0]
        if isinstance(p[-1], str):
            for name in ("A", "", "a b", "a.b", "a\n", "\u00e9", " a", "-", "namespace_priorities", "feature-priorities", "namespace", "self", "cls", "__class__", "q"):
                yield [p, "key", name]
    for p in [(), ("feature_priorities",), ("property_priorities",), ("property_priorities", "a")]:
        for name in ("A", "", "other", "a b", "cls", "namespace-priorities", "$schema", "variant", "q\n", "\u0661"):
            yield [p, "add", name]


RAW = [("a = [", 0), ("namespace_priorities = ['a']\nnamespace_priorities = ['b']\n", 0), ("[feature_priorities]\na = ['x']\na = ['y']\n", 0), ("[feature_priorities]\n[feature_priorities]\n", 0), ("namespace_priorities = ['a'", 0),
       ("namespace_priorities ['a']", 0), ("\ufeffnamespace_priorities = ['a']", 0), ("namespace_priorities = ['\u00e9']".encode("latin1"), 0), (b"namespace_priorities = ['a\x00']", 0), (b"\xff\xfe", 0), ("[[feature_priorities]]\na = ['x']\n", 0),
       ("namespace_priorities = [\"\\ud800\"]", 0), ("<<<<<<< HEAD\nnamespace_priorities = ['a']\n", 0), ("{}", 0), ("null", 0), ('{"namespace_priorities": ["a"]}', 0), ("[namespace_priorities]\n", 0), ("[namespace_priorities]\na = 1\n", 0),
       ("# only a comment", ([], {}, {})), ("\n\n", ([], {}, {})), ("namespace_priorities = []\n", ([], {}, {})), ("[feature_priorities]\n[property_priorities]\n", ([], {}, {})), ("namespace_priorities = ['''a''', \"b\",]", (["a", "b"], {}, {})),
       ("namespace_priorities = [\"\\u0061\"]", (["a"], {}, {})), ("feature_priorities = { 'a' = ['f'], \"b\" = [] }", ([], {"a": ["f"], "b": []}, {})), ("'namespace_priorities' = ['a']", (["a"], {}, {})), ("\"feature_priorities\".\"a\" = ['f']", ([], {"a": ["f"]}, {})),
       ("property_priorities.a.f = ['x']\nproperty_priorities.a.g = ['y']\n", ([], {}, {"a": {"f": ["x"], "g": ["y"]}}))]


def run_raw(case):
    text, conf = RAW[case[0]]
    return read_back(text, conf or BAD, case[1])


def run_cut(case):
    """prefixes of a file: exactly what the prefix says, or an error"""
    style, lo, hi = case
    text = dumps((["aa", "b"], {"aa": ["f", "g"], "b": ["h"]}, {"aa": {"f": ["x", "y"]}}), style)
    seen = []
    for n in range(lo, min(hi, len(text) + 1)):
        try:
            conf, doubtful = model(tomllib.loads(text[:n].replace("\r\n", "\n")))
        except tomllib.TOMLDecodeError:
            conf, doubtful = BAD, False
        try:
            tomllib.loads(text[:n])
        except tomllib.TOMLDecodeError:
            conf = BAD
        seen.append(read_back(text[:n], conf, "LOCAL", doubtful)[1])
    return Outcome(seen, evaluations=len(seen))


def spaces(tier):
    return [
        Space("places", gen_places(tier), run_places, setup=setup),
        Space("environment", gen_env, run_env, setup=setup),
        Space("contents", gen_contents(tier), run_contents, setup=setup),
        Space("structure", gen_structure, run_structure, setup=setup),
        Space("raw", lambda: ([i, p] for i in range(len(RAW)) for p in PLACES), run_raw, setup=setup),
        Space("cut", lambda: ([s, lo, lo + 10] for s in STYLES for lo in range(0, 260, 10)), run_cut, setup=setup),
    ]
