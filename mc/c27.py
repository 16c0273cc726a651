"""C27: every command line is carried out completely, or refused without effect."""
from __future__ import annotations

import itertools
import json
import os
import shutil
import stat
import sys
import tomllib
import zipfile
from pathlib import Path

import tomlkit

from mc import c05, ref, wheels
from mc.core import HarnessError, Outcome, Space, Violation, check, check_eq, env
from mc.util import cli, install_entry_points, text, vd
from mc.wheels import member
from mc.zygote import Zygote, file_api
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every command with every combination of up to two (thorough: three) deviations from a valid call: each option left out, repeated, or given every kind of "
        "unusable or unusual value (missing, of the wrong kind, not readable, malformed, contradicting another option), with working and broken plugins and with "
        "outputs that exist or not. What must be refused ends with an error and nothing changed anywhere; everything else has exactly the complete effect. Every "
        "spelling and order of the options has the same effect. An outcome is the command with its deviations and the verdict.")
ASSUMPTIONS = ["the kind and text of the error are not judged", "stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters",
               "isolated environments are not created (no network)"]

Z = {}
BASE = "pkg-1.0-py3-none-any"
DI = "pkg-1.0.dist-info"
P1, P2 = ("pl", "f", "x"), ("pl", "g", "z")
DOC = {"default-priorities": {"namespace": ["pl"]}, "providers": {"pl": {"requires": ["req-pl"]}}}
OK, BAD, ANY = "accepted", "refused", "either"


def setup(e):
    install_entry_points(e)
    z = Z["z"] = Zygote(e)
    Z["py"] = {state: z.venv(state)[0] for state in ("good", "broken")}
    for ns, state in itertools.product(("pl", "po"), Z["py"]):
        spec = {"ns": ns, "all": [["f", ["x", "y"], False], ["g", ["z"], False]], "sup": [["f", ["x"], False], ["g", ["z"], False]]}
        z.write_spec(state, ns, {**spec, "fault": {"at": "load", "kind": "raise"}} if state == "broken" else spec)
    plugins("good")
    di = e.root / "sp" / "pl_dist-1.5.dist-info"
    di.mkdir()
    (di / "METADATA").write_text("Metadata-Version: 2.1\nName: pl-dist\nVersion: 1.5\n")
    (di / "entry_points.txt").write_text("[variant_plugins]\n" + "".join(f"{n} = {file_api(n)}\n" for n in ("pl", "po")))
    DOC["providers"]["pl"]["plugin-api"] = file_api("pl")
    template(e.root / "template")


def plugins(state):
    sys.executable = str(Z["py"][state])  # (results are kept per interpreter)


def meta(label, props, doc=None):
    return json.dumps({**(doc or DOC), "variants": {label: ref.packed(props)}})


def wheel(path, extra=(), record=True):
    ms = [member("pkg/__init__.py", [3000, 1]), member(f"{DI}/METADATA", "Metadata-Version: 2.1\n"), *extra]
    rec = "".join(wheels.record_line(n, wheels.data_of(data) if not isinstance(data, bytes) else data) + "\n" for n, data, *_ in ms) + f"{DI}/RECORD,,\n"
    wheels.build(path, [*ms, member(f"{DI}/RECORD", rec)] if record else ms)


def template(t):
    """everything that a call may refer to"""
    i = t / "in"
    i.mkdir(parents=True)
    wheel(i / f"{BASE}.whl")
    v = member(f"{DI}/variant.json", meta("lab", [P1]))
    wheel(i / f"{BASE}-lab.whl", [v])
    shutil.copy(i / f"{BASE}.whl", i / "badname.whl")
    shutil.copy(i / f"{BASE}.whl", i / f"{BASE}.zip")
    shutil.copy(i / f"{BASE}-lab.whl", i / f"{BASE}-LAB.whl")
    shutil.copy(i / f"{BASE}-lab.whl", i / f"{BASE}-other.whl")
    data = (i / f"{BASE}-lab.whl").read_bytes()
    bad = bytearray(data)
    bad[80] ^= 255  # inside the first member
    for lab in ("", "-lab"):
        (i / f"dir-1.0-py3-none-any{lab}.whl").mkdir()
        (i / f"text-1.0-py3-none-any{lab}.whl").write_text("no archive")
        (i / f"empty-1.0-py3-none-any{lab}.whl").write_text("")
        (i / f"short-1.0-py3-none-any{lab}.whl").write_bytes(data[:-40])
        (i / f"damaged-1.0-py3-none-any{lab}.whl").write_bytes(bad)
        (i / f"link-1.0-py3-none-any{lab}.whl").symlink_to("nowhere")
    with zipfile.ZipFile(i / "damaged-1.0-py3-none-any.whl") as z:
        try:
            whole = z.testzip() is None
        except Exception:  # noqa: BLE001
            whole = False
        if whole:
            raise HarnessError("not damaged")
    wheel(i / "norec-1.0-py3-none-any.whl", record=False)
    wheel(i / "nometa-1.0-py3-none-any-lab.whl")
    wheel(i / "badmeta-1.0-py3-none-any-lab.whl", [member(f"{DI}/variant.json", meta("lab", [P1])[:-1])])
    wheel(i / "inv-1.0-py3-none-any-lab.whl", [member(f"{DI}/variant.json", meta("lab", [P1], {"default-priorities": {"namespace": []}, "providers": DOC["providers"]}))])
    (t / "out").mkdir()
    (t / "file").write_text("a file")
    (t / "empty").mkdir()
    tomls = {"good": tomlkit.dumps({"project": {"name": "pkg"}, "variant": DOC}), "syntax": "[variant\n", "invalid": tomlkit.dumps({"variant": {**DOC, "default-priorities": {"namespace": []}}}),
             "unknown": tomlkit.dumps({"variant": {**DOC, "nokey": 1}}), "plain": "[project]\nname = 'pkg'\n"}
    for k, s in tomls.items():
        (t / f"{k}.toml").write_text(s)
    (t / "bytes.toml").write_bytes(b"# \xff\xfe\n" + tomls["good"].encode())
    (t / "tomldir.toml").mkdir()
    other = {**DOC, "providers": {"pl": {**DOC["providers"]["pl"], "requires": ["req-other"]}}}
    jsons = {"good": meta("old", [P2]), "syntax": meta("old", [P2])[:-1], "invalid": meta("old", [P2], {"default-priorities": {"namespace": []}, "providers": DOC["providers"]}),
             "list": "[]", "differs": meta("old", [P2], other), "clash": meta("lab", [P2]), "same": meta("lab", [P1]), "empty": "", "none": json.dumps({**DOC, "variants": {}})}
    for k, s in jsons.items():
        (t / f"{k}.json").write_text(s)
    (t / "bytes.json").write_bytes(b"\xff\xfe\xff")
    (t / "jsondir.json").mkdir()
    # a directory to be indexed
    w = t / "wheels"
    w.mkdir()
    shutil.copy(i / f"{BASE}.whl", w)
    shutil.copy(i / f"{BASE}-lab.whl", w)
    wheel(w / f"{BASE}-l2.whl", [member(f"{DI}/variant.json", meta("l2", [P2]))])
    wheel(w / "pkg-2.0-py3-none-any-null.whl", [member(f"{DI}/variant.json", meta("null", []))])


def tree(*tops):
    out = {}
    for top in tops:
        for d, dirs, names in os.walk(top):
            for n in names + dirs:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as f:
                        out[p] = (st.st_mode, st.st_mtime_ns, f.read())
                else:
                    out[p] = (st.st_mode, os.readlink(p) if stat.S_ISLNK(st.st_mode) else None, None)
    return out


# ------------------------------------------------------------------------------------- the commands and their options
class V:
    """one value of a part of the call: the arguments it stands for, the verdict by itself, and what it means"""

    def __init__(self, name, args=(), verdict=OK, **means):
        self.name, self.args, self.verdict, self.means = name, list(args), verdict, means


def files(opt, ok, bad, either=(), omitted=BAD):
    out = [V(n, [opt, "{d}/" + n], file=n) for n in ok] + [V(n, [opt, "{d}/" + n], BAD, file=n) for n in bad] + [V(n, [opt, "{d}/" + n], ANY, file=n) for n in either]
    out += [V("omitted", [], omitted, file=None), V("no value", [opt], BAD, file=None)]
    return out


UNREADABLE = ["dir-1.0-py3-none-any{}.whl", "text-1.0-py3-none-any{}.whl", "empty-1.0-py3-none-any{}.whl", "short-1.0-py3-none-any{}.whl", "link-1.0-py3-none-any{}.whl", "missing-1.0-py3-none-any{}.whl"]
OUT = [V("out", ["-o", "{d}/out"], out="out"), V("in", ["-o", "{d}/in"], out="in"), V("missing", ["-o", "{d}/nowhere"], BAD), V("file", ["-o", "{d}/file"], BAD), V("omitted", [], BAD)]
EXTRA = [V("none"), V("unknown option", ["--nosuch"], BAD), V("stray", ["stray"], BAD)]


def ins(names, *labels):
    return [f"in/{n.format(lab)}" for lab in labels for n in names]


COMMANDS = {
    "make-variant": {
        "file": files("-f", [f"in/{BASE}.whl", f"in/{BASE}-lab.whl"], [*ins(UNREADABLE, "", "-lab"), *ins(["damaged-1.0-py3-none-any{}.whl"], "", "-lab"), "in/badname.whl", f"in/{BASE}.zip", f"in/{BASE}-LAB.whl"],
                      ["in/norec-1.0-py3-none-any.whl"]),
        "out": OUT,
        "properties": [V("one", ["-p", text(P1)], props=[P1]), V("two", ["-p", text(P2), text(P1)], props=[P1, P2]), V("repeated", ["-p", text(P1), "-p", text(P2)], props=[P1, P2]),
                       V("null", ["--null-variant"], props=[]), V("none", [], BAD), V("empty", ["-p"], BAD), V("null and one", ["--null-variant", "-p", text(P1)], BAD),
                       V("duplicate", ["-p", text(P1), text(P1)], BAD), V("syntax", ["-p", text(P1), "pl :: f"], BAD), V("upper", ["-p", "pl :: f :: X"], BAD),
                       V("not valid", ["-p", text(P1[:2] + ("q",))], props=[P1[:2] + ("q",)], invalid=True), V("not provided", ["-p", "q :: f :: x", text(P1)], props=[P1, ("q", "f", "x")], invalid=True),
                       V("several", ["-p", text(P1), "pl :: f :: y"], props=[P1, ("pl", "f", "y")], invalid=True)],
        "label": [V("none", [], label=None), V("label", ["--variant-label", "new_1.0"], label="new_1.0"), V("long", ["--variant-label", "x" * 16], label="x" * 16), V("null", ["--variant-label", "null"], BAD),
                  V("empty", ["--variant-label", ""], BAD), V("too long", ["--variant-label", "x" * 17], BAD), V("upper", ["--variant-label", "New"], BAD), V("dash", ["--variant-label", "a-b"], BAD),
                  V("slash", ["--variant-label", "../x"], BAD), V("newline", ["--variant-label", "x\n"], BAD)],
        "project": [V("good", ["--pyproject-toml", "{d}/good.toml"]), V("default", [], cwd="good.toml"), V("default missing", [], BAD)]
        + [V(n, ["--pyproject-toml", "{d}/" + n], BAD) for n in ("missing.toml", "tomldir.toml", "syntax.toml", "invalid.toml", "bytes.toml")] + [V("unknown.toml", ["--pyproject-toml", "{d}/unknown.toml"])]
        + [V("plain", ["--pyproject-toml", "{d}/plain.toml"], unknown=True, doc={})],
        "isolation": [V("off", ["--no-isolation"])],
        "checking": [V("on"), V("off", ["--skip-plugin-validation"], skip=True)],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "installer": [V("default"), V("pip", ["--installer", "pip"]), V("bogus", ["--installer", "bogus"], BAD)],
        "existing": [V("none"), V("there", [], existing="file"), V("directory", [], existing="dir")],
        "extra": EXTRA,
    },
    "unmake-variant": {
        "file": files("-f", [f"in/{BASE}-lab.whl", f"in/{BASE}.whl", f"in/{BASE}-other.whl"], [*ins(UNREADABLE, "-lab"), "in/damaged-1.0-py3-none-any-lab.whl", "in/missing-1.0-py3-none-any.whl", "in/dir-1.0-py3-none-any.whl", "in/badname.whl", f"in/{BASE}.zip", f"in/{BASE}-LAB.whl"],
                      ["in/nometa-1.0-py3-none-any-lab.whl", "in/badmeta-1.0-py3-none-any-lab.whl", "in/inv-1.0-py3-none-any-lab.whl"]),
        "out": OUT,
        "existing": [V("none"), V("there", [], existing="file"), V("directory", [], existing="dir")],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": EXTRA,
    },
    "generate-index-json": {
        "dir": [V("wheels", ["-d", "{d}/wheels"]), V("empty", ["-d", "{d}/empty"], none=True), V("missing", ["-d", "{d}/nowhere"], BAD), V("file", ["-d", "{d}/file"], BAD), V("omitted", [], BAD), V("no value", ["-d"], BAD)],
        "junk": [V("none")] + [V(n, [], put=n) for n in ("in/badname.whl", "in/nometa-1.0-py3-none-any-lab.whl", "in/inv-1.0-py3-none-any-lab.whl", f"in/{BASE}-LAB.whl", "file")]
        + [V(n, [], ANY, put=n) for n in ("in/badmeta-1.0-py3-none-any-lab.whl", "in/text-1.0-py3-none-any-lab.whl", "in/short-1.0-py3-none-any-lab.whl", "in/empty-1.0-py3-none-any-lab.whl", f"in/{BASE}-other.whl")],
        "existing": [V("none"), V("there", [], existing="file"), V("directory", [], existing="dir")],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": EXTRA,
    },
    "add-wheel-to-index-json": {
        "file": files("-f", [f"in/{BASE}-lab.whl"], [*ins(UNREADABLE, "-lab"), "in/badname.whl", f"in/{BASE}.zip", f"in/{BASE}-LAB.whl", f"in/{BASE}.whl", f"in/{BASE}-other.whl", "in/nometa-1.0-py3-none-any-lab.whl", "in/badmeta-1.0-py3-none-any-lab.whl",
                                                      "in/inv-1.0-py3-none-any-lab.whl"]),
        "input": [V("none", [], have={}), V("good", ["-i", "{d}/good.json"], have={"old": [P2]}), V("same", ["-i", "{d}/same.json"], have={"lab": [P1]}), V("no variants", ["-i", "{d}/none.json"], have={})]
        + [V(n, ["-i", "{d}/" + n], BAD) for n in ("missing.json", "jsondir.json", "syntax.json", "invalid.json", "list.json", "differs.json", "clash.json", "empty.json", "bytes.json")],
        "out": OUT,
        "overwrite": [V("no"), V("yes", ["-w"], overwrite=True)],
        "existing": [V("none"), V("there", [], existing="file"), V("directory", [], existing="dir")],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": EXTRA,
    },
    "update-pyproject-toml": {
        "file": [V("good", ["-f", "{d}/good.toml"], file="good.toml"), V("default", [], cwd="good.toml"), V("default missing", [], BAD), V("plain", ["-f", "{d}/plain.toml"], file="plain.toml")]
        + [V(n, ["-f", "{d}/" + n], BAD) for n in ("missing.toml", "tomldir.toml", "syntax.toml", "bytes.toml")],
        "change": [V("add", ["-a", "po"], add=["po"]), V("add two", ["-a", "po", "pl"], add=["po", "pl"]), V("delete", ["-d", "pl"], delete=["pl"]), V("delete unknown", ["-d", "zz"], delete=["zz"]),
                   V("both", ["-d", "pl", "-a", "po"], add=["po"], delete=["pl"]), V("again", ["-a", "pl", "-d", "pl"], add=["pl"], delete=["pl"]), V("repeated", ["-a", "po", "-a", "pl"], add=["po", "pl"]),
                   V("nothing", [], BAD), V("empty", ["-a"], BAD), V("empty delete", ["-d"], BAD), V("not installed", ["-a", "zz"], BAD), V("partly installed", ["-a", "po", "zz"], BAD), V("delete and not installed", ["-d", "pl", "-a", "zz"], BAD)],
        "plugin": [V("good"), V("broken", [], ANY, plugin="broken")],
        "extra": EXTRA,
    },
    "analyze-wheel": {
        "file": files("-i", [f"in/{BASE}-lab.whl", f"in/{BASE}.whl"], [*ins(UNREADABLE, "-lab"), "in/missing-1.0-py3-none-any.whl", "in/badname.whl", f"in/{BASE}.zip", f"in/{BASE}-LAB.whl", f"in/{BASE}-other.whl", "in/nometa-1.0-py3-none-any-lab.whl", "in/badmeta-1.0-py3-none-any-lab.whl",
                                                                       "in/inv-1.0-py3-none-any-lab.whl"], ["in/damaged-1.0-py3-none-any-lab.whl"]),
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": EXTRA,
    },
    "get-variant-hash": {
        "properties": [V("one", ["-p", text(P1)]), V("two", ["-p", text(P1), text(P2)]), V("repeated", ["-p", text(P1), "-p", text(P2)]), V("none", [], ANY), V("empty", ["-p"], BAD), V("duplicate", ["-p", text(P1), text(P1)], BAD),
                       V("syntax", ["-p", "a :: b"], BAD), V("upper", ["-p", "a :: b :: C"], BAD)],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": EXTRA,
    },
    "plugins": {
        "what": [V("list", ["list"]), V("all", ["get-configs", "-a"]), V("supported", ["get-configs", "-s"]), V("both", ["get-configs", "-a", "-s"], BAD), V("neither", ["get-configs"], BAD), V("filter", ["get-configs", "-a", "-n", "pl", "-f", "g"]),
                 V("filter nothing", ["get-configs", "-s", "-n", "zz"]), V("filter without value", ["get-configs", "-a", "-n"], BAD), V("unknown", ["nosuch"], BAD), V("nothing", [], BAD)],
        "plugin": [V("good"), V("broken", [], BAD, plugin="broken")],
        "extra": [V("none"), V("unknown option", ["--nosuch"], BAD)],
    },
    "config": {
        "what": [V("show", ["show"]), V("local", ["show", "LOCAL"], needs=True), V("user", ["show", "USER"], BAD), V("unknown place", ["show", "NOWHERE"], BAD), V("lower case", ["show", "local"], BAD), V("paths", ["list-paths"], reads=False),
                 V("unknown", ["nosuch"], BAD, reads=False), V("nothing", [], BAD, reads=False)],
        "file": [V("there", [], config='namespace_priorities = ["a"]\n'), V("none"), V("malformed", [], config="[["), V("wrong", [], config="namespace_priorities = 3\n")],
        "plugin": [V("good"), V("broken", [], plugin="broken")],
        "extra": [V("none"), V("unknown option", ["--nosuch"], BAD)],
    },
    "analyze-platform": {
        "plugin": [V("good"), V("broken", [], BAD, plugin="broken")],
        "extra": [V("none"), V("unknown option", ["--nosuch"], BAD)],
    },
}

# (an option with any number of values takes what follows it)
COMMANDS = {cmd: {"extra": dims["extra"], **dims} for cmd, dims in COMMANDS.items()}


def means(vals, key, default=None):
    for v in vals.values():
        if key in v.means:
            return v.means[key]
    return default


def directory(cmd, vals):
    """a directory is in the place of the output; only names that are known are in use"""
    if cmd == "unmake-variant":
        return BAD if means(vals, "out") == "out" and means(vals, "file") in (f"in/{BASE}-lab.whl", f"in/{BASE}-other.whl") else ANY
    if cmd == "make-variant":
        used = [[P1], [P1, P2], []]
        return BAD if means(vals, "out") == "out" and (means(vals, "label") or means(vals, "props") in used) else ANY
    return BAD


def verdict(cmd, vals):
    if any(v.verdict == BAD for v in vals.values()):
        return BAD
    if cmd == "make-variant":
        props, skip = means(vals, "props"), means(vals, "skip")
        if not props and means(vals, "label") is not None:
            return BAD
        if props and not skip and (means(vals, "invalid") or means(vals, "unknown") or means(vals, "plugin") == "broken"):
            return BAD
    if cmd == "add-wheel-to-index-json" and means(vals, "existing") and not means(vals, "overwrite"):
        return BAD
    if means(vals, "existing") == "dir" and (cmd != "generate-index-json" or not means(vals, "none")):
        return directory(cmd, vals)
    if cmd == "config":
        conf = means(vals, "config")
        if means(vals, "needs") and conf is None:
            return BAD
        if means(vals, "reads", True) and conf is not None and "[\"a\"]" not in conf:
            return BAD
    return ANY if any(v.verdict == ANY for v in vals.values()) else OK


def changed(before, after, d):
    """relative path -> content (None: removed) of what differs"""
    out = {}
    for p in before.keys() | after.keys():
        if before.get(p) != after.get(p):
            out[os.path.relpath(p, d)] = after[p][2] if p in after else None
    return out


def complete(cmd, vals, diff, d, printed):
    """the call was accepted: exactly its whole effect is there"""
    if cmd == "make-variant":
        props, label = means(vals, "props"), means(vals, "label")
        label = label or ref.label(props)
        src = means(vals, "file")
        base = Path(src).name.removesuffix(".whl").removesuffix("-lab")
        name = f"{means(vals, 'out')}/{base}-{label}.whl"
        check_eq(sorted(diff), [name], "files changed")
        ms = {wheels.name_of(m): m[1] for m in wheels.read(d / name)}
        check_eq(sorted(ms), sorted([f"{DI}/{n}" for n in ("METADATA", "RECORD", "variant.json")] + ["pkg/__init__.py"]), "members")
        info = VariantDistInfo(ms[f"{DI}/variant.json"], label)
        check_eq(info.variant_desc, vd(props), "variant")
        check_eq(info.providers, VariantPyProjectToml({"variant": means(vals, "doc", DOC)}).providers, "providers")
        check_eq([r for r in wheels.record_rows(ms[f"{DI}/RECORD"]) if r[0] == f"{DI}/variant.json"],
                 [[f"{DI}/variant.json", wheels.digest(ms[f"{DI}/variant.json"]), str(len(ms[f"{DI}/variant.json"]))]], "file list")
    elif cmd == "unmake-variant":
        src = means(vals, "file")
        if "any-" not in src:
            check_eq(sorted(diff), [], "files changed for a plain wheel")
            return
        name = f"{means(vals, 'out')}/{Path(src).name.rsplit('-', 1)[0]}.whl"
        if "in/" + Path(name).name == f"in/{BASE}.whl" == name:
            check(set(diff) <= {name}, lambda: f"files changed: {sorted(diff)}")
        else:
            check_eq(sorted(diff), [name], "files changed")
        check_eq(wheels.read(d / name), wheels.read(d / f"in/{BASE}.whl"), "wheel")
    elif cmd == "generate-index-json":
        if means(vals, "none"):
            extra = [] if not means(vals, "put") else ["empty/" + Path(means(vals, "put")).name]
            check(set(diff) <= set(extra) | {"empty/pkg-1.0-variants.json"}, lambda: f"files changed: {sorted(diff)}")
            return
        other = means(vals, "put") == f"in/{BASE}-other.whl"
        check_eq(sorted(diff), ["wheels/pkg-1.0-variants.json", "wheels/pkg-2.0-variants.json"], "files changed")
        for v, labels in (("1.0", {"lab": [P1], "l2": [P2]}), ("2.0", {"null": []})):
            index = VariantsJson(json.loads(diff[f"wheels/pkg-{v}-variants.json"]))
            got = {k: x for k, x in index.variants.items() if not other or k != "other"}
            check_eq(got, {k: vd(ps) for k, ps in labels.items()}, f"index of {v}")
    elif cmd == "add-wheel-to-index-json":
        name = f"{means(vals, 'out')}/pkg-1.0-variants.json"
        check_eq(sorted(diff), [name], "files changed")
        check_eq(VariantsJson(json.loads(diff[name])).variants, {k: vd(ps) for k, ps in {**means(vals, "have"), "lab": [P1]}.items()}, "index")
    elif cmd == "update-pyproject-toml":
        name = means(vals, "file") or "../cwd/pyproject.toml"
        check(set(diff) <= {name}, lambda: f"files changed: {sorted(diff)}")
        t = (d / name).read_bytes()
        before = [] if name == "plain.toml" else ["pl"]
        want = [n for n in before if n not in means(vals, "delete", [])]
        want += [n for n in means(vals, "add", []) if n not in want]
        doc = tomllib.loads(t.decode())
        check_eq(doc["project"], {"name": "pkg"}, "other table")
        got = VariantPyProjectToml(doc)
        check_eq((got.namespace_priorities, sorted(got.providers)), (want, sorted(want)), "providers")
    else:
        check_eq(sorted(diff), [], "files changed")
        if cmd == "get-variant-hash":
            props = {"one": [P1], "none": []}.get(vals["properties"].name, [P1, P2])
            check_eq(printed.split(), [ref.vhash(props)], "hash")


def attempt(args):
    try:
        return cli(*args)
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__, ""


def perform(cmd, vals, order=None):
    """-> verdict reached"""
    d = env().fresh()
    d.rmdir()
    shutil.copytree(env().root / "template", d, symlinks=True)
    cwd = env().root / "cwd"
    for p in cwd.iterdir():
        p.unlink()
    plugins(means(vals, "plugin", "good"))
    if (c := means(vals, "cwd")) is not None:
        shutil.copy(d / c, cwd / "pyproject.toml")
    if (c := means(vals, "config")) is not None:
        (cwd / "variants.toml").write_text(c)
    if means(vals, "put"):
        src = d / means(vals, "put")
        for to in ("wheels", "empty"):
            shutil.copy(src, d / to)
    if kind := means(vals, "existing"):
        put = (lambda p: p.write_text("old")) if kind == "file" else (lambda p: p.mkdir())
        for lab in (ref.label([P1]), ref.label([P1, P2]), ref.label([P2]), "null", "new_1.0", "x" * 16):
            for base in (BASE, "norec-1.0-py3-none-any"):
                put(d / f"out/{base}-{lab}.whl")
        put(d / f"out/{BASE}.whl")
        for to in ("out", "in", "wheels"):
            for v in ("1.0", "2.0"):
                put(d / f"{to}/pkg-{v}-variants.json")
    parts = [[a.replace("{d}", str(d)) for a in vals[k].args] for k in vals]
    if cmd not in ("plugins", "config"):
        parts = [parts[i] for i in order] if order else parts
    args = [cmd, *itertools.chain.from_iterable(parts)]
    tops = [d, *(env().root / x for x in ("cwd", "home", "xdg", "prefix", "sp", "tmp"))]
    before = tree(*tops)
    status, printed = attempt(args)
    diff = changed(before, tree(*tops), d)
    want = verdict(cmd, vals)
    if status == 0:
        check(want != BAD, lambda: f"accepted, but has to be refused: {args}")
        complete(cmd, vals, diff, d, printed)
    else:
        check(want != OK, lambda: f"refused ({status}), but has to be accepted: {args}")
        check_eq(sorted(diff), [], f"files changed although the call was refused ({status}): {args}")
    shutil.rmtree(d)
    return "refused" if status else "accepted"


def run_calls(case):
    cmd, dev, *order = case
    vals = {k: vs[dev.get(k, 0)] for k, vs in COMMANDS[cmd].items()}
    r = perform(cmd, vals, *order)
    return Outcome((cmd, {k: vals[k].name for k in dev}, r, order))


def gen_calls(tier):
    def gen():
        for cmd, dims in COMMANDS.items():
            most = 2 if tier == "quick" else 3 if cmd == "make-variant" else 5
            for n in range(most + 1):
                for ks in itertools.combinations(dims, n):
                    for ix in itertools.product(*(range(1, len(dims[k])) for k in ks)):
                        yield [cmd, dict(zip(ks, ix))]
    return gen


def gen_orders(tier):
    """orders of the options that matter, for valid calls and ones with a single deviation"""
    def gen():
        for cmd, dims in COMMANDS.items():
            if cmd in ("plugins", "config"):
                continue
            opts = [i for i, k in enumerate(dims) if any(v.args for v in dims[k]) and k != "extra"]
            devs = [{}] + [{k: i} for k in dims for i in range(1, len(dims[k])) if dims[k][i].verdict != BAD]
            if tier != "quick":
                devs += [{k: i} for k in dims for i in range(1, len(dims[k])) if dims[k][i].verdict == BAD]
            for dev in devs:
                used = [i for i in opts if list(dims.values())[i][dev.get(list(dims)[i], 0)].args]
                for perm in itertools.permutations(used):
                    if perm == tuple(sorted(perm)):
                        continue
                    yield [cmd, dev, [*(i for i in range(len(dims)) if i not in perm), *perm]]
    return gen


# ------------------------------------------------------------------------------------------------------ spellings
LONG = {"make-variant": {"-f": "--file", "-o": "--output-directory", "-p": "--property"}, "unmake-variant": {"-f": "--file", "-o": "--output-directory"}, "generate-index-json": {"-d": "--directory"},
        "add-wheel-to-index-json": {"-f": "--wheel-file", "-i": "--input-json-file", "-o": "--output-directory", "-w": "--overwrite"}, "update-pyproject-toml": {"-f": "--file", "-a": "--add", "-d": "--delete"},
        "analyze-wheel": {"-i": "--input_file"}, "get-variant-hash": {"-p": "--property"}}


def run_spelling(case):
    cmd, dev, mask, joined = case
    vals = {}
    k = 0
    for name, vs in COMMANDS[cmd].items():
        v = vs[dev.get(name, 0)]
        args = []
        for j, a in enumerate(v.args):
            if a in LONG[cmd]:
                if mask >> k & 1:
                    a = LONG[cmd][a]
                k += 1
            elif joined and args and args[-1] in (*LONG[cmd], *LONG[cmd].values()) and args[-1] not in ("-w", "--overwrite") \
                    and v.args[j + 1:j + 2] in ([], *([o] for o in LONG[cmd])):  # (the only value of the option)
                o = args.pop()
                a = f"{o}={a}" if o.startswith("--") else o + a
            args.append(a)
        vals[name] = V(v.name, args, v.verdict, **v.means)
    return Outcome((case, perform(cmd, vals)))


def gen_spelling(tier):
    def gen():
        for cmd, long in LONG.items():
            dims = COMMANDS[cmd]
            devs = [{}] + [{k: i} for k in dims for i in range(1, len(dims[k])) if dims[k][i].verdict != BAD or tier != "quick"]
            for dev in devs:
                n = sum(a in long for k in dims for a in dims[k][dev.get(k, 0)].args)
                for mask in range(1 << n):
                    for joined in (False, True):
                        if mask or joined:
                            yield [cmd, dev, mask, joined]
    return gen


# ------------------------------------------------------------------------------------------------------- outside
def run_top(case):
    args, want = case
    tops = [env().root / x for x in ("cwd", "home", "xdg", "prefix", "sp", "tmp")]
    before = tree(*tops)
    status, printed = attempt(args)
    if want == "help":
        check_eq(status, 0, f"{args}")
        check(printed.strip() != "", lambda: f"{args} prints nothing")
    else:
        check(status != 0, lambda: f"accepted: {args}")
    check_eq(changed(before, tree(*tops), env().root), {}, f"files changed by {args}")
    return Outcome((args, want))


def gen_top(tier):
    def gen():
        for args in ([], ["nosuch"], ["--nosuch"], [""], ["make"], ["make-variant2"], ["make_variant"], ["generate-index-json", "plugins"]):
            yield [args, "refused"]
        for args in (["-v"], ["--version"], ["-h"], ["--help"]):
            yield [args, "help"]
        for cmd in COMMANDS:
            for h in ("-h", "--help"):
                yield [[cmd, h], "help"]
        for cmd in COMMANDS:
            if cmd not in ("analyze-platform", "get-variant-hash"):
                yield [[cmd], "refused"]
    return gen


def spaces(tier):
    return [Space("calls", gen_calls(tier), run_calls, setup=setup), Space("orders", gen_orders(tier), run_calls, setup=setup), Space("spellings", gen_spelling(tier), run_spelling, setup=setup),
            Space("outside", gen_top(tier), run_top, setup=setup)]
