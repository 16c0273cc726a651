"""C18: a failing or killed command never leaves a damaged file behind."""
from __future__ import annotations

import ctypes
import gc
import itertools
import json
import mmap
import os
import shutil
import signal
import sys
import tempfile

from mc import c14, c16, wheels
from mc.core import REPO, HarnessError, Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points
from mc.wheels import member
from mc.zygote import Zygote, api
from variantlib.variants_json import VariantsJson

LEVEL = "fault_enumeration"
PRELOAD = "native/fault.c"
RULE = ("for every scenario and every kind of fault: the operations a command does on the file system (creating, writing, closing, renaming, removing, "
        "changing attributes; reading for read errors; executed lines for interrupts) are counted, and the command is run once for every n with the fault at "
        "the n-th of them: killed before it, killed with half of it done, failing once, failing from there on, interrupted, done in part; then the files are "
        "compared with the complete old and new contents and the command is run again. Pairs of an error and a later kill are enumerated as well. An outcome "
        "is the state of the outputs with the exit status.")
ASSUMPTIONS = ["operations reach the disk in order once done (no power failure)", "leftover temporary files are not judged"]

KINDS = {"none": 0, "kill": 1, "torn": 2, "nospace": 3, "ioerror": 4, "full": 5, "denied": 6, "interrupt": 7, "short": 8, "broken": 9, "readerror": 10, "two": 11}
Z = {}
NS = ["pla", "plb"]


def setup(e):
    install_entry_points(e)
    z = Zygote(e)
    py, _ = z.venv("v")
    sys.executable = str(py)
    for ns in NS:
        di = e.root / "sp" / f"{ns}_dist-1.5.dist-info"
        di.mkdir()
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {ns}-dist\nVersion: 1.5\n")
        (di / "entry_points.txt").write_text(f"[variant_plugins]\n{ns} = {plugin(ns)}\n")
    import pkgutil
    import variantlib
    for m in pkgutil.walk_packages(variantlib.__path__, "variantlib."):
        try:
            __import__(m.name)
        except Exception:  # noqa: BLE001, S110
            pass
    Z["lib"] = ctypes.CDLL(None)
    Z["lib"].fault_arm.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    Z["lib"].fault_mount.argtypes = [ctypes.c_char_p]
    Z["map"] = mmap.mmap(-1, 8192)
    Z["addr"] = ctypes.addressof(ctypes.c_char.from_buffer(Z["map"]))


def plugin(ns):
    return api({"ns": ns, "all": [["f", ["x", "y"], False]], "sup": [["f", ["x", "y"], False]], "aot": True, "i": 1})


# -------------------------------------------------------------------------------------------------- scenarios
BODY = [member("pkg/__init__.py", "a = 1\n" * 30), member("pkg/run", "#!/bin/sh\n", kind="exec", method="stored")]
BIG = [member("pkg/data.bin", [300000, 1], method="stored"), *BODY]
P = "pkg-1.0-py3-none-any"
VARIANTS = {"v1": c14.A, "v2": c14.B, "null": {}, **{f"m{i}": {"a": {"f": [f"val{i}.{j}" for j in range(50)]}} for i in range(6)}}


def whl(path, members=BODY, meta=None):
    body = c16.dist_info(c16.record_of(members), before=members)
    if meta:
        body.insert(-1, member(c16.META, json.dumps(c14.doc(c14.BASE, meta))))
    wheels.build(path, body)


def mk(name, members=BODY, old=None, props=(["-p", "a :: f :: x"]), label="lab", project="rich", src=f"{P}.whl", same=False, meta=None):
    def build(d):
        (d / "in").mkdir()
        (d / "out").mkdir()
        whl(d / "in" / src, members, meta)
        out = "in" if same else "out"
        dest = f"{out}/{P}-{label or 'null'}.whl"
        if old == "garbage":
            (d / dest).write_bytes(b"garbage, not an archive" * 300)
        elif old == "other":
            whl(d / dest, BIG, {label: c14.B})
        if project == "plugin":
            (d / "pyproject.toml").write_text(f"[variant.default-priorities]\nnamespace = ['pla']\n[variant.providers.pla]\nplugin-api = {plugin('pla')!r}\nrequires = ['mcplug']\ninstall-time = false\n")
        else:
            (d / "pyproject.toml").write_text(c16.PROJECTS[project][0])
        args = ["make-variant", "-f", d / "in" / src, "-o", d / out, "--no-isolation", "--pyproject-toml", d / "pyproject.toml", *props]
        if label:
            args += ["--variant-label", label]
        if project != "plugin":
            args += ["--skip-plugin-validation"]
        return args, [dest], True
    return {name: build}


def unmk(name, old=None, same=False, members=BODY, label="v1"):
    def build(d):
        (d / "in").mkdir()
        (d / "out").mkdir()
        out = d / ("in" if same else "out")
        whl(d / "in" / f"{P}-{label}.whl", members, {label: VARIANTS[label]})
        if old:
            whl(out / f"{P}.whl", BIG)
        return ["unmake-variant", "-f", d / "in" / f"{P}-{label}.whl", "-o", out], [str((out / f"{P}.whl").relative_to(d))], True
    return {name: build}


def index(d, variants, name="pkg-1.0-variants.json"):
    (d / name).write_text(VariantsJson(c14.doc(c14.BASE, variants)).to_str())


def gen_index(name, versions):
    """versions: what there is of each version: labels, and the index (None, garbage, same or a list of labels)"""
    def build(d):
        d = d / "w"
        d.mkdir()
        for v, (labels, old) in versions.items():
            for lab in labels:
                whl(d / f"pkg-{v}-py3-none-any-{lab}.whl", BODY, {lab: VARIANTS[lab]})
            if old == "garbage":
                (d / f"pkg-{v}-variants.json").write_bytes(b"\0garbage" * 900)
            elif old is not None:
                index(d, {"old": c14.C} if old == "stale" else {lab: VARIANTS[lab] for lab in (labels if old == "same" else old)}, f"pkg-{v}-variants.json")
        return ["generate-index-json", "-d", d], [f"w/pkg-{v}-variants.json" for v, (labels, _) in versions.items() if labels], True
    return {name: build}


def add_wheel(name, exists=False, opts=(), other_in=False, have=None):
    def build(d):
        (d / "w").mkdir()
        (d / "out").mkdir()
        whl(d / "w" / f"{P}-v1.whl", BODY, {"v1": c14.A})
        out = d / "out/pkg-1.0-variants.json"
        if exists:
            index(d / "out", {"old": c14.C, "more": c14.B} if have is None else {lab: VARIANTS[lab] for lab in have})
        if other_in:
            index(d / "w", {"old": c14.C})
        args = ["add-wheel-to-index-json", "-f", d / "w" / f"{P}-v1.whl", "-o", d / "out", *[o for o in opts]]
        if "-i" in opts:
            args[args.index("-i") + 1:args.index("-i") + 1] = [(d / "w/pkg-1.0-variants.json") if other_in else out]
        return args, ["out/pkg-1.0-variants.json"], "-w" in opts
    return {name: build}


TOML = """# a comment
[project]
name = 'x'  # another

[variant.default-priorities]
namespace = ['aa', 'bb']

[variant.providers.aa]
requires = ['q']
plugin-api = 'q:Q'  # why

[variant.providers.bb]
requires = ['r']
plugin-api = 'r:R'

[tool.other]
x = [1,
  2]
"""


def update(name, *opts, crlf=False, text=TOML):
    def build(d):
        (d / "pyproject.toml").write_bytes((text.replace("\n", "\r\n") if crlf else text).encode())
        return ["update-pyproject-toml", "-f", d / "pyproject.toml", *opts], ["pyproject.toml"], True
    return {name: build}


V2 = ["v1", "v2"]
SCENARIOS = {
    **mk("make"), **mk("make over garbage", old="garbage"), **mk("make over another", old="other"), **mk("make over another, big", BIG, old="other"), **mk("make big", BIG),
    **mk("make again in place", src=f"{P}-lab.whl", same=True, meta={"lab": c14.B}), **mk("make null", props=["--null-variant"], label=None), **mk("make null in place", props=["--null-variant"], label=None, src=f"{P}-null.whl", same=True, meta={"null": {}}),
    **mk("make with plugin", props=["-p", "pla :: f :: x"], project="plugin"), **mk("make beside the input", same=True),
    **unmk("unmake"), **unmk("unmake over another", old=True), **unmk("unmake beside the input", old=True, same=True), **unmk("unmake big", members=BIG),
    **unmk("unmake null", label="null", old=True),
    **gen_index("index", {"1.0": (V2, None), "2.0": (V2, None)}), **gen_index("index over stale", {"1.0": (V2, "stale"), "2.0": (V2, None)}), **gen_index("index of three", {"1.0": (V2, "stale"), "2.0": (V2, None), "3.0": (V2, "stale")}),
    **gen_index("index of one", {"1.0": (["v1"], "stale")}), **gen_index("index of null", {"1.0": (["null"], "stale")}), **gen_index("index over garbage", {"1.0": (["null", "v2"], "garbage"), "2.0": ([], "stale")}),
    **gen_index("index again", {"1.0": (V2, "same"), "2.0": (["v1"], "same")}), **gen_index("index growing", {"1.0": (V2, ["v1"]), "2.0": (["v1"], V2)}), **gen_index("index, long", {"1.0": ([f"m{i}" for i in range(6)], ["m1"])}),
    **add_wheel("add again", True, ["-i", "-w"], have=["v1"]), **add_wheel("add to nothing", True, ["-i", "-w"], have=[]), **add_wheel("add to long", True, ["-i", "-w"], have=[f"m{i}" for i in range(6)]),
    **add_wheel("add"), **add_wheel("add over", True, ["-w"]), **add_wheel("add to and over", True, ["-i", "-w"]), **add_wheel("add to another", False, ["-i"], True), **add_wheel("add to another and over", True, ["-i", "-w"], True),
    **update("delete", "-d", "aa"), **update("add", "-a", "pla"), **update("add and delete, CRLF", "-a", "pla", "plb", "-d", "bb", crlf=True), 
    **update("add again", "-a", "pla", text=TOML.replace("bb", "pla")), **update("delete what is not there", "-d", "zz"), **update("add, long", "-a", "pla", text=TOML + "# text\n" * 3000),
    **update("delete all", "-d", "aa", "bb"), **update("add to nothing", "-a", "plb", text="[project]\nname = 'x'\n"),
}


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def norm(path):
    if path.suffix != ".whl":
        return path.read_bytes()
    try:
        return [(tuple(a for k, a in enumerate(m[0]) if not (k == 1 and m[0][0] == c16.META)), m[1]) for m in wheels.read(path)]
    except Exception as exc:  # noqa: BLE001
        return f"not readable: {exc!r}"


FILES = (str(REPO / "variantlib/commands") + "/", str(REPO / "variantlib") + "/", "/shutil.py", "/tempfile.py", "/contextlib.py", "/zipfile/__init__.py", "/pathlib.py")


def execute(args, n=0, kind="none", n2=0, files=()):
    """run the command in a child with this fault -> (status or signal, operations, faults that struck)"""
    shared, lib = Z["map"], Z["lib"]
    shared[:8] = bytes(8)
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            gc.disable()
            # the directories in use are taken for file systems of their own
            for d in (env().root / "scn", *(p for p in (env().root / "scn").iterdir() if p.is_dir()), tempfile.gettempdir()):
                lib.fault_mount(os.fsencode(d))
            if kind == "line":
                counter = [0]

                def trace(frame, event, arg):
                    name = frame.f_code.co_filename
                    if not any(f in name for f in files):
                        return None
                    if event == "line":
                        counter[0] += 1
                        shared[:4] = counter[0].to_bytes(4, "little")
                        if counter[0] == n:
                            shared[4] = 1
                            sys.settrace(None)
                            raise KeyboardInterrupt
                    return trace
                sys.settrace(trace)
            else:
                lib.fault_arm(Z["addr"], n, KINDS[kind], n2)
            try:
                status = cli(*map(str, args))[0]
            except BaseException as exc:  # noqa: BLE001
                if os.environ.get("MC_STDERR"):
                    print(repr(exc), file=sys.stderr)
                status = 98
            sys.settrace(None)
            gc.collect()
            lib.fault_disarm()
        finally:
            os._exit(status)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), int.from_bytes(shared[:4], "little"), int.from_bytes(shared[4:8], "little")


class Scenario:
    def __init__(self, name):
        self.d = env().root / "scn"
        self.t = env().root / "tmpl"
        shutil.rmtree(self.d, ignore_errors=True)
        shutil.rmtree(self.t, ignore_errors=True)
        self.d.mkdir()
        self.args, self.outs, self.again = SCENARIOS[name](self.d)
        shutil.copytree(self.d, self.t)
        gc.collect()
        gc.freeze()  # the children only look at what they allocate
        self.old = tree(self.d)
        status, self.n, _ = execute(self.args)
        check_eq(status, 0, f"{name}: exit status without any fault")
        self.new = {o: norm(self.d / o) for o in self.outs}
        self.after = sorted(tree(self.d))
        check_eq(self.after, sorted({*self.old, *self.outs}), "files without any fault")
        for f, data in self.old.items():
            check(f in self.outs or (self.d / f).read_bytes() == data, f"{f} was changed")
        self.clean = set()

    def reset(self):
        shutil.rmtree(self.d)
        shutil.copytree(self.t, self.d)

    def judge(self, what, status, must_succeed=False, interrupted=False):
        states = []
        got = tree(self.d)
        for f, data in self.old.items():
            if f not in self.outs:
                check(got.get(f) == data, f"{what}: the input {f} was changed or removed")
        for o in self.outs:
            if got.get(o) == self.old.get(o) and status != 0:
                states.append("old")
            elif o in got and norm(self.d / o) == self.new[o]:
                states.append("new")
            else:
                check(got.get(o) != self.old.get(o), f"{what}: status {status}, but {o} was not written")
                check(o in got, f"{what}: status {status}, and {o} is gone")
                check(False, lambda: f"{what}: status {status}, and {o} has neither the old nor the new contents: {str(norm(self.d / o))[:1000]}")
        check(not must_succeed or status == 0, f"{what}: failed with {status}")
        if status != 0:
            self.rerun(what, tuple(states), got)
        return status, tuple(states)

    def rerun(self, what, states, got):
        if got == self.old:
            # exactly as before: the normal run starts from here
            return
        args = self.args
        if not self.again and "new" in states:
            status = execute(args)[0]
            check(status != 0, f"{what}: run again over the existing output")
        else:
            status = execute(args)[0]
            check_eq(status, 0, f"{what}: status of the next run")
        for o in self.outs:
            check((self.d / o).is_file() and norm(self.d / o) == self.new[o], f"{what}: {o} after the next run")
        now = tree(self.d)
        for f, data in self.old.items():
            check(f in self.outs or now.get(f) == data, f"{what}: the input {f} after the next run")


def run_fault(case):
    name, kind, mode, first, step = case
    s = Scenario(name)
    seen, runs = set(), 0
    extra = {"wait": 0}
    if kind == "two":
        total = s.n
        for n in range(1, total + 1):
            for m in itertools.count(n + 1):
                s.reset()
                status, _, hits = execute(s.args, n, kind, m)
                runs += 1
                seen.add((status, s.judge(f"{name}: error at {n}, kill at {m}", status)))
                if hits < 2:
                    break
    else:
        files = (FILES[:1], FILES[:2], FILES)[mode] if kind == "line" else ()
        for n in itertools.count(first, step):
            s.reset()
            status, _, hits = execute(s.args, n, kind, mode, files)
            if not hits:
                check_eq(status, 0, f"{name}: status without a fault (after {n - 1})")
                break
            runs += 1
            seen.add((status, s.judge(f"{name}: {kind} ({mode}) at {n}", status, must_succeed=kind == "short")))
            if n > 20000:
                raise HarnessError("no end")
        if runs == 0 and kind not in ("denied", "nospace"):
            raise HarnessError("no fault struck")
    shutil.rmtree(s.d)
    shutil.rmtree(s.t)
    return Outcome((name, sorted(map(str, seen))), evaluations=runs)


# scenarios for exploration line by line within the library code
LINES = ["make", "make over garbage", "make over another", "make again in place", "make null in place", "make with plugin", "unmake", "unmake over another", "unmake beside the input", "index", "index of one",
         "add", "add over", "add to and over", "add to another", "delete", "add and delete, CRLF", "delete all", "add to nothing"]


def gen_fault(tier):
    def gen():
        for kind in ("kill", "torn", "ioerror", "full", "broken", "interrupt", "short", "readerror", "nospace", "denied"):
            for name in SCENARIOS:
                for mode in ((0, 1, 2) if kind in ("torn", "short") and tier != "quick" else (0,)):
                    yield [name, kind, mode, 1, 1]
        for name in SCENARIOS:
            if not name.endswith(", long"):
                yield [name, "line", 0, 1, 1]
        if tier != "quick":
            parts = 5
            for first in range(1, parts + 1):
                for name in SCENARIOS:
                    if name in LINES:
                        yield [name, "line", 1, first, parts]
                    if name in ("make again in place", "unmake over another", "add to and over", "add and delete, CRLF"):
                        yield [name, "line", 2, first, parts]
            for name in SCENARIOS:
                yield [name, "two", 0, 1, 1]
    return gen


# --------------------------------------------------------------------------------------------- damaged inputs
def run_damaged(case):
    name, target, change, lo, hi = case
    s = Scenario(name)
    if target not in s.old:
        [target] = [f for f in s.old if f.endswith(target)]
    data = s.old[target]
    seen, runs = set(), 0
    for pos in range(lo, min(hi, len(data))):
        for bad in ([data[:pos]] if change == "cut" else [data[:pos] + bytes([data[pos] ^ x]) + data[pos + 1:] for x in (1, 0x80, 0xFF)] if change == "flip" else [data[:pos] + b"\0" * (len(data) - pos)]):
            s.reset()
            (s.d / target).write_bytes(bad)
            try:
                status = cli(*map(str, s.args))[0]
            except Exception:  # noqa: BLE001
                status = 97
            runs += 1
            seen.add(status)
            got = tree(s.d)
            what = f"{name}: {target} with {change} at {pos}"
            for f, was in {**s.old, target: bad}.items():
                check(f in got, f"{what}: status {status}, and {f} is gone")
                if f in s.outs and status == 0:
                    continue
                ok = got[f] == was or (f in s.outs and f != target and norm(s.d / f) == s.new[f])
                check(ok, f"{what}: status {status}, and {f} was changed")
            for f in got:
                check(f in s.old or (f in s.outs and (status == 0 or norm(s.d / f) == s.new[f])), f"{what}: status {status}, and {f} was left behind")
    gc.collect()
    return Outcome((name, target, change, sorted(map(str, seen))), evaluations=runs)


def gen_damaged(tier):
    step = 60
    wheel = [("make over another", f"{P}.whl", 1400), ("unmake", f"{P}-v1.whl", 1900), ("add over", f"{P}-v1.whl", 1900), ("index over stale", "w/pkg-2.0-py3-none-any-v2.whl", 1900)]
    text = [("add to and over", "out/pkg-1.0-variants.json", 1500), ("add to another", "w/pkg-1.0-variants.json", 1500), ("make over another", "pyproject.toml", 500), ("add", "pyproject.toml", 0), ("delete", "pyproject.toml", 300)]
    for name, target, size in wheel + text:
        for change in ("cut", "flip") if tier == "quick" else ("cut", "flip", "zero"):
            for lo in range(0, size, step):
                yield [name, target, change, lo, lo + step]


def spaces(tier):
    return [
        Space("faults", gen_fault(tier), run_fault, setup=setup, hang=600),
        Space("damaged", lambda: gen_damaged(tier), run_damaged, setup=setup),
    ]
