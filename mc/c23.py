"""C23: calls made at the same time, or while another one is suspended, give the answers they give alone."""
from __future__ import annotations

import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from pathlib import Path

from mc import c14, ref, wheels
from mc.core import REPO, HarnessError, Outcome, Space, check, check_eq, env, in_child
from mc.util import install_entry_points, snap, text, tups, vd, vp
from mc.wheels import member, name_of
from mc.zygote import Zygote, api
from variantlib.api import check_variant_supported, get_variant_environment_dict, get_variant_label, get_variants_by_priority, make_variant_dist_info, validate_variant
from variantlib.commands.main import main
from variantlib.configuration import VariantConfiguration
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.resolver.filtering import filter_variants_by_features, filter_variants_by_namespaces, filter_variants_by_property, remove_duplicates
from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "model_checking"
RULE = ("stateless model checking of the real code: two calls run in two threads of one process under a controlled scheduler that lets exactly one of them "
        "execute and switches before a chosen line of variantlib; every schedule within the preemption bound is run, each in a forked process that starts from "
        "the same state. A state is the pair of the threads' positions where a switch happens, a transition one line executed. Suspended calls: every "
        "interleaving of the steps of generators and context managers within one thread. Every call, and both again afterwards, must give what they give alone.")
ASSUMPTIONS = ["threads switch between the lines of variantlib (thorough: also between the bytecodes within a line); the standard library's own shared state is trusted",
               "two calls that change the same file or object are not covered, except for writing the same output",
               "stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

ROOT = f"{REPO}/variantlib/"
C = {}  # shared objects of the calls, made before any schedule starts


# ------------------------------------------------------------------------------------------------- scheduler
class Scheduler:
    """run two functions in threads, switching as planned: plan = [(thread, number of steps or None)...]"""
    STUCK = 0.4

    def __init__(self, plan, opcodes=False):
        self.plan = list(plan)
        self.opcodes = opcodes
        self.steps = [0, 0]
        self.done = [False, False]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.left = None
        self.switches = []
        self.log = None
        self.free = False  # a thread was blocked: let them run

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                if self.log is not None:
                    self.log.append((frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lasti if self.opcodes else frame.f_lineno))
                self.step(tid)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def step(self, tid):
        if self.left is not None and not self.free:
            if self.left == 0:
                self.switch(tid)
            else:
                self.left -= 1
        self.steps[tid] += 1

    def next_segment(self):
        """-> thread to run"""
        while self.plan:
            tid, n = self.plan.pop(0)
            if not self.done[tid]:
                self.left = n
                return tid
        self.left = None
        for tid in (0, 1):
            if not self.done[tid]:
                return tid
        return None

    def switch(self, tid):
        nxt = self.next_segment()
        if nxt == tid:
            if self.left == 0:
                self.switch(tid)
            return
        self.switches.append((self.steps[0], self.steps[1]))
        if nxt is None:
            return
        self.go[nxt].release()
        self.wait(tid)

    def wait(self, tid):
        """until it is our turn; if the other thread does not get on (waiting for a lock that we hold), go on as well"""
        last, since = None, time.monotonic()
        while not self.go[tid].acquire(timeout=0.05 if not self.free else 0.01):
            if self.free:
                return
            now = self.steps[1 - tid]
            if now != last:
                last, since = now, time.monotonic()
            elif time.monotonic() - since > self.STUCK and self.steps[tid]:
                self.free = True
                return

    def run(self, fns):
        out = [None, None]

        def body(tid):
            sys.settrace(self.tracer(tid))
            self.go[tid].acquire()
            try:
                out[tid] = call(fns[tid])
            finally:
                self.done[tid] = True
                nxt = self.next_segment() if not self.free else None
                if nxt is not None:
                    self.switches.append((self.steps[0], self.steps[1]))
                    self.go[nxt].release()
        # NB: code must not be instrumented anew while a thread is in the middle of it (that crashes CPython 3.12), so
        # tracing is on from before the threads start until after they end
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True
        sys.settrace(lambda *a: None)
        threads = [threading.Thread(target=body, args=(k,)) for k in (0, 1)]
        for t in threads:
            t.start()
        self.go[self.next_segment()].release()
        for k, t in enumerate(threads):
            deadline = time.monotonic() + 60
            while t.is_alive():
                t.join(0.5)
                if self.free:
                    for s in self.go:
                        s.release()
                check(time.monotonic() < deadline, "the calls do not end")
        sys.settrace(None)
        return out


def call(fn):
    try:
        return ("ok", fn())
    except Exception as exc:  # noqa: BLE001
        return ("raised", type(exc).__name__, str(exc)[:300])
    except SystemExit as exc:
        return ("exit", str(exc.code))


# ------------------------------------------------------------------------------------------------- the calls
def feats(*fs):
    return [[f, ["x", "y"], f == "m"] for f in fs]


def provider(ns, *fs, **more):
    return {"plugin-api": api({"ns": ns, "all": feats(*fs), "sup": [[f, v[:1], m] for f, v, m in feats(*fs)], "aot": True, "i": 40}), "requires": [f"r-{ns}"], **more}


DOC = {
    "default-priorities": {"namespace": ["a", "s"], "feature": {"a": ["g", "f"]}, "property": {"s": {"f": ["2"]}}},
    "providers": {"a": provider("a", "f", "g"), "s": {"install-time": False}}, "static-properties": {"s": {"f": ["1", "2"]}},
    "variants": {"null": {}, "one": {"a": {"f": ["x"]}}, "two": {"a": {"f": ["x"], "g": ["x"]}}, "three": {"s": {"f": ["1"]}}, "four": {"s": {"f": ["2"]}, "a": {"g": ["x"]}}, "no": {"a": {"f": ["y"]}}},
}
DOC2 = {
    "default-priorities": {"namespace": ["b", "a"], "feature": {"a": ["f", "g"]}},
    "providers": {"b": provider("b", "m"), "a": provider("a", "f", "g")},
    "variants": {"one": {"b": {"m": ["x"]}}, "two": {"a": {"g": ["x"]}, "b": {"m": ["x"]}}, "lab": {"a": {"f": ["x"]}}},
}
BAD = {"default-priorities": {"namespace": ["a"]}, "providers": {"a": {"requires": "x"}}, "variants": {}}
AOT = {"default-priorities": {"namespace": ["c", "d"]}, "providers": {"c": provider("c", "f", "g", **{"install-time": False}), "d": provider("d", "f")}}
BROKEN = {"default-priorities": {"namespace": ["k"]}, "providers": {"k": {"plugin-api": api({"ns": "k", "sup": [["f", ["V!"], False]], "all": [], "i": 41}), "requires": ["k"]}}, "variants": {"one": {"k": {"f": ["x"]}}}}
PROJECT = "[project]\nname = 'pkg'\n[variant.default-priorities]\nnamespace = ['a', 's']\n[variant.providers.a]\nrequires = ['p']\nplugin-api = 'p:Q'\n[variant.providers.s]\ninstall-time = false\n[variant.static-properties.s]\nf = ['1']\n"
DI = "pkg-1.0.dist-info"


def setup(e):
    z = Zygote(e)
    C["py"], _ = z.venv("v")
    sys.executable = str(C["py"])
    # a setting that plugin processes must not inherit, which is shared by all threads
    os.environ["PYTHONSAFEPATH"] = "1"
    install_entry_points(e)
    di = e.root / "sp" / "plug-1.0.dist-info"
    di.mkdir()
    (di / "METADATA").write_text("Metadata-Version: 2.1\nName: plug\nVersion: 1.0\n")
    (di / "entry_points.txt").write_text("[variant_plugins]\nx = " + DOC["providers"]["a"]["plugin-api"] + "\ny = " + DOC2["providers"]["b"]["plugin-api"] + "\n")
    (e.root / "cwd/variants.toml").write_text("namespace_priorities = ['s', 'b']\n[feature_priorities]\na = ['f']\n[property_priorities.b]\nm = ['y']\n")
    C.update(make_shared())
    for k, label in enumerate(("one", "two")):
        path = e.root / f"pkg-1.0-{k}-py3-none-any.whl"
        meta = b"Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n"
        wheels.build(path, [member("pkg/__init__.py", f"x = {k}\n"), member(f"{DI}/METADATA", meta), member(f"{DI}/RECORD", f"pkg/__init__.py,,\n{DI}/METADATA,,\n{DI}/RECORD,,\n".encode())])
        C[f"wheel{k}"] = path
        v = e.root / f"pkg-1.0-{k}-py3-none-any-{label}.whl"
        doc = {**{key: DOC[key] for key in ("default-priorities", "providers", "static-properties")}, "variants": {label: DOC["variants"][label]}}
        wheels.build(v, [member("pkg/__init__.py", f"x = {k}\n"), member(f"{DI}/METADATA", meta), member(f"{DI}/variant.json", json.dumps(doc)),
                         member(f"{DI}/RECORD", f"pkg/__init__.py,,\n{DI}/METADATA,,\n{DI}/variant.json,,\n{DI}/RECORD,,\n".encode())])
        C[f"vwheel{k}"] = v


def make_shared():
    """objects shared by the calls, never used before"""
    v = {k: vd([(n, f, x) for n, fs in d.items() for f, xs in fs.items() for x in xs]) for k, d in DOC["variants"].items()}
    return {
        "doc": DOC, "doc2": DOC2, "bad": BAD,
        "info": VariantsJson(DOC), "info2": VariantsJson(DOC2), "aot": VariantPyProjectToml({"variant": AOT}), "descs": list(v.values()), "desc": vd([("a", "f", "x"), ("a", "g", "y"), ("b", "m", "x"), ("zz", "f", "x"), ("s", "f", "1")]),
        "sup": [vp(t) for t in (("a", "f", "x"), ("a", "g", "x"), ("s", "f", "2"), ("s", "f", "1"))],
    }


def tree(d):
    """content of a directory: archives by content, JSON by value"""
    out = {}
    for p in sorted(d.rglob("*")):
        rel = str(p.relative_to(d))
        if p.is_dir():
            out[rel] = "dir"
        elif p.suffix == ".whl":
            out[rel] = [(name_of(m), m[1]) for m in wheels.read(p)]
        elif p.suffix == ".json":
            out[rel] = json.loads(p.read_text())
        else:
            out[rel] = p.read_text()
    return repr(out)


def cmd(d, *args):
    """run a command -> content of the directory"""
    status = 0
    try:
        main([str(a) for a in args])
    except SystemExit as exc:
        status = exc.code
    return f"{status} {tree(d) if d is not None else ''}"


def make_variant(d, k, *props, to=None):
    (d / "pyproject.toml").write_text(PROJECT)
    return cmd(d, "make-variant", "-f", C[f"wheel{k}"], "-o", to or d, "--no-isolation", "--skip-plugin-validation", "--pyproject-toml", d / "pyproject.toml", "-p", *props)


def index(d, *ks, show=True):
    for k in ks:
        if not (d / C[f"vwheel{k}"].name).exists():
            shutil.copy(C[f"vwheel{k}"], d)
    return cmd(d if show else None, "generate-index-json", "-d", d)


def loader_calls(loader):
    with loader as ld:
        return repr((ld.namespaces, [(n, tups_of(c)) for n, c in ld.get_supported_configs().items()], ld.plugin_api_values))


def tups_of(cfg):
    return [(f.name, tuple(f.values), f.multi_value) for f in cfg.configs]


def result_of(r):
    return repr((sorted((p.to_str(), v) for p, v in r.results.items()), sorted(f.to_str() for f in r.multi_value_violations), r.is_valid(), [p.to_str() for p in r.invalid_properties], [p.to_str() for p in r.unknown_properties]))


def merged(*docs):
    out = None
    for label, doc in docs:
        one = VariantDistInfo(json.dumps({**doc, "variants": {label: doc["variants"][label]}}), label)
        if out is None:
            out = VariantsJson(one)
        else:
            out.merge(one)
    return out.to_str()


OPS = {
    # calls on shared or equal inputs, by weight (number of lines executed)
    "hash": lambda d: C["desc"].hexdigest,
    "label": lambda d: (get_variant_label(C["desc"]), get_variant_label(C["descs"][1], "lab"), repr(sorted((k, sorted(v) if isinstance(v, set) else v) for k, v in get_variant_environment_dict(C["desc"], "l").items()))),
    "describe": lambda d: (vd([("b", "f", "x"), ("a", "f", "x")]).hexdigest, VariantProperty.from_str("a :: f :: x").to_str(), VariantDescription.from_dict({"a": {"f": ["x"]}}).to_dict()),
    "config": lambda d: (VariantConfiguration.namespace_priorities, VariantConfiguration.feature_priorities, VariantConfiguration.property_priorities),
    "filter": lambda d: [v.hexdigest for v in filter_variants(C["descs"], C["sup"])],
    "filter2": lambda d: [v.hexdigest for v in filter_variants(C["descs"][::-1] + C["descs"], C["sup"][:2], ["s"], [VariantFeature("a", "g")])],
    "sort": lambda d: [v.hexdigest for v in sort_and_filter_supported_variants(C["descs"], C["sup"], ["s", "a"], {"a": ["g"]}, {"s": {"f": ["1"]}})],
    "sort2": lambda d: [v.hexdigest for v in sort_and_filter_supported_variants(C["descs"][::-1], C["sup"][::-1], ["a", "s"])],
    "parse": lambda d: VariantsJson(C["doc"]).to_str(),
    "parse2": lambda d: VariantsJson(C["doc2"]).to_str(),
    "parse bad": lambda d: VariantsJson(C["bad"]).to_str(),
    "parse project": lambda d: repr(snap(VariantPyProjectToml({"variant": AOT}).providers)),
    "to_str": lambda d: C["info"].to_str(),
    "merge": lambda d: merged(("one", DOC), ("two", DOC), ("three", DOC)),
    "merge bad": lambda d: merged(("one", DOC2), ("two", DOC2), ("two", DOC)),
    "list loader": lambda d: loader_calls(ListPluginLoader([DOC["providers"]["a"]["plugin-api"], DOC2["providers"]["b"]["plugin-api"]], C["py"])),
    "list loader 2": lambda d: loader_calls(ListPluginLoader([DOC2["providers"]["b"]["plugin-api"], DOC["providers"]["a"]["plugin-api"]])),
    "entry points": lambda d: loader_calls(EntryPointPluginLoader()),
    "loader": lambda d: loader_calls(PluginLoader(C["info2"], C["py"])),
    "broken plugin": lambda d: get_variants_by_priority(variants_json=BROKEN, venv_python_executable=C["py"]),
    "resolve": lambda d: get_variants_by_priority(variants_json=C["info"], venv_python_executable=C["py"]),
    "resolve text": lambda d: get_variants_by_priority(variants_json=C["doc"], venv_python_executable=str(C["py"])),
    "resolve2": lambda d: get_variants_by_priority(variants_json=C["doc2"], venv_python_executable=C["py"]),
    "validate": lambda d: result_of(validate_variant(C["desc"], C["info2"], C["py"])),
    "validate2": lambda d: result_of(validate_variant(C["descs"][5], C["info"], C["py"])),
    "supported": lambda d: [check_variant_supported(vdesc=v, variant_info=C["info"], venv_python_executable=C["py"]) for v in C["descs"][1:3]],
    "write": lambda d: make_variant_dist_info(vd([("c", "f", "x")]), C["aot"], venv_python_executable=C["py"]),
    "write2": lambda d: make_variant_dist_info(vd([("d", "f", "x")]), C["aot"], variant_label="lab", venv_python_executable=C["py"]),
    "make": lambda d: make_variant(d, 0, "a :: f :: x"),
    "make2": lambda d: make_variant(d, 1, "s :: f :: 1", "a :: f :: y"),
    "make same output": lambda d: make_variant(d, 0, "a :: f :: x", to=d.parent),
    "unmake": lambda d: cmd(d, "unmake-variant", "-f", C["vwheel0"], "-o", d),
    "index": lambda d: index(d, 0, 1),
    "index same": lambda d: index(d.parent, 0, 1, show=False),
    "update": lambda d: ((d / "pyproject.toml").write_text(PROJECT), cmd(d, "update-pyproject-toml", "-f", d / "pyproject.toml", "-a", "b", "-d", "s"))[1],
    "update2": lambda d: ((d / "pyproject.toml").write_text("[project]\nname='q'\n"), cmd(d, "update-pyproject-toml", "-f", d / "pyproject.toml", "-a", "a"))[1],
    "analyze": lambda d: cmd(d, "analyze-wheel", "-i", C["vwheel0"]),
}
SAME = {"make same output", "index same"}
NO_STEPS = 10**9


def op(name, d):
    d.mkdir(parents=True)
    return lambda: OPS[name](d)


def quiet():
    sys.stdout = sys.stderr = io.StringIO()


RECORDED = {}  # request to a plugin process -> its answer
REAL_RUN = subprocess.run
STARTING = []  # called when a process is started


def recorded_run(*args, **kwargs):
    """answer requests to the stand-in interpreter that were made before with the same script, arguments, input and surroundings"""
    for notify in STARTING:
        notify()
    try:
        cmd = [str(x) for x in args[0]]
        script = Path(cmd[1])
        key = (cmd[0], tuple((p.name, p.read_bytes()) for p in sorted(script.parent.iterdir()) if p.is_file()), script.name, tuple(cmd[2:]), repr(sorted(kwargs.items())),
               repr(sorted((dict(os.environ) if kwargs.get("env") is None else kwargs["env"]).items())), os.getcwd())
    except Exception:  # noqa: BLE001
        return REAL_RUN(*args, **kwargs)
    if key not in RECORDED:
        r = REAL_RUN(*args, **kwargs)
        if r.returncode == 0:
            RECORDED[key] = (r.stdout, r.stderr)
        return r
    return subprocess.CompletedProcess(args[0], 0, *RECORDED[key])


def child(fn):
    """run in a forked process"""
    def body():
        quiet()
        subprocess.run = recorded_run
        known = set(RECORDED)
        r = fn()
        return r, {k: v for k, v in RECORDED.items() if k not in known}
    r, new = in_child(body)
    RECORDED.update(new)
    return r


def place(text, d):
    """the result does not depend on where it was computed"""
    return repr(text).replace(str(d), "<d>")


def one(name, base, k):
    """run the call alone, here and now"""
    d = base / "shared" / str(k) if name in SAME else base / str(k)
    return place(call(op(name, d)), d)


ALONE = {}


def alone(name):
    """-> the result"""
    if name not in ALONE:
        def plain():
            base = env().fresh()
            r = [one(name, base, k) for k in (0, 1)]
            shutil.rmtree(base)
            return r
        r = child(plain)
        if name not in SAME:
            check_eq(r[1], r[0], f"{name}: second call")
        ALONE[name] = r[0]
    return ALONE[name]


def points(name, warm, opcodes, first, last, within=None):
    """the steps of the call to switch before: the first and last occurrences of every line (within so many steps of a process being started); and the end"""
    def trace():
        base = env().fresh()
        if warm:
            one(name, base, "warm")
        s = Scheduler([(0, None)], opcodes)
        s.log, started = [], []
        STARTING.append(lambda: started.append(len(s.log)))
        s.run([op(name, base / "x" / "0"), lambda: None])
        STARTING.clear()
        shutil.rmtree(base)
        where = {}
        for i, at in enumerate(s.log):
            if within is None or any(-within < i - p < within for p in started):
                where.setdefault(at, []).append(i)
        return sorted({i for at, steps in where.items() for i in steps[:first] + (steps[-last:] if last else [])} | {len(s.log)}), len(s.log)
    return child(trace)


def schedule(a, b, plan, warm, opcodes, what):
    """-> (switches, steps)"""
    def body():
        base = env().fresh()
        if warm:
            for k, name in enumerate((a, b)):
                one(name, base / "warm", k)
        dirs = [base / "shared" / str(k) if name in SAME else base / str(k) for k, name in enumerate((a, b))]
        before = snap([C[k] for k in ("info", "info2", "aot", "descs", "desc", "sup", "doc", "doc2")])
        process = (dict(os.environ), os.getcwd(), list(sys.path), sys.stdout, sys.stderr)
        s = Scheduler(plan, opcodes)
        got = s.run([op(name, d) for name, d in zip((a, b), dirs)])
        for name, r, d in zip((a, b), got, dirs):
            if name in SAME:
                check(r[0] == "ok" and r[1].startswith("0 "), lambda: f"{what}: {name}: {r}")
            else:
                check_eq(place(r, d), alone(name), f"{what}: {name}")
        if a in SAME or b in SAME:
            (base / "want").mkdir()
            for k, name in enumerate((a, b)):
                if name in SAME:
                    one(name, base / "want", k)
            check_eq(tree(base / "shared"), tree(base / "want/shared"), f"{what}: files in the end")
        check_eq(snap([C[k] for k in ("info", "info2", "aot", "descs", "desc", "sup", "doc", "doc2")]), before, f"{what}: inputs")
        check((dict(os.environ), os.getcwd(), list(sys.path), sys.stdout, sys.stderr) == process, f"{what}: environment variables, working directory, search path or standard streams were left changed")
        for k, name in enumerate((a, b)):
            if name not in SAME:
                check_eq(one(name, base / "after", k), alone(name), f"{what}: {name} once more, afterwards")
        shutil.rmtree(base)
        return s.switches, sum(s.steps)
    return child(body)


def run_pair(case):
    a, b, warm, bound, opcodes, (first, last, *within), (part, parts) = case
    for name in (a, b):
        alone(name)
    at, n = points(a, warm, opcodes, first, last, *within)
    states, transitions, count = set(), 0, 0
    if bound == 1:
        plans = ([(0, i), (1, None), (0, None)] for i in at)
    else:
        then = points(b, warm, opcodes, first, last, *within)[0]
        plans = ([(0, i), (1, j), (0, None), (1, None)] for i in at for j in then)
    for k, plan in enumerate(plans):
        if k % parts != part:
            continue
        sw, steps = schedule(a, b, plan, warm, opcodes, f"{a} / {b} {'warm' if warm else 'cold'}, schedule {plan}")
        states.update((a, b, warm, x) for x in sw)
        transitions += steps
        count += 1
    return Outcome((a, b, warm, bound, part, count), states=states, transitions=transitions, traces=count, evaluations=count)


LIGHT = ["hash", "label", "describe", "config", "filter", "filter2", "sort2", "sort", "parse bad", "parse project", "parse2", "parse", "to_str", "merge", "merge bad", "list loader", "list loader 2", "entry points", "loader", "broken plugin",
         "validate", "validate2", "write", "write2"]
BROAD = ["hash", "label", "describe", "config", "filter2", "sort2", "parse bad", "parse2", "to_str", "merge bad", "list loader", "entry points", "broken plugin", "validate", "write"]
SMALL = ["hash", "label", "describe", "config", "filter", "parse bad", "to_str"]
HEAVY = ["resolve", "resolve2", "supported", "make", "index", "unmake", "update", "analyze", "make same output", "index same", "resolve text", "make2", "update2"]
CROSS = [("sort", "sort2"), ("sort2", "sort"), ("filter", "filter2"), ("filter2", "filter"), ("resolve", "resolve2"), ("parse", "parse2"), ("parse", "parse bad"), ("merge", "parse2"), ("merge bad", "merge"), ("loader", "entry points"),
         ("list loader", "list loader 2"), ("validate", "validate2"), ("validate", "loader"), ("write", "write2"), ("config", "resolve"), ("hash", "label"), ("label", "describe"), ("make", "make2"), ("update", "update2"), 
         ("to_str", "merge"), ("broken plugin", "list loader"), ("list loader", "broken plugin"), ("parse project", "write"), ("describe", "sort2")]
MORE = [("unmake", "make"), ("supported", "resolve"), ("resolve2", "broken plugin"), ("make2", "index"), ("index", "make"), ("analyze", "make"), ("resolve text", "resolve"), ("update", "entry points"), ("index", "unmake"), ("index", "merge"), ("resolve", "config"), ("resolve2", "validate"),
        ("resolve2", "loader"), ("supported", "list loader"), ("make", "unmake"), ("make", "write"), ("update2", "update"), ("make2", "make"), ("resolve2", "resolve"), ("resolve", "sort"), ("resolve", "parse bad")]


def gen_pairs(tier):
    def gen():
        quick = tier == "quick"
        seen = set()

        def emit(a, b, warm, bound, opcodes, occ, parts):
            if (a, b, warm, bound, opcodes, *occ) not in seen:
                seen.add((a, b, warm, bound, opcodes, *occ))
                for part in range(parts):
                    yield [a, b, warm, bound, opcodes, occ, [part, parts]]
        occ = [1, 0] if quick else [1, 1]
        for name in LIGHT + (["index", "unmake", "analyze"] if quick else HEAVY):
            yield from emit(name, name, False, 1, False, occ, 8)
        for a, b in CROSS:
            yield from emit(a, b, False, 1, False, occ, 8)
        for a, b in [] if quick else MORE:
            yield from emit(a, b, False, 1, False, [1, 0], 8)
        for name in ("list loader", "validate", "config", "hash") + (() if quick else ("loader", "entry points", "resolve", "supported", "write", "broken plugin")):
            yield from emit(name, name, True, 1, False, occ, 8)
        yield from emit("hash", "hash", False, 2, False, occ, 1)
        yield from emit("to_str", "to_str", False, 2, False, occ, 8)
        yield from emit("list loader", "list loader 2", False, 2, False, [1, 0, 9 if quick else 60], 8 if quick else 16)
        if not quick:
            for a, b in itertools.combinations(BROAD, 2):
                yield from emit(a, b, False, 1, False, [1, 0], 8)
            for k, a in enumerate(SMALL):
                yield from emit(a, a, False, 2, False, [1, 0], 16)
                if k % 2:
                    yield from emit(a, SMALL[k - 1], False, 2, False, [1, 0], 16)
            for a in sorted(set(LIGHT) - {"sort2", "parse2", "write2", "validate2", "merge bad", "list loader 2", "filter2"}):
                yield from emit(a, a, False, 1, True, [1, 0], 16)
    return gen


# --------------------------------------------------------------------------------------------------- suspended
def loading(make):
    with make() as ld:
        yield list(ld.namespaces)
        yield [(n, tups_of(c)) for n, c in ld.get_supported_configs().items()]
        yield sorted(ld.plugin_api_values)
        yield [(n, tups_of(c)) for n, c in ld.get_supported_configs().items()]


def all_configs(make):
    with make() as ld:
        yield [(n, tups_of(c)) for n, c in ld.get_all_configs().items()]
        yield [(n, [p.to_str() for p in c.to_list_of_properties()]) for n, c in ld.get_supported_configs().items()]
        yield list(ld.namespaces)


def vdescs(gen):
    for v in gen:
        yield tups(v)


def merging(*docs):
    out = None
    for label, doc in docs:
        one = VariantDistInfo(json.dumps({**doc, "variants": {label: doc["variants"][label]}}), label)
        if out is None:
            out = VariantsJson(one)
        else:
            out.merge(one)
        yield out.to_str()


def editing():
    info = VariantDistInfo(C["aot"])
    yield info.to_str()
    info.variant_desc = vd([("c", "f", "x")])
    yield info.to_str()
    info.variant_label = "lab"
    yield info.to_str()
    info.variant_desc = vd([])
    yield (info.variant_label, info.to_str())


SCRIPTS = {
    "filter": lambda: vdescs(filter_variants(C["descs"], C["sup"])),
    "filter, forbidden": lambda: vdescs(filter_variants(C["descs"][::-1] * 2, C["sup"], ["zz"], [VariantFeature("a", "g")], [vp(("s", "f", "2"))])),
    "duplicates": lambda: vdescs(remove_duplicates(C["descs"][:2] * 2 + C["descs"][2:4])),
    "by namespace": lambda: vdescs(filter_variants_by_namespaces(C["descs"], ["s"])),
    "by feature": lambda: vdescs(filter_variants_by_features(C["descs"], [VariantFeature("a", "g")])),
    "by property": lambda: vdescs(filter_variants_by_property(C["descs"], C["sup"][:2])),
    "loader": lambda: loading(lambda: PluginLoader(C["info2"], C["py"])),
    "loader with static properties": lambda: loading(lambda: PluginLoader(C["info"], C["py"])),
    "list loader": lambda: loading(lambda: ListPluginLoader([DOC["providers"]["a"]["plugin-api"]], C["py"])),
    "entry points": lambda: loading(EntryPointPluginLoader),
    "all configurations": lambda: all_configs(lambda: ListPluginLoader([AOT["providers"]["c"]["plugin-api"], DOC2["providers"]["b"]["plugin-api"]], C["py"])),
    "merge": lambda: merging(("one", DOC), ("two", DOC), ("three", DOC), ("four", DOC)),
    "merge 2": lambda: merging(("one", DOC2), ("two", DOC2), ("lab", DOC2)),
    "edit": editing,
}


def steps_of(gen):
    """-> a function that makes the next step"""
    it = iter(gen)
    return lambda: call(lambda: next(it, "end"))


def script_alone(name):
    key = ("script", name)
    if key not in ALONE:
        def plain():
            nxt, out = steps_of(SCRIPTS[name]()), []
            while not out or (out[-1][0] == "ok" and out[-1][1] != "end"):
                out.append(nxt())
            return out
        ALONE[key] = child(plain)
    return ALONE[key]


def merges(n, m):
    for at in itertools.combinations(range(n + m), n):
        yield tuple(0 if k in at else 1 for k in range(n + m))


def run_scripts(case):
    a, b, most = case
    want = [script_alone(a), script_alone(b)]
    states, count, transitions = set(), 0, 0
    for order in merges(len(want[0]), len(want[1])):
        if a == b and order[0] == 1 or most is not None and sum(x != y for x, y in zip(order, order[1:])) > most:
            continue

        def body():
            nxt, pos = [steps_of(SCRIPTS[a]()), steps_of(SCRIPTS[b]())], [0, 0]
            for who in order:
                check_eq(nxt[who](), want[who][pos[who]], f"{a} / {b}, interleaved as {order}: step {pos[who]} of {'first' if who == 0 else 'second'}")
                pos[who] += 1
        child(body)
        pos = [0, 0]
        for who in order:
            pos[who] += 1
            states.add((a, b, tuple(pos)))
        count += 1
        transitions += len(order)
    return Outcome((a, b, count), states=states, transitions=transitions, traces=count, evaluations=count)


def gen_scripts(tier):
    def gen():
        for a, b in itertools.combinations_with_replacement(SCRIPTS, 2):
            yield [a, b, 3 if tier == "quick" else None]
    return gen


def run_between(case):
    a, b = case
    want, alone_b = script_alone(a), alone(b)
    states = set()
    for k in range(len(want) + 1):
        def body():
            base = env().fresh()
            nxt = steps_of(SCRIPTS[a]())
            for i in range(k):
                check_eq(nxt(), want[i], f"{a}: step {i}")
            check_eq(one(b, base, 0), alone_b, f"{b} after {k} steps of {a}")
            for i in range(k, len(want)):
                check_eq(nxt(), want[i], f"{a}: step {i}, with {b} after {k} steps")
            shutil.rmtree(base)
        child(body)
        states.add((a, b, k))
    return Outcome((a, b), states=states, transitions=len(want) * (len(want) + 2), traces=len(want) + 1, evaluations=len(want) + 1)


def gen_between():
    yield from itertools.product(SCRIPTS, OPS)


def spaces(tier):
    return [
        Space("threads", gen_pairs(tier), run_pair, setup=setup, hang=300),
        Space("suspended, interleaved", gen_scripts(tier), run_scripts, setup=setup, hang=200),
        Space("suspended, call between", gen_between, run_between, setup=setup),
    ]
