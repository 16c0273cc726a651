"""Bounded exhaustive exploration of variantlib: the engine.

A check is a module mc.cNN with

    LEVEL, RULE, ASSUMPTIONS
    def spaces(tier) -> list[Space]

A Space is a *finite, deterministic* generator of cases (JSON-able values) and a function deciding one case
by running the real code of /repo against a reference model.  The engine enumerates every case of every space
(split over forked workers, each in its own scratch directory), so a run that ends without a violation has
covered the space completely.  Anything unexpected from the code under test (an exception the reference does
not predict, a hang, the death of the process) is a violation as well.
"""
from __future__ import annotations

import hashlib
import importlib
import itertools
import json
import logging
import mmap
import os
import pickle
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))  # another tree only while developing checks (tools/seed.py)
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "KNOWN_FINDINGS.txt"
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
HANG_S = float(os.environ.get("MC_HANG_S", "100"))
REAL_PYTHON = "/opt/venv/bin/python"


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """Something outside of the code under test is broken: never reported as a violation."""


def check(cond, message, *args):
    if not cond:
        raise Violation(message() if callable(message) else (message.format(*args) if args else message))


def check_eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


class Space:
    """One finite family of cases.

    gen():       iterator over cases (deterministic; JSON-able; the same in every process)
    run(case):   decides one case; returns a hashable/JSON-able outcome, raises Violation
    setup(env):  optional, run once per worker process before the first case
    init:        optional counters: run() may return an Outcome to report states and transitions
    """

    def __init__(self, name, gen, run, setup=None, workers=None, hang=None):
        self.name, self.gen, self.run, self.setup = name, gen, run, setup
        self.workers = workers
        self.hang = hang


class Outcome:
    """What one case did, for the evidence.

    observed: digest input for 'distinct outcomes';  trivial: not counted as non-trivial
    states: iterable of hashables (visited reference-model states);  transitions: number of steps checked
    evaluations: executions done for this case (default 1)
    """

    __slots__ = ("observed", "trivial", "states", "transitions", "evaluations", "traces", "extra")

    def __init__(self, observed=None, trivial=False, states=(), transitions=0, evaluations=1, traces=0, extra=None):
        self.observed, self.trivial, self.states = observed, trivial, states
        self.transitions, self.evaluations, self.traces = transitions, evaluations, traces
        self.extra = extra or {}


class Env:
    """The scratch area of one worker process."""

    def __init__(self, root: Path, index: int):
        self.root, self.index = root, index
        self.cleanups = []

    def fresh(self, prefix="d"):
        self._n = getattr(self, "_n", 0) + 1
        p = self.root / f"{prefix}{self._n}"
        p.mkdir()
        return p


ENV: Env | None = None


def env() -> Env:
    assert ENV is not None
    return ENV


# --------------------------------------------------------------------------------------------- preparation
def preload():
    """Import what variantlib needs, then make sure variantlib itself is compiled from the current sources."""
    import argparse, dataclasses, email, importlib.metadata, subprocess, zipfile, tomllib  # noqa
    import packaging.markers, packaging.requirements, packaging.utils, packaging.version  # noqa
    import platformdirs, tomlkit, tomlkit.toml_file, build.env, tzlocal  # noqa
    sys.pycache_prefix = "/nonexistent/mc-pycache"
    if "MC_REPO" in os.environ:
        sys.path.insert(0, str(REPO))
    elif str(REPO) not in sys.path:
        sys.path.append(str(REPO))
    import variantlib
    if Path(variantlib.__file__).resolve().parent != REPO / "variantlib":
        raise HarnessError(f"variantlib imported from {variantlib.__file__}")
    import variantlib.api  # noqa


class _HiddenSiteFinder:
    """Import from the real site-packages without making them visible to importlib.metadata."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        from importlib.machinery import PathFinder
        if path is not None:
            return None
        return PathFinder.find_spec(name, self.path)


def enter_scratch(e: Env):
    """Put the process into a controlled environment: nothing outside of scratch influences the code."""
    global ENV
    ENV = e
    e.root.mkdir(parents=True, exist_ok=True)
    for sub in ("cwd", "home", "xdg", "site_xdg", "prefix", "sp", "tmp"):
        (e.root / sub).mkdir()
    os.chdir(e.root / "cwd")
    os.environ.update(
        HOME=str(e.root / "home"),
        XDG_CONFIG_HOME=str(e.root / "xdg"),
        XDG_CONFIG_DIRS=str(e.root / "site_xdg"),
        TMPDIR=str(e.root / "tmp"),
    )
    for var in ("VARIANT_ABI_DEPENDENCY", "PYTHONPATH"):
        os.environ.pop(var, None)
    tempfile.tempdir = None
    sys.prefix = str(e.root / "prefix")
    # installed distributions: only what the check puts in <scratch>/sp
    hidden = [p for p in sys.path if p.endswith("site-packages") or p == str(REPO) or p == str(VERIF)]
    sys.path[:] = [str(e.root / "sp")] + [p for p in sys.path if p not in hidden and p]
    sys.meta_path.append(_HiddenSiteFinder(hidden))
    importlib.invalidate_caches()
    logging.disable(logging.CRITICAL)
    sys.stdin = open(os.devnull)


# ------------------------------------------------------------------------------------------------ workers
def _digest(obj):
    return hashlib.blake2b(repr(obj).encode("utf8", "surrogatepass"), digest_size=8).digest()


class Stats:
    def __init__(self):
        self.cases = self.evaluations = self.transitions = self.traces = self.trivial = 0
        self.outcomes = set()
        self.states = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.extra = {}

    def merge(self, o):
        self.cases += o.cases
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.traces += o.traces
        self.trivial += o.trivial
        self.outcomes |= o.outcomes
        self.states |= o.states
        self.samples += o.samples
        self.violations += o.violations
        self.known += o.known
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def _short_tb(exc):
    return "".join(traceback.format_exception(exc))[-1500:]


def run_case(space, case):
    """-> Outcome; raises Violation"""
    try:
        r = space.run(case)
    except (Violation, HarnessError):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:  # noqa: BLE001
        raise Violation(f"unexpected {type(exc).__name__}: {exc}\n{_short_tb(exc)}") from exc
    return r if isinstance(r, Outcome) else Outcome(r)


def load_known(pid):
    """key -> text of the findings recorded for this property"""
    known = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m[1] == pid:
                known[m[2]] = m[3]
    return known


def _worker(space, k, n, root, shared, out_fd, known):
    st = Stats()
    fatal = None
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # do not outlive the parent
    except (OSError, AttributeError):
        pass
    e = Env(root / f"w{k}", k)
    try:
        enter_scratch(e)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("MC_STDERR"):
            os.dup2(devnull, 2)
        sys.stdout = open(1, "w", closefd=False)
        if space.setup:
            space.setup(e)
        last_err = None
        for i, case in enumerate(space.gen()):
            if i % n != k:
                continue
            if shared[0]:
                break
            struct.pack_into("qd", shared, 8 + 16 * k, i, time.monotonic())
            t_case = time.monotonic()
            try:
                r = run_case(space, case)
                if os.environ.get("MC_TIMES"):
                    with open(os.environ["MC_TIMES"], "a") as f:
                        f.write(f"{time.monotonic() - t_case:.2f} {json.dumps(case)[:300]} {r.evaluations}\n")
            except Violation as v:
                if v.key is not None and v.key in known:
                    st.known.append(v.key)
                    continue
                st.violations.append((i, case, str(v)))
                shared[0] = 1
                break
            st.cases += 1
            st.evaluations += r.evaluations
            st.transitions += r.transitions
            st.traces += r.traces
            st.trivial += bool(r.trivial)
            if not r.trivial:
                st.outcomes.add(_digest(r.observed))
            for s in r.states:
                st.states.add(_digest(s))
            for key, v in r.extra.items():
                st.extra[key] = st.extra.get(key, 0) + v
            if k == 0 and (st.cases == 1 or (st.cases in (50, 400) and not r.trivial)):
                st.samples.append({"space": space.name, "case": case, "outcome": repr(r.observed)[:300]})
        struct.pack_into("qd", shared, 8 + 16 * k, -1, time.monotonic())
    except BaseException as exc:  # noqa: BLE001
        fatal = _short_tb(exc)
    for fn in e.cleanups:
        try:
            fn()
        except BaseException:  # noqa: BLE001
            pass
    data = pickle.dumps((st, fatal))
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_space(space, root, known):
    n = min(space.workers or WORKERS, WORKERS)
    hang = space.hang or HANG_S
    shared = mmap.mmap(-1, 8 + 16 * n)
    for k in range(n):
        struct.pack_into("qd", shared, 8 + 16 * k, -1, time.monotonic())
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            _worker(space, k, n, root, shared, w, known)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        procs[r] = (k, pid, bytearray())
    total = Stats()
    bad = []  # (case index, text)
    fatals = []

    def nth(i):
        return next(itertools.islice(space.gen(), i, None))

    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            k, pid, buf = procs[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            del procs[fd]
            os.waitpid(pid, 0)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if not buf:
                i, _ = struct.unpack_from("qd", shared, 8 + 16 * k)
                if i >= 0:
                    bad.append((i, "the process running this case died"))
                    shared[0] = 1
                else:
                    fatals.append("worker died outside of a case")
            else:
                st, fatal = pickle.loads(bytes(buf))
                total.merge(st)
                if fatal:
                    fatals.append(fatal)
        now = time.monotonic()
        for fd, (k, pid, buf) in list(procs.items()):
            i, t = struct.unpack_from("qd", shared, 8 + 16 * k)
            if i >= 0 and now - t > hang and not buf:
                # the slot is not written atomically: believe only what is still there a moment later
                time.sleep(0.05)
                if t == 0 or struct.unpack_from("qd", shared, 8 + 16 * k) != (i, t) or select.select([fd], [], [], 0)[0]:
                    continue
                bad.append((i, f"no result after {hang:.0f} s"))
                shared[0] = 1
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del procs[fd]
    for i, text in bad:
        total.violations.append((i, nth(i), text))
    if fatals and not total.violations:
        raise HarnessError(f"space {space.name}: {fatals[0]}")
    total.violations.sort(key=lambda v: v[0])
    return total


# --------------------------------------------------------------------------------------------------- main
def _load(pid):
    mod = importlib.import_module(f"mc.{pid.lower()}")
    return mod


def _make_root():
    base = tempfile.mkdtemp(prefix="mc", dir="/tmp")
    return Path(base)


def _with_shim(mod, argv):
    """start again with the module's native library loaded before all others"""
    if not getattr(mod, "PRELOAD", None):
        return
    shim = os.environ.pop("MC_SHIM", None)
    if shim:
        os.environ.pop("LD_PRELOAD", None)
        shutil.rmtree(shim)  # mapped already
        return
    d = tempfile.mkdtemp(prefix="mc", dir="/tmp")
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", f"{d}/shim.so", str(VERIF / "mc" / mod.PRELOAD), "-ldl"], capture_output=True)
    if r.returncode:
        shutil.rmtree(d)
        raise HarnessError(r.stderr.decode())
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, "-m", "mc", *argv], {**os.environ, "LD_PRELOAD": f"{d}/shim.so", "MC_SHIM": d})


def replay(path):
    data = json.loads(Path(path).read_text())
    pid = data["property"]
    preload()
    mod = _load(pid)
    _with_shim(mod, ["replay", path])
    sp = {s.name: s for s in mod.spaces(data.get("tier", "quick"))}[data["space"]]
    root = _make_root()
    pidc = os.fork()
    if pidc == 0:
        rc = 2
        try:
            enter_scratch(Env(root / "w0", 0))
            saved = os.dup(1)
            if sp.setup:
                sp.setup(ENV)
            try:
                run_case(sp, data["case"])
                os.write(saved, b"REPLAY-OK: the recorded case passes\n")
                rc = 0
            except Violation as v:
                os.write(saved, f"{v}\nVIOLATION property={pid} replay={path}\n".encode())
                rc = 1
            for fn in ENV.cleanups:
                fn()
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(rc)
    _, status = os.waitpid(pidc, 0)
    shutil.rmtree(root, ignore_errors=True)
    return os.waitstatus_to_exitcode(status)


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    pid = argv[0].upper()
    only = argv[2].split(",") if len(argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    preload()
    mod = _load(pid)
    _with_shim(mod, argv)
    root = _make_root()
    per_space = {}
    total = Stats()
    viol = None
    known = load_known(pid)
    try:
        for sp in mod.spaces(tier):
            if only and sp.name not in only:
                continue
            t1 = time.monotonic()
            sroot = root / sp.name
            sroot.mkdir()
            st = run_space(sp, sroot, known)
            shutil.rmtree(sroot, ignore_errors=True)
            per_space[sp.name] = {"cases": st.cases, "distinct_outcomes": len(st.outcomes),
                                  "seconds": round(time.monotonic() - t1, 2)}
            if st.transitions:
                per_space[sp.name]["transitions"] = st.transitions
            if os.environ.get("MC_VERBOSE"):
                print(sp.name, per_space[sp.name], flush=True)
            total.merge(st)
            if st.violations:
                viol = (sp, st.violations[0])
                break
            if not st.cases and not st.known:
                raise HarnessError(f"space {sp.name} is empty")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for key in sorted(set(total.known)):
        print(f"KNOWN-FINDING: property={pid} {known[key]}")
    EVIDENCE.mkdir(exist_ok=True)
    cov = {}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.outcomes))
    cov["rule"] = mod.RULE
    cov["samples"] = total.samples[:8]
    cov["exhaustive"] = viol is None
    cov["spaces"] = per_space
    cov.update({f"n_{k}": v for k, v in total.extra.items()})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.monotonic() - t0, 2),
          "violations": 0 if viol is None else 1}
    rc = 0
    if viol is not None:
        sp, (i, case, msg) = viol
        rdir = EVIDENCE / "replays"
        rdir.mkdir(exist_ok=True)
        rfile = rdir / f"{pid}-{tier}.json"
        rfile.write_text(json.dumps({"property": pid, "tier": tier, "space": sp.name, "index": i, "case": case,
                                     "message": msg}, indent=1))
        print(f"{pid}: space {sp.name}, case {i}: {json.dumps(case)[:2000]}\n{msg}")
        print(f"VIOLATION property={pid} replay={rfile}")
        rc = 1
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} {tier}: {json.dumps(per_space)} wall={ev['wall_s']}s -> {'VIOLATION' if rc else 'ok'}")
    return rc


def in_child(fn):
    """run fn() in a forked child (fresh caches as of now) -> its return value; violations and errors pass through"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = ("ok", fn())
        except Violation as v:
            out = ("violation", str(v))
        except HarnessError as v:
            out = ("harness", str(v))
        except BaseException as exc:  # noqa: BLE001
            out = ("error", f"unexpected {type(exc).__name__}: {exc}\n{_short_tb(exc)}")
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    if not data:
        raise Violation(f"the process died (status {status})")
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "harness":
        raise HarnessError(val)
    raise Violation(val)
