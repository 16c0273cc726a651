"""C09: plugin loaders answer only inside their context, and contexts are well-bracketed."""
from __future__ import annotations

import contextlib
import itertools
import shutil
import subprocess

from mc.core import Outcome, Space, Violation, check, check_eq, env
from mc.zygote import Zygote, api, file_api
from variantlib.errors import NoPluginFoundError, PluginError, ValidationError
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader

LEVEL = "model_checking"
RULE = ("all sequences of entering, leaving, failing to enter, repairing, raising inside and querying, up to the bound, over one loader of each kind and "
        "over two loaders sharing or not sharing plugins; a state is (which loaders are entered, repaired or not). Every history is replayed on the real "
        "loaders with plugins never seen before in the process.")
ASSUMPTIONS = ["stand-in interpreters run the composed script in a forked CPython; C08 binds them to real interpreters"]

Z = {"n": 0}
SPEC = {"ns": "np", "aot": True, "all": [["f", ["a", "b"], True], ["g", ["c"], False]], "sup": [["f", ["b"], False]]}
SPEC2 = {"ns": "nq", "aot": True, "all": [["h", ["1"], False]], "sup": [["h", ["1"], False]]}


def setup(e):
    Z["z"] = Zygote(e)
    Z["py"] = Z["z"].venv("v")[0]


def shape(d):
    return {ns: [(c.name, list(c.values), c.multi_value) for c in cfg.configs] for ns, cfg in d.items()}


def want(specs, key, static):
    d = {s["ns"]: [(n, v, m) for n, v, m in s[key]] for s in specs}
    if static:
        d["st"] = [("s", ["1"], False)]
    return d


class Sut:
    """one loader: kind, the plugins it loads, and how to break/repair it"""

    def __init__(self, kind, failure, names):
        self.kind, self.failure = kind, failure
        self.names = names
        self.static = kind == "info"
        self.entered = False
        self.specs = [SPEC, SPEC2]
        if kind == "empty":
            self.specs = []
        refs = [file_api(n) for n in names] if kind != "empty" else []
        if kind in ("list", "empty"):
            self.loader = ListPluginLoader(refs, venv_python_executable=Z["py"])
        elif kind == "info":
            i = VariantInfo(namespace_priorities=["np", "nq", "st"],
                            providers={"np": ProviderInfo(plugin_api=refs[0], requires=["x"]), "nq": ProviderInfo(plugin_api=refs[1], requires=["x"], install_time=False),
                                       "st": ProviderInfo(install_time=False)}, static_properties={"st": {"s": ["1"]}})
            self.loader = PluginLoader(variant_info=i, venv_python_executable=Z["py"], include_aot_plugins=True)
        elif kind == "entry":
            for n, r in zip(names, refs):
                d = env().root / "sp" / f"plug_{n}-1.0.dist-info"
                d.mkdir()
                (d / "METADATA").write_text(f"Metadata-Version: 2.1\nName: plug_{n}\nVersion: 1.0\n")
                (d / "entry_points.txt").write_text(f"[variant_plugins]\n{n} = {r}\n")
            self.loader = EntryPointPluginLoader(venv_python_executable=Z["py"])

    def breaks(self):
        z = Z["z"]
        bad = {"raise": {**SPEC2, "fault": {"at": "load", "kind": "raise"}}, "missing": {**SPEC2, "fault": {"at": "load", "kind": "missing_sup"}},
               "kill": {**SPEC2, "fault": {"at": "load", "kind": "kill"}}, "clash": {**SPEC2, "ns": "np"}, "badns": {**SPEC2, "fault": {"at": "ns", "kind": "upper"}},
               "print": {**SPEC2, "fault": {"at": "load", "kind": "print"}}}[self.failure]
        z.write_spec("v", self.names[0], SPEC)
        z.write_spec("v", self.names[1], bad)

    def repair(self):
        Z["z"].write_spec("v", self.names[0], SPEC)
        Z["z"].write_spec("v", self.names[1], SPEC2)


FAIL = (PluginError, ValidationError, RuntimeError)


class Boom(BaseException):
    pass


def queries(s):
    lo = s.loader
    q = {"sup": lambda: shape(lo.get_supported_configs()), "all": lambda: shape(lo.get_all_configs()), "fixed": lambda: shape(lo.get_supported_configs(require_fixed=True)),
         "ns": lambda: sorted(lo.namespaces), "apis": lambda: dict(lo.plugin_api_values)}
    if s.kind == "entry":
        q["packages"] = lambda: sorted((k, d.name) for k, d in lo.plugin_provider_packages.items())
    return q


def answers(s):
    refs = {sp["ns"]: file_api(n) for sp, n in zip(s.specs, s.names)}
    return {"sup": want(s.specs, "sup", s.static), "all": want(s.specs, "all", s.static), "fixed": want(s.specs, "sup", s.static),
            "ns": sorted(refs), "apis": refs, "packages": sorted((r, f"plug_{n}") for r, n in zip(refs.values(), s.names))}


@contextlib.contextmanager
def interrupted():
    hits = []
    old = subprocess.Popen.__init__

    def init(self, *a, **k):
        hits.append(1)
        raise KeyboardInterrupt

    subprocess.Popen.__init__ = init
    try:
        yield hits
    finally:
        subprocess.Popen.__init__ = old


def step(suts, op, who, broken, hist):
    """perform op on the real loader and check it against the model; returns the new 'broken'"""
    if op == "repair":
        for s in suts:
            s.repair()
        return False
    s = suts[who]
    fails = broken and s.kind != "empty"
    if op in ("interrupt", "cut"):
        # the user interrupts the wait for the plugin process, if there is one
        with interrupted() as hits:
            try:
                s.loader.__enter__() if op == "interrupt" else s.loader.get_all_configs()
            except KeyboardInterrupt:
                check(hits, "interrupted unexpectedly")
            except NoPluginFoundError:
                check(op == "cut" and not s.entered, lambda: f"no plugin found by {op} in {hist}")
            except RuntimeError:
                check(op == "interrupt" and s.entered, lambda: f"{op} failed in {hist}")
            else:
                check(not hits, lambda: f"the interruption was swallowed in {hist}")
                check(s.entered == (op == "cut"), lambda: f"{op} succeeded in {hist}")
                s.entered = True
        return broken
    if op == "enter":
        try:
            r = s.loader.__enter__()
        except NoPluginFoundError:
            raise
        except Exception as e:  # noqa: BLE001
            check(s.entered or fails, lambda: f"entering failed in {hist}: {e!r}")
            if not s.entered:
                check(isinstance(e, FAIL), lambda: f"entry failed with {e!r} in {hist}")
        else:
            check(not s.entered, lambda: f"entering twice is accepted in {hist}")
            check(not fails, lambda: f"entry with a broken plugin succeeds in {hist}")
            check(r is s.loader, "__enter__ does not return the loader")
            s.entered = True
    elif op == "exit":
        try:
            r = s.loader.__exit__(None, None, None)
        except Exception as e:  # noqa: BLE001
            check(not s.entered, lambda: f"leaving failed in {hist}: {e!r}")
        else:
            check(s.entered, lambda: f"leaving without entering is accepted in {hist}")
            check(not r, "__exit__ returns a true value")
            s.entered = False
    elif op == "raise":
        try:
            with s.loader:
                raise Boom
        except Boom:
            check(not s.entered and not fails, lambda: f"the context could be entered in {hist}")
        except Exception as e:  # noqa: BLE001
            check(s.entered or fails, lambda: f"with failed in {hist}: {e!r}")
        else:
            raise Violation("the exception raised in the context was swallowed")
    else:
        fn = queries(s)[op]
        try:
            got = fn()
        except NoPluginFoundError:
            check(not s.entered, lambda: f"{op} inside of the context finds no plugin in {hist}")
        else:
            check(s.entered, lambda: f"{op} outside of the context answers {got} in {hist}")
            check_eq(got, answers(s)[op], f"{op} in {hist}")
    return broken


def run(case):
    kinds, failure, share, hist = case
    Z["n"] += 1
    n = Z["n"]
    suts = []
    try:
        for i, k in enumerate(kinds):
            tag = n if share else f"{n}_{i}"
            suts.append(Sut(k, failure or "raise", [f"a{tag}", f"b{tag}"]))
        for s in suts:
            s.breaks() if failure else s.repair()
        broken = bool(failure)
        states = [(tuple(kinds), tuple(s.entered for s in suts), broken)]
        for op, who in hist:
            broken = step(suts, op, who, broken, hist)
            states.append((tuple(kinds), tuple(s.entered for s in suts), broken))
        return Outcome((tuple(kinds), failure, share, tuple(map(tuple, hist))), states=states, transitions=len(hist), traces=1)
    finally:
        for d in (env().root / "sp").glob("plug_*"):
            shutil.rmtree(d)


OPS1 = [["enter", 0], ["exit", 0], ["sup", 0], ["all", 0], ["repair", 0], ["raise", 0]]
EXTRA = [["ns", 0], ["apis", 0], ["fixed", 0]]


def gen_one(tier):
    def gen():
        depth = 4 if tier == "quick" else 5
        for kind in ("list", "info", "entry"):
            for h in itertools.product(OPS1, repeat=depth):
                if sum(o[0] == "repair" for o in h) > 1:
                    continue
                yield [[kind], "raise", False, list(h)]
        ops = [["enter", 0], ["exit", 0], ["sup", 0], ["interrupt", 0], ["cut", 0]]
        for kind in ("list", "info", "entry"):
            for failure in (None,):
                for h in itertools.product(ops, repeat=depth):
                    if any(o[0] in ("interrupt", "cut") for o in h):
                        yield [[kind], failure, False, list(h)]
        # every failure, every query, around each life-cycle shape
        for kind in ("list", "info", "entry", "empty"):
            qs = OPS1[2:4] + EXTRA + ([["packages", 0]] if kind == "entry" else [])
            for failure in (None, "raise", "missing", "kill", "clash", "badns", "print") if kind != "empty" else (None,):
                for q in qs:
                    E, X, R, W = ["enter", 0], ["exit", 0], ["repair", 0], ["raise", 0]
                    yield [[kind], failure, False, [q, E, q, R, q, E, q, q, E, q, X, q, X, q, E, q, W, q, X, q]]
                    yield [[kind], failure, False, [R, E, q, X, E, q, X, q, W, q, E, q]]
                    yield [[kind], failure, False, [X, E, X, W, E, q, R, E, q]]
    return gen


def gen_two(tier):
    def gen():
        ops = [[o, w] for o in ("enter", "exit", "sup") for w in (0, 1)] + [["repair", 0]]
        depth = 4 if tier == "quick" else 5
        for kinds in (["list", "list"], ["list", "info"]) if tier == "quick" else (["list", "list"], ["list", "info"], ["info", "entry"], ["entry", "list"], ["info", "info"]):
            for share in (True, False):
                for failure in (None, "raise"):
                    for h in itertools.product(ops, repeat=depth):
                        reps = [i for i, o in enumerate(h) if o[0] == "repair"]
                        if len(reps) > (1 if failure else 0) or not {o[1] for o in h if o[0] != "repair"} == {0, 1}:
                            continue
                        if not any(o[0] == "enter" for o in h) or h[0] != ["enter", 0] and tier == "quick" and not (failure and h[0][0] == "repair"):
                            continue
                        yield [kinds, failure, share, list(h)]
    return gen


def run_repeat(case):
    """repeated use of one loader gives the same answers each time"""
    kind, rounds, style = case
    Z["n"] += 1
    s = Sut(kind, "raise", [f"a{Z['n']}", f"b{Z['n']}"])
    s.repair()
    try:
        for r in range(rounds):
            if style == "with":
                with s.loader:
                    for q in ("sup", "all", "ns", "apis", "fixed", "sup"):
                        check_eq(queries(s)[q](), answers(s)[q], f"{q} in round {r}")
            else:
                s.loader.__enter__()
                for q in ("all", "sup", "all"):
                    check_eq(queries(s)[q](), answers(s)[q], f"{q} in round {r}")
                s.loader.__exit__(None, None, None)
            for q in ("sup", "all", "ns", "apis"):
                try:
                    queries(s)[q]()
                except NoPluginFoundError:
                    continue
                raise Violation(f"{q} answers after round {r}")
    finally:
        for d in (env().root / "sp").glob("plug_*"):
            shutil.rmtree(d)
    return Outcome((kind, rounds, style), states=[("repeat", kind, r) for r in range(rounds)], transitions=rounds, traces=1)


def spaces(tier):
    return [
        Space("one", gen_one(tier), run, setup=setup),
        Space("two", gen_two(tier), run, setup=setup),
        Space("repeat", lambda: ([k, r, st] for k in ("list", "info", "entry", "empty") for r in (1, 2, 3, 12) for st in ("with", "manual")), run_repeat, setup=setup),
    ]
