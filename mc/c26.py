"""C26: results are a function of the inputs alone."""
from __future__ import annotations

import itertools
import json
import os
import resource
import shutil
import subprocess
import sys

from mc import core
from mc.core import Outcome, Space, check, check_eq, env

LEVEL = "exploration"
RULE = ("a battery of operations covering every public function and command is run in a real process for every hash seed of a range and every single variation "
        "(thorough: also every pair of 26 of them) of the process environment: locale and text encoding, time zone, umask, working directory with and without decoys, temporary "
        "directory, optimisation and warning modes, standard streams, unrelated variables, garbage collection, logging, threads, path spelling; each result is "
        "compared with that in the reference environment. An outcome is the variation, a state the order in which sets are iterated.")
ASSUMPTIONS = ["texts printed are compared, texts of error messages are not", "standard output can represent what is printed (ASCII here)"]

# name -> (environment variables, variation inside the driver, other)
VARIATIONS = {
    "nothing": ({}, {}, {}),
    "C locale": ({"LC_ALL": "C"}, {}, {}),
    "POSIX locale": ({"LC_ALL": "POSIX", "LANG": "POSIX"}, {}, {}),
    "no locale": ({"LC_ALL": None, "LANG": None}, {}, {}),
    "ASCII": ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {}, {}),
    "UTF-8 mode": ({"LC_ALL": "C", "PYTHONUTF8": "1"}, {}, {}),
    "ASCII streams": ({"PYTHONIOENCODING": "ascii:strict"}, {}, {}),
    "UTF-16 streams": ({"PYTHONIOENCODING": "utf-16"}, {}, {}),
    "zone east": ({"TZ": "XYZ-14"}, {}, {}),
    "zone west": ({"TZ": "ABC+12"}, {}, {}),
    "umask 077": ({}, {"umask": 0o077}, {}),
    "umask 000": ({}, {"umask": 0o000}, {}),
    "root directory": ({}, {}, {"cwd": "/"}),
    "decoy modules": ({}, {}, {"cwd": "decoys"}),
    "strange directory": ({}, {}, {"cwd": "a b/\u00e4\u2603 ;$x"}),
    "strange temporary directory": ({"TMPDIR": "{dir}/t m;p \u00e4"}, {}, {"mkdir": "t m;p \u00e4"}),
    "linked temporary directory": ({"TMPDIR": "{dir}/lnk"}, {}, {"link": "lnk"}),
    "relative temporary directory": ({"TMPDIR": "."}, {}, {"cwd": "decoys2"}),
    "optimised": ({"PYTHONOPTIMIZE": "1"}, {}, {}),
    "optimised twice": ({"PYTHONOPTIMIZE": "2"}, {}, {}),
    "safe path": ({"PYTHONSAFEPATH": "1"}, {}, {}),
    "development mode": ({"PYTHONDEVMODE": "1"}, {}, {}),
    "encoding warnings": ({"PYTHONWARNDEFAULTENCODING": "1"}, {}, {}),
    "unbuffered": ({"PYTHONUNBUFFERED": "1"}, {}, {}),
    "debug malloc": ({"PYTHONMALLOC": "debug"}, {}, {}),
    "verbose plugins": ({"PYTHONVERBOSE": "1"}, {}, {}),
    "plugin path of others": ({"PYTHONPATH": "{dir}/decoypath"}, {}, {"decoypath": True}),
    "build date": ({"SOURCE_DATE_EPOCH": "0"}, {}, {}),
    "virtual environment variables": ({"VIRTUAL_ENV": "/nonexistent", "CONDA_PREFIX": "/nonexistent", "PYTHONNOUSERSITE": "1", "PIP_TARGET": "/nonexistent"}, {}, {}),
    "terminal": ({"COLUMNS": "20", "NO_COLOR": "1", "TERM": "dumb", "FORCE_COLOR": "1"}, {}, {}),
    "no home": ({"HOME": None, "XDG_CONFIG_HOME": None, "USER": None, "LOGNAME": None}, {}, {}),
    "long environment": ({f"VAR_{i}": "x" * 500 for i in range(60)}, {}, {}),
    "no input": ({}, {}, {"stdin": "closed"}),
    "endless input": ({}, {}, {"stdin": "zero"}),
    "no output": ({}, {}, {"stdout": "closed"}),
    "full output": ({}, {}, {"stdout": "full"}),
    "debug logging": ({}, {"logging": "DEBUG"}, {}),
    "collecting always": ({}, {"gc": 1}, {}),
    "collecting never": ({}, {"gc": None}, {}),
    "other texts": ({}, {"intern": True}, {}),
    "thread": ({}, {"thread": True}, {}),
    "deep": ({}, {"recursion": 100000}, {}),
    "warnings are errors": ({"PYTHONWARNINGS": "error"}, {}, {}),
    "short numbers": ({"PYTHONINTMAXSTRDIGITS": "640"}, {}, {}),
    "tracing memory": ({"PYTHONTRACEMALLOC": "5", "PYTHONFAULTHANDLER": "1"}, {}, {}),
    "import times": ({"PYTHONPROFILEIMPORTTIME": "1"}, {}, {}),
    "few open files": ({}, {}, {"files": 24}),
    "interpreter relative": ({}, {"python": "relative"}, {}),
    "interpreter path": ({}, {"python": "path"}, {}),
    "interpreter linked": ({}, {"python": "linked"}, {}),
    "paths relative": ({}, {"paths": "relative"}, {}),
    "paths with dots": ({}, {"paths": "dots"}, {}),
    "paths with slashes": ({}, {"paths": "slashes"}, {}),
    "files linked": ({}, {"paths": "file"}, {}),
    "paths linked": ({}, {"paths": "link"}, {}),
}
DECOYS = ["json", "mcplug", "c26plug", "loader", "variantlib", "packaging", "_variantlib_protocols", "_variantlib_validators_base", "argparse", "tomlkit", "platformdirs", "zipfile"]
# those of which every pair is run
CORE = ["C locale", "ASCII", "UTF-16 streams", "zone east", "umask 077", "decoy modules", "strange directory", "strange temporary directory", "linked temporary directory",
        "relative temporary directory", "optimised", "safe path", "development mode", "plugin path of others", "no home", "few open files", "no output", "debug logging",
        "collecting always", "other texts", "thread", "interpreter relative", "interpreter linked", "paths relative", "paths with dots", "paths linked"]
Z = {}


def setup(e):
    # built once for all the workers
    base = e.root.parent / "shared"
    try:
        base.mkdir()
    except FileExistsError:
        pass
    else:
        v = base / "venv.tmp"
        subprocess.run([core.REAL_PYTHON, "-m", "venv", "--without-pip", str(v)], check=True, stdin=subprocess.DEVNULL)
        [site] = v.glob("lib/python*/site-packages")
        shutil.copy(core.VERIF / "mc/c26plug.py", site)
        sp = base / "sp"
        (sp / "plug-1.0.dist-info").mkdir(parents=True)
        (sp / "plug-1.0.dist-info/METADATA").write_text("Metadata-Version: 2.1\nName: plug\nVersion: 1.0\n")
        (sp / "plug-1.0.dist-info/entry_points.txt").write_text("[variant_plugins]\n" + "".join(f"{c} = c26plug:plug_{c}\n" for c in "bdac"))
        v.rename(base / "venv")
    import time
    for _ in range(600):
        if (base / "venv").exists():
            break
        time.sleep(0.1)
    Z["py"], Z["sp"] = base / "venv/bin/python", base / "sp"
    Z["ref"] = None


def decoys(d):
    d.mkdir(parents=True, exist_ok=True)
    for m in DECOYS:
        (d / f"{m}.py").write_text("raise SystemExit('decoy imported')\n")


def drive(seed, names, rounds=1):
    d = env().fresh()
    work = d / "work"
    work.mkdir()
    ev = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "MC_", "VERIF", "LC_", "LANG"))}
    ev.update(PYTHONHASHSEED=str(seed), LANG="C.UTF-8", TMPDIR=str(d), HOME=str(env().root / "home"))
    variation, cwd, stdin, stdout = {}, None, subprocess.DEVNULL, subprocess.DEVNULL
    close = []
    for name in names:
        vars_, inner, other = VARIATIONS[name]
        for k, v in vars_.items():
            if v is None:
                ev.pop(k, None)
            else:
                ev[k] = v.replace("{dir}", str(d))
        variation.update(inner)
        if "cwd" in other:
            cwd = other["cwd"]
            if not cwd.startswith("/"):
                cwd = str(d / cwd)
                os.makedirs(cwd)
                if other["cwd"] == "decoys":
                    decoys(d / "decoys")
        if "mkdir" in other:
            (d / other["mkdir"]).mkdir()
        if "link" in other:
            (d / "linked").mkdir()
            (d / other["link"]).symlink_to(d / "linked")
        if "decoypath" in other:
            (d / "decoypath").mkdir()
            (d / "decoypath/unrelated_module.py").write_text("x = 1\n")
        if other.get("stdin") == "zero":
            stdin = open("/dev/zero", "rb")
            close.append(stdin)
        if other.get("stdout") == "full":
            stdout = open("/dev/full", "wb")
            close.append(stdout)
    if cwd is None:
        cwd = str(d / "cwd")
        os.makedirs(cwd)
    conf = {"dir": str(work), "python": str(Z["py"]), "result": str(d / "result"), "variation": variation, "rounds": rounds,
            "path": ([str(core.REPO)] if "MC_REPO" in os.environ else []) + [str(Z["sp"])]}
    (d / "conf.json").write_text(json.dumps(conf))

    def pre():
        for name in names:
            o = VARIATIONS[name][2]
            if "files" in o:
                resource.setrlimit(resource.RLIMIT_NOFILE, (o["files"], o["files"]))
            if o.get("stdin") == "closed":
                os.close(0)
            if o.get("stdout") == "closed":
                os.close(1)
    r = subprocess.run([core.REAL_PYTHON, str(core.VERIF / "mc/c26drive.py"), str(d / "conf.json")], env=ev, cwd=cwd, stdin=stdin, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=pre)
    for f in close:
        f.close()
    if not (d / "result").exists():
        raise core.Violation(f"the process failed (status {r.returncode}): {r.stderr.decode(errors='replace')[-1500:]}")
    res = json.loads((d / "result").read_text())
    shutil.rmtree(d)
    return res


def run_env(case):
    seed, names, rounds = case
    if Z["ref"] is None:
        Z["ref"] = drive(0, ["nothing"])
        bad = {k for k, v in Z["ref"].items() if isinstance(v, list) and v[:1] == ["raised"]}
        check(not bad, lambda: f"operations failing in the reference environment: { {k: Z['ref'][k] for k in bad} }")
    res = drive(seed, names, rounds)
    order = res.pop("(set order)")
    paths = any("paths" in VARIATIONS[n][1] for n in names)
    for k, want in Z["ref"].items():
        if k == "(set order)":
            continue
        for name in (k, f"{k} again")[:rounds]:
            got = res.pop(name)
            if paths:
                got = silent(got)
            exp = silent(want) if paths else want
            if got != exp:
                a, b = json.dumps(got), json.dumps(exp)
                at = max(len(os.path.commonprefix([a, b])) - 200, 0)
                check_eq(a[at:at + 800], b[at:at + 800], f"result of {name!r} (from character {at}) with hash seed {seed} and {names}, compared with the reference environment")
                check_eq(got, exp, name)
    check_eq(list(res), [], "results")
    return Outcome((tuple(names), seed if names == ["nothing"] else 0), states=[json.dumps(order)], evaluations=len(Z["ref"]) * rounds)


def silent(r):
    """without what commands print"""
    if isinstance(r, dict):
        return {k: silent([x for x in v if x[0] != "printed"] if k == "dict" else v) for k, v in r.items()}
    return [silent(x) for x in r] if isinstance(r, list) else r


def gen_env(tier):
    def gen():
        for seed in range(24 if tier == "quick" else 200):
            yield [seed, ["nothing"], 2 if seed == 1 else 1]
        for name in VARIATIONS:
            yield [0, [name], 1]
            if tier != "quick":
                yield [7, [name], 2]
        if tier != "quick":
            for a, b in itertools.combinations(CORE, 2):
                (va, ia, oa), (vb, ib, ob) = VARIATIONS[a], VARIATIONS[b]
                if set(va) & set(vb) or set(ia) & set(ib) or set(oa) & set(ob):
                    continue
                yield [(len(a) * 7 + len(b)) % 97, [a, b], 1]
    return gen


def spaces(tier):
    return [Space("environments", gen_env(tier), run_env, setup=setup, hang=300)]
