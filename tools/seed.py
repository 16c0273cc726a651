#!/usr/bin/env python3
"""Make and try planted changes, on a copy of /repo that is removed again.

  seed.py new ID        read /tmp/w/seeds/ID.py (PROPERTY, EDITS, NEEDS, BREAKS, DEMO) and write seeded/ID
  seed.py try ID [C..]  apply, run the stable tests, the demonstration both ways and the checks (default: the property's)
  seed.py sweep [C..]   run these checks (default: the property's) on every planted change; updates tools/caught.json
"""
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


class Copy:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="seedcopy", dir="/tmp")
        self.d = f"{self.top}/repo"
        shutil.copytree(REPO, self.d, symlinks=True)
        sh("git", "-C", self.d, "checkout", "--", ".")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.top)


def new(name):
    spec = importlib.util.spec_from_file_location("s", f"/tmp/w/seeds/{name}.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    d = ROOT / "seeded" / name
    with Copy() as c:
        for f, old, new_ in m.EDITS:
            p = pathlib.Path(c, f)
            s = p.read_text()
            assert s.count(old) == 1, (f, old, s.count(old))
            p.write_text(s.replace(old, new_))
        diff = sh("git", "-C", c, "diff").stdout
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, indent=1) + "\n")
    (d / "demo.py").write_text(m.DEMO.lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def demo(d, c):
    r = sh("bash", str(d / "demo.sh"), cwd=c, timeout=300, env=dict(os.environ, PYTHONPATH=c))
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(c):
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1", HYPOTHESIS_PROFILE="ci", PYTHONPATH=c)
    sh(PY, "-m", "pytest", "-q", "--no-cov", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={c}/../junit.xml", cwd=c, env=env)
    bad = set()
    total = 0
    for t in xml.etree.ElementTree.parse(f"{c}/../junit.xml").iter("testcase"):
        total += 1
        if any(x.tag in ("failure", "error") for x in t):
            bad.add(f"{t.get('classname')}::{t.get('name')}")
    return total, bad


def checks(c, names):
    hit = []
    for n in names:
        r = sh(str(ROOT / "run"), n, cwd=ROOT, env=dict(os.environ, MC_REPO=c))
        v = [ln for ln in r.stdout.splitlines() if "VIOLATION" in ln]
        print("   ", n, r.returncode, v[:1], (r.stdout.splitlines()[-1:] or r.stderr.splitlines()[-1:]), flush=True)
        if r.returncode == 1 and v:
            hit.append(n)
    return hit


def prop(name):
    return json.loads((ROOT / "seeded" / name / "meta.json").read_text())["property"]


def apply(name, c):
    r = sh("git", "-C", c, "apply", str(ROOT / "seeded" / name / "patch.diff"))
    assert r.returncode == 0, r.stderr


def record(name, hit):
    f = ROOT / "tools/caught.json"
    d = json.loads(f.read_text())
    d[name] = sorted(set(hit))
    f.write_text(json.dumps(dict(sorted(d.items())), indent=1) + "\n")


def try_(name, names):
    d = ROOT / "seeded" / name
    with Copy() as c:
        ok = demo(d, c)
        if ok[0]:
            print(name, "demo FAILS unpatched", ok[1])
        apply(name, c)
        bad = demo(d, c)
        if not bad[0]:
            print(name, "demo PASSES patched")
        total, failed = tests(c)
        print(name, "tests", total, "ok" if not failed else f"FAIL {sorted(failed)[:5]}", "| demo", bad[0], bad[1].strip().splitlines()[-1:], flush=True)
        hit = checks(c, names or [prop(name)])
    if not names or prop(name) in names:
        record(name, hit)


def sweep(names):
    for d in sorted((ROOT / "seeded").iterdir()):
        with Copy() as c:
            apply(d.name, c)
            print(d.name, flush=True)
            hit = checks(c, names or [prop(d.name)])
            if not names:
                record(d.name, hit)


if __name__ == "__main__":
    {"new": lambda: new(sys.argv[2]), "try": lambda: try_(sys.argv[2], sys.argv[3:]), "sweep": lambda: sweep(sys.argv[2:])}[sys.argv[1]]()
