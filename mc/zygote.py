"""Fast, controlled 'virtual environments' for plugin calls.

Each stand-in interpreter  <dir>/bin/python  is a small native program that passes the request on to a real Python
process (started once per worker, without site-packages), which forks and runs the very script and arguments that
variantlib composed, with the real standard streams.  Plugin code lives in <dir>/site.
"""
from __future__ import annotations

import json
import os
import shutil
import signal
import subprocess
from pathlib import Path

from mc import core

HERE = Path(__file__).resolve().parent
PLUG = (HERE / "mcplug.py")


class Zygote:
    def __init__(self, e: core.Env):
        self.e = e
        self.dir = e.root / "zyg"
        self.dir.mkdir()
        client = self.dir / "client"
        r = subprocess.run(["gcc", "-O1", "-w", "-o", str(client), str(HERE / "native/client.c")], capture_output=True)
        if r.returncode:
            raise core.HarnessError(r.stderr.decode())
        self.client = client
        self.sock = str(self.dir / "s")
        if len(self.sock) > 100:
            raise core.HarnessError("socket path too long")
        self.proc = subprocess.Popen(
            [core.REAL_PYTHON, "-S", "-E", str(HERE / "zygote_main.py"), self.sock],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/",
            env={"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0"), "LANG": "C.UTF-8"})
        if self.proc.stdout.readline() != b"ready\n":
            raise core.HarnessError("zygote did not start")
        e.cleanups.append(self.stop)
        self.venvs = {}

    def stop(self):
        self.proc.kill()
        self.proc.wait()

    def venv(self, name):
        """-> (python executable, site directory)"""
        if name not in self.venvs:
            v = self.dir / name
            (v / "bin").mkdir(parents=True)
            (v / "site").mkdir()
            # like those of real environments, all are links to one program
            os.symlink(self.client, v / "bin/python")
            os.symlink(self.sock, v / "bin/sock")
            (v / "site/mcplug.py").write_bytes(PLUG.read_bytes())
            (v / "site/env.txt").write_text(name)
            self.venvs[name] = v
        v = self.venvs[name]
        return v / "bin/python", v / "site"

    def log(self, name):
        """plugin activity since the last call: list of lines"""
        p = self.venvs[name] / "log"
        if not p.exists():
            return []
        lines = p.read_text().splitlines()
        p.unlink()
        return lines

    def write_spec(self, name, plugin, spec):
        (self.venvs[name] / "site" / f"spec_{plugin}.json").write_text(json.dumps(spec))


def api(spec):
    """plugin-api reference of a plugin behaving as specified (self-contained)"""
    return "mcplug:h" + json.dumps(spec, separators=(",", ":")).encode().hex()


def file_api(plugin):
    """plugin-api reference of a plugin whose behaviour is read from spec_<plugin>.json of the environment"""
    return f"mcplug:f_{plugin}"
