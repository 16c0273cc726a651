"""The process behind the stand-in interpreters: a plain Python (no site-packages) forking per request.

argv: socket path.  Standalone: imports nothing of /verif or variantlib.
"""
import array, os, signal, socket, struct, sys, types, traceback
# what plugin scripts usually import
import importlib.machinery
import argparse, collections.abc, dataclasses, functools, importlib, json, re, typing, abc, contextlib, enum, pathlib  # noqa
import importlib.metadata, logging  # noqa


# Compiled code by exact source text, filled in before forking: saves compiling the same scripts in every child.
CODE = {}


def code_for(src, path):
    key = (src, path.rsplit("/", 1)[-1])
    if key not in CODE:
        CODE[key] = compile(src, path, "exec", dont_inherit=True)
    return CODE[key]


class CachingLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return code_for(self.get_data(path), path)


def warm(data):
    parts = data.split(b"\0", 5)
    exe, script = parts[0], (parts[4] if len(parts) > 4 else b"")
    for d in (os.path.dirname(script), os.path.dirname(os.path.dirname(exe)) + b"/site"):
        try:
            names = [n for n in os.listdir(d) if n.endswith(b".py")] if d.startswith(b"/") else []
        except OSError:
            continue
        for n in names[:12]:
            try:
                with open(d + b"/" + n, "rb") as f:
                    code_for(f.read(), os.fsdecode(d + b"/" + n))
            except (SyntaxError, ValueError, OSError):
                pass


def recvn(s, n):
    b = bytearray()
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            raise EOFError
        b += c
    return bytes(b)


def child(conn, fds, data):
    parts = data.split(b"\0")[:-1]
    exe, cwd, argc = os.fsdecode(parts[0]), parts[1], int(parts[2])
    argv = [os.fsdecode(p) for p in parts[3:3 + argc]]
    envp = dict(p.split(b"=", 1) for p in parts[3 + argc:] if b"=" in p)
    for i, fd in enumerate(fds):
        os.dup2(fd, i)
    for fd in fds:
        if fd > 2:
            os.close(fd)
    os.chdir(cwd)
    os.environb.clear()
    os.environb.update(envp)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    vdir = os.path.dirname(os.path.dirname(exe))
    site = os.path.join(vdir, "site")
    flags = set()
    while len(argv) > 1 and argv[1][:1] == "-" and len(argv[1]) > 1 and set(argv[1][1:]) <= set("IEPsSBuOqb"):
        flags |= set(argv.pop(1)[1:])  # of isolation and verbosity flags
    if flags & set("IE"):
        for k in [k for k in os.environ if k.startswith("PYTHON")]:
            del os.environ[k]
    safe = flags & set("IP") or os.environ.get("PYTHONSAFEPATH")
    if len(argv) < 2 or argv[1].startswith("-"):
        # unusual invocation: use a real interpreter (without site-packages as well)
        os.environ["PYTHONPATH"] = site
        os.execv(REAL, [REAL, "-S", *argv[1:]])
    for name in ("stdin", "stdout", "stderr"):
        mode = "r" if name == "stdin" else "w"
        fd = {"stdin": 0, "stdout": 1, "stderr": 2}[name]
        setattr(sys, name, open(fd, mode, encoding="utf-8", closefd=False,
                                errors="backslashreplace" if fd == 2 else "strict"))
        setattr(sys, "__" + name + "__", getattr(sys, name))
    sys.executable = exe
    script = argv[1]
    sys.argv = argv[1:]
    pp = [p for p in os.environ.get("PYTHONPATH", "").split(os.pathsep) if p]
    sys.path[:] = [*([] if safe else [os.path.dirname(os.path.abspath(script))]), *pp, *BASE_PATH, site]
    mod = types.ModuleType("__main__")
    mod.__file__ = script
    mod.__builtins__ = __builtins__
    sys.modules["__main__"] = mod
    code = 0
    try:
        with open(script, "rb") as f:
            src = f.read()
        exec(code_for(src, script), mod.__dict__)
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    import atexit
    atexit._run_exitfuncs()
    try:
        sys.stdout.flush()
    except BaseException:
        code = code or 120
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    os._exit(code)


def main():
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(sys.argv[1])
    srv.listen(16)
    sys.path_hooks.insert(1, importlib.machinery.FileFinder.path_hook(
        (importlib.machinery.ExtensionFileLoader, importlib.machinery.EXTENSION_SUFFIXES), (CachingLoader, [".py"])))
    import encodings.idna, textwrap, shutil, gettext, types, operator, copy, inspect  # noqa
    p = argparse.ArgumentParser()
    p.add_argument("--x", action="append", help="a", required=True)
    p.parse_args(["--x", "1"])
    import gc
    gc.collect()
    gc.freeze()
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        conn, _ = srv.accept()
        try:
            msg, anc, _, _ = conn.recvmsg(4, socket.CMSG_SPACE(12))
            if msg == b"":
                continue
            msg += recvn(conn, 4 - len(msg))
            fds = array.array("i")
            for level, typ, d in anc:
                if level == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
                    fds.frombytes(d)
            data = recvn(conn, struct.unpack("I", msg)[0])
            warm(data)
            pid = os.fork()
            if pid == 0:
                srv.close()
                try:
                    cfd = conn.detach()
                    os.close(cfd)
                    child(None, list(fds), data)
                finally:
                    os._exit(99)
            for fd in fds:
                os.close(fd)
            _, st = os.waitpid(pid, 0)
            conn.sendall(struct.pack("i", os.waitstatus_to_exitcode(st)))
        except (EOFError, OSError):
            pass
        finally:
            conn.close()


REAL = sys.executable
BASE_PATH = [p for p in sys.path[1:] if p and not p.endswith("site-packages") and not p.endswith("dist-packages")]
if __name__ == "__main__":
    main()
