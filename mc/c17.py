"""C17: making and unmaking variants are inverse in every sequence."""
from __future__ import annotations

import itertools
import shutil

from mc import c12, c16, ref, wheels
from mc.c16 import DI, META, PROJECTS, RECORD, make, verify
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points
from mc.wheels import member, name_of

LEVEL = "model_checking"
RULE = ("the model state is the original wheel with the properties and label it currently carries (or none); the transitions are making any of several "
        "variants and unmaking. All sequences up to the depth on wheels with different members and RECORD forms are run through the real commands; after "
        "each step the wheel is compared member by member with the original and the model.")
ASSUMPTIONS = ["compressed bytes and extra fields are not judged, only contents and attributes"]


def setup(e):
    install_entry_points(e)


def unmake(wheel, out):
    try:
        return cli("unmake-variant", "-f", str(wheel), "-o", str(out))[0]
    except Exception as exc:  # noqa: BLE001
        return repr(exc)


def strip_end(data):
    return data.rstrip(b"\r\n")


def verify_plain(orig, path, record=RECORD):
    """the wheel is the original one up to a final line end of the file list"""
    new = wheels.read(path)
    check_eq([name_of(m) for m in new], [name_of(m) for m in orig], "members after unmaking")
    for m, w in zip(new, orig):
        check_eq(dict(zip(wheels.ATTRS, m[0])), dict(zip(wheels.ATTRS, w[0])), f"attributes of {name_of(m)!r} after unmaking")
        if name_of(m) == record:
            # nothing but one line end may be added
            check(m[1] == w[1] or m[1] == w[1] + b"\n" and not w[1].endswith(b"\n"), lambda: f"RECORD after unmaking: {m[1][-300:]!r}, was {w[1][-300:]!r}")
        else:
            check(m[1] == w[1], f"content of {name_of(m)!r} differs after unmaking")


def originals():
    big = [member("pkg/", "", kind="dir", method="stored"), member("pkg/a.py", "a = 1\n"), member("pkg/data.bin", [70000, 3], c16.DATES[0], "ro", "lzma"), member("pkg/run", "#!", c16.DATES[1], "exec", "bzip2"),
           member("pkg/link", "a.py", c16.DATES[2], "link", "stored"), member("pkg/\u00e9,\u2603.txt", "x", c16.DATES[3], "dos", "deflated", 0, "c"), member(f"x/{DI}/variant.json", "not ours"), member("pkg/_v/v-1.dist-info/RECORD", f"{META},,\n")]
    yield "simple", c16.dist_info(c16.record_of([member("pkg.py", "x")]), before=[member("pkg.py", "x")])
    yield "big", c16.dist_info(c16.record_of(big[1:], extra=["", f"x/{META},sha256=1,2", f"{META}.bak,,"]), before=big)
    yield "crlf", c16.dist_info(c16.record_of([member("pkg.py", "x")], "\r\n"), before=[member("pkg.py", "x")])
    yield "unterminated", c16.dist_info(c16.record_of([member("pkg.py", "x")], "\n", False), before=[member("pkg.py", "x")])
    yield "crlf unterminated", c16.dist_info(c16.record_of([member("pkg.py", "x")], "\r\n", False), before=[member("pkg.py", "x")])
    yield "record first", [member(RECORD, c16.record_of([member("pkg.py", "x")]), c16.DATES[1], "ro", "stored"), member("pkg.py", "x"), member(f"{DI}/METADATA", "Name: pkg\n"), member(f"{DI}/RECORD.jws", f"x,,\n{META},,\n{META},sha256=x,1\n")]
    yield "blank lines", c16.dist_info("\n\n" + c16.record_of([], own=False) + f"{RECORD},,\n\n\n", before=[member("pkg.py", "x")])
    yield "empty record", c16.dist_info("", before=[member("pkg.py", "x")])


STEPS = {
    "A": ([("a", "f", "x")], None, "empty"), "B": ([("a", "f", "y"), ("b", "g", "1")], "lab", "rich"), "C": ([("zz", "f", "x")], "lab", "empty"),
    "N": ([], None, "rich"), "L": ([("a", "f", "x")], "0123456789abcdef", "rich"), "U": None,
}


def run_history(case):
    wname, name, steps, same_dir = case
    members = dict(originals())[wname]
    d = env().fresh()
    cur_dir = d / "d0"
    cur_dir.mkdir()
    cur = cur_dir / name
    wheels.build(cur, members)
    orig = wheels.read(cur)
    base = name[:-4]
    states = [(wname, None)]
    carried = None  # (props, label, project)
    for k, s in enumerate(steps):
        what = f"after {steps[:k + 1]}"
        out = cur_dir if same_dir else d / f"d{k + 1}"
        out.mkdir(exist_ok=True)
        raw = cur.read_bytes()
        before = {p.name: p.read_bytes() for p in out.iterdir()}
        if s == "U":
            check_eq(unmake(cur, out), 0, f"{what}: status")
            if carried is None:
                check_eq({p.name: p.read_bytes() for p in out.iterdir()}, before, f"{what}: unmaking a plain wheel wrote something")
                continue
            new = out / f"{base}.whl"
            carried = None
            verify_plain(orig, new)
        else:
            props, label, project = STEPS[s]
            check_eq(make(d, cur, out, props, label, project), 0, f"{what}: status")
            carried = (tuple(props), label, project)
            label = label or ref.label(props)
            new = out / f"{base}-{label}.whl"
            verify(orig, new, props, label, project)
        if new != cur:
            check(cur.read_bytes() == raw, f"{what}: the input was changed")
        got = {p.name: p.read_bytes() for p in out.iterdir()}
        check_eq(sorted(got), sorted(set(before) | {new.name}), f"{what}: files")
        for n in before:
            check(n == new.name or got[n] == before[n], f"{what}: {n} was changed")
        cur, cur_dir = new, out
        states.append((wname, name, carried))
    if carried is not None:
        # the same as making it directly
        f = d / "direct"
        f.mkdir()
        wheels.build(f / name, members)
        props, label, project = carried
        check_eq(make(d, f / name, f, props, label, project), 0, "status of the direct way")
        direct = wheels.read(f / cur.name)
        via = wheels.read(cur)
        check_eq([m[0] for m in via if name_of(m) != META], [m[0] for m in direct if name_of(m) != META], "members compared to the direct way")
        check_eq({name_of(m): strip_end(m[1]) if name_of(m) == RECORD else m[1] for m in via}, {name_of(m): strip_end(m[1]) if name_of(m) == RECORD else m[1] for m in direct}, "contents compared to the direct way")
    shutil.rmtree(d)
    return Outcome((wname, name, steps), states=states, transitions=len(steps), traces=1)


WNAMES = ["pkg-1.0-py3-none-any.whl", "pkg-1.0-7x-cp39-abi3-linux_x86_64.whl", "p.k_g-1.0+l.1-1-py3-none-any.whl"]


def gen_history(tier):
    def gen():
        full = tier != "quick"
        for wname, _ in originals():
            for n in range(1, 4 if not full else 5):
                for i, steps in enumerate(itertools.product(STEPS, repeat=n)):
                    if n == 4 and wname not in ("big", "unterminated", "blank lines"):
                        continue
                    yield [wname, WNAMES[i % 3], list(steps), i % 2 == 0]
                    if full or n < 3:
                        yield [wname, WNAMES[i % 3], list(steps), i % 2 == 1]
        for n in (4, 5) if not full else (5, 6):
            for steps in itertools.product("BCU" if n > 4 else "BCNU", repeat=n):
                yield ["simple", WNAMES[0], list(steps), True]
        for steps in ("AU" * 8, "ABCNLU" * 3, "UUAUUB" * 3):
            for wname, _ in originals():
                yield [wname, WNAMES[1], list(steps), False]
    return gen


def run_shapes(case):
    """round trip of every member and RECORD shape"""
    kind, c = case
    if kind == "members":
        ms, stream = c
        body = c16.dist_info(c16.record_of(ms), before=ms[:1], after=ms[1:])
    else:
        lines, eol, final, own, pos, existing, method, props = c
        files = [member("pkg/a.py", "a = 1\n"), member("pkg/b.py", "b = 1\n", kind="exec")]
        rec = member(RECORD, c16.record_of(files, eol, final, own, c16.LINES[lines]), kind="ro", method=method, date=c16.DATES[1])
        body, stream = {"last": files + [rec], "first": [rec] + files}[pos], False
    d = env().fresh()
    (d / "o").mkdir()
    src = d / "pkg-1.0-py3-none-any.whl"
    wheels.build(src, body, stream=stream)
    orig = wheels.read(src)
    check_eq(make(d, src, d / "o", [("a", "f", "x")], "lab", "rich"), 0, "status of make-variant")
    check_eq(unmake(d / "o/pkg-1.0-py3-none-any-lab.whl", d / "o"), 0, "status of unmake-variant")
    verify_plain(orig, d / "o/pkg-1.0-py3-none-any.whl")
    check_eq(unmake(d / "o/pkg-1.0-py3-none-any-lab.whl", d), 0, "status of unmake-variant")
    verify_plain(orig, src)
    shutil.rmtree(d)
    return Outcome(case, states=[case], transitions=3, traces=1, trivial=False)


def gen_shapes(tier):
    def gen():
        for i, c in enumerate(c16.gen_members(tier)()):
            if tier != "quick" or i % 2:
                yield ["members", c]
        for c in c16.gen_record(tier)():
            if not c[5] and c[4] in ("first", "last"):
                yield ["record", c]
    return gen


def run_refuse(case):
    """unmaking what is not a variant wheel writes nothing"""
    name, where = case
    d = env().fresh()
    (d / "o").mkdir()
    src = d / name
    if where != "missing":
        wheels.build(src, c16.dist_info(c16.record_of([]), before=[member("pkg.py", "x")]))
    before = {str(p): p.is_file() and p.read_bytes() for p in d.rglob("*")}
    status = unmake(src, {"same": d, "noout": d / "none"}.get(where, d / "o"))
    check_eq({str(p): p.is_file() and p.read_bytes() for p in d.rglob("*")}, before, f"files (status {status})")
    if where in ("missing", "noout"):
        check(status != 0, "no error")
    shutil.rmtree(d)
    return Outcome(case, states=[case], transitions=1, traces=1)


def gen_refuse():
    for name in ("pkg-1.0-py3-none-any.whl", "pkg-1.0-7-py3-none-any.whl", "pkg.whl", "pkg-1.0.whl", "pkg-1.0-py3-none-any.zip", "pkg-1.0-py3-none-any-LABEL.whl", "pkg-1.0-py3-none-any-a-b.whl", "pkg-1.0-b-py3-none-any-x.whl"):
        for where in ("out", "same", "missing", "noout"):
            yield [name, where]
    yield ["pkg-1.0-py3-none-any-x.whl", "missing"]
    yield ["pkg-1.0-py3-none-any-x.whl", "noout"]


def spaces(tier):
    return [
        Space("histories", gen_history(tier), run_history, setup=setup),
        Space("shapes", gen_shapes(tier), run_shapes, setup=setup),
        Space("refusals", gen_refuse, run_refuse, setup=setup),
    ]
