"""C16: make-variant produces an intact wheel with correct records."""
from __future__ import annotations

import itertools
import json
import os
import shutil

from mc import c12, c14, ref, wheels
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points, text
from mc.wheels import member, name_of
from variantlib.variant_dist_info import VariantDistInfo

LEVEL = "exploration"
RULE = ("every combination of member attributes, RECORD forms and positions, metadata already present, input names, labels, property sets and relations of "
        "output to input, through the real command on archives built for the purpose; the result is compared member by member and byte by byte. An "
        "outcome is the output of one case.")
ASSUMPTIONS = ["RECORD is UTF-8 and names its own metadata unquoted, as installers require", "the archive comment and extra fields are not judged"]

DI = "pkg-1.0.dist-info"
META = f"{DI}/variant.json"
RECORD = f"{DI}/RECORD"
PROJECTS = {
    "empty": ("[project]\nname = 'pkg'\n", {}),
    "rich": (
        "[variant.default-priorities]\nnamespace = ['a', 'r']\nfeature.r = ['g', 'f']\nproperty.a.f = ['y', 'x']\n"
        "[variant.providers.a]\nrequires = ['p >= 1', 'q']\nplugin-api = 'p:Q'\nenable-if = \"python_version > '3' # \u00e9\"\n"
        "[variant.providers.r]\ninstall-time = false\n[variant.static-properties.r]\nf = ['2', '1']\ng = ['x']\n",
        {"default-priorities": {"namespace": ["a", "r"], "feature": {"r": ["g", "f"]}, "property": {"a": {"f": ["y", "x"]}}},
         "providers": {"a": {"requires": ["p >= 1", "q"], "plugin-api": "p:Q", "enable-if": "python_version > '3' # \u00e9"}, "r": {"install-time": False}},
         "static-properties": {"r": {"f": ["2", "1"], "g": ["x"]}}}),
}


def setup(e):
    install_entry_points(e)


def make(d, wheel, out, props, label=None, project="empty", extra=()):
    """-> status (0 if made)"""
    (d / "pyproject.toml").write_text(PROJECTS[project][0], encoding="utf8")
    args = ["make-variant", "-f", str(wheel), "-o", str(out), "--no-isolation", "--skip-plugin-validation", "--pyproject-toml", str(d / "pyproject.toml"), *extra]
    if props:
        args += ["-p", *[text(p) for p in props]]
    else:
        args += ["--null-variant"]
    if label is not None:
        args += ["--variant-label", label]
    try:
        return cli(*args)[0]
    except Exception as exc:  # noqa: BLE001
        return repr(exc)


def verify(orig, path, props, label, project="empty", meta=META, record=RECORD):
    """orig: members of the input (as read)"""
    new = wheels.read(path)
    check_eq([name_of(m) for m in new].count(meta), 1, "metadata files")
    data = dict((name_of(m), m[1]) for m in new)[meta]
    info = VariantDistInfo(data, label)
    check_eq(c12.plain(info), c12.expected(PROJECTS[project][1]), "recorded provider information")
    check_eq(c12.variants_of(info), {label: tuple(sorted(map(tuple, props)))}, "recorded variant")
    rest = [m for m in new if name_of(m) != meta]
    want = [m for m in orig if name_of(m) != meta]
    check_eq([name_of(m) for m in rest], [name_of(m) for m in want], "members")
    for m, w in zip(rest, want):
        check_eq(dict(zip(wheels.ATTRS, m[0])), dict(zip(wheels.ATTRS, w[0])), f"attributes of {name_of(m)!r}")
        if name_of(m) == record:
            verify_record(w[1], m[1], data, meta)
        else:
            check(m[1] == w[1], f"content of {name_of(m)!r} differs")
    return new


def verify_record(old, new, data, meta):
    rows = wheels.record_rows(new)
    check_eq([r for r in rows if r and r[0] == meta], [[meta, wheels.digest(data), str(len(data))]], "RECORD entries of the metadata")
    keep = [x for x in old.split(b"\n") if x.rsplit(b",", 2)[0] != meta.encode()]
    got = [x for x in new.split(b"\n") if x.rsplit(b",", 2)[0] != meta.encode()]
    while keep and keep[-1] == b"":
        keep.pop()
    while got and got[-1] == b"":
        got.pop()
    check_eq(got, keep, "other RECORD lines")
    old_rows = [r for r in wheels.record_rows(old) if r and r[0] != meta]
    check_eq([r for r in rows if r and r[0] != meta], old_rows, "other RECORD entries")


def go(members, props=(("a", "f", "x"),), label=None, project="empty", name="pkg-1.0-py3-none-any.whl", base=None, where="out", stream=False, meta=META, record=RECORD):
    """make a variant of a wheel with these members and verify everything"""
    d = env().fresh()
    (d / "in").mkdir()
    (d / "out").mkdir()
    src = d / "in" / name
    wheels.build(src, members, stream=stream)
    orig, raw = wheels.read(src), src.read_bytes()
    st = os.stat(src)
    outdir = d / where
    lab = label or ref.label(props)
    base = base or name[:-4]
    dest = outdir / f"{base}-{lab}.whl"
    if where == "in" and dest != src:
        # something is there already
        dest.write_bytes(b"previous")
    status = make(d, src, outdir, props, label, project)
    check_eq(status, 0, "status of make-variant")
    new = verify(orig, dest, props, lab, project, meta, record)
    if dest != src:
        check(src.read_bytes() == raw, "the input file was changed")
        check_eq((os.stat(src).st_mtime_ns, os.stat(src).st_mode), (st.st_mtime_ns, st.st_mode), "attributes of the input file")
    check_eq(sorted(p.name for p in outdir.iterdir()), sorted({dest.name, src.name} if where == "in" else {dest.name}), "files in the output directory")
    check_eq(sorted(p.name for p in d.iterdir()), ["in", "out", "pyproject.toml"], "files around")
    shutil.rmtree(d)
    return [m[0] for m in new]


def dist_info(record, before=(), after=()):
    ms = [member(f"{DI}/METADATA", "Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n\nText, with \u00e9\n"), member(f"{DI}/WHEEL", "Wheel-Version: 1.0\n")]
    return [*before, *ms, member(RECORD, record), *after]


def record_of(members, eol="\n", final=True, own=True, extra=()):
    lines = [wheels.record_line(m[0], wheels.data_of(m[1]) if not isinstance(m[1], bytes) else m[1]) for m in members if not m[0].endswith("/")] + list(extra)
    if own:
        lines.append(f"{RECORD},,")
    return eol.join(lines) + (eol if final else "")


# --------------------------------------------------------------------------------------------------- members
MNAMES = ["pkg/a.py", "pkg/", "top.py", "pkg/sub/deep/er/x.txt", "pkg/\u00e9\u2603.txt", "pkg/a b,c.txt", 'pkg/q"uote.txt', "pkg-1.0.data/scripts/run", f"{DI}/licenses/LICENSE", f"{DI}/", f"{DI}/RECORD.jws", f"{DI}/variant.json.bak",
          f"x/{DI}/variant.json", f"pkg/_vendor/v-1.dist-info/RECORD", "variant.json", "RECORD", f"{DI}/sub/variant.json", "pkg/variant.json", "notdist-info/variant.json", "pkg-1.0.dist-infox/variant.json"]
DATES = [[1980, 1, 1, 0, 0, 0], [2024, 12, 31, 23, 59, 58], [2107, 12, 31, 23, 59, 58], [2020, 2, 29, 1, 2, 4]]


def run_members(case):
    ms, stream = case
    body = dist_info(record_of(ms), before=ms[:1], after=ms[1:])
    return go(body, stream=stream)


def gen_members(tier):
    def gen():
        k = itertools.count()
        for name in MNAMES:
            for method in wheels.METHODS:
                for kind in ("dir", "none") if name.endswith("/") else wheels.KINDS:
                    for date in DATES if tier != "quick" else [DATES[next(k) % 4]]:
                        data = "" if name.endswith("/") else f"data of {name}\n" * 3
                        yield [[member(name, data, date, kind, method)], False]
                yield [[member("pkg/z.py", "z", DATES[1], "exec", "stored"), member(name, "" if name.endswith("/") else "x", DATES[2], "dir" if name.endswith("/") else "file", method)], False]
                yield [[member(name, "" if name.endswith("/") else "x", DATES[3], "dir" if name.endswith("/") else "file", method, 0, "a comment")], True]
        for n in [0, 1, 2, 255, 4095, 4096, 65535, 65536, 65537, 200000] + ([1048575, 1048577, 3000000] if tier != "quick" else []):
            for method in wheels.METHODS:
                yield [[member("pkg/data.bin", [n, 1], DATES[0], "file", method), member("pkg/data2.bin", [n, 2], DATES[1], "exec", "stored")], n % 2 == 0]
        for a, b in itertools.permutations([n for n in MNAMES if not n.endswith("/")], 2):
            yield [[member(a, "1"), member(b, "2", method="stored")], False]
        for n in [*range(3, 13), 33, 300]:
            yield [[member(f"pkg/m{(i * 7) % n if n % 7 else i}.py", f"x = {i}\n" * (i % 5), DATES[i % 4], list(wheels.KINDS)[i % 4], list(wheels.METHODS)[i % 4]) for i in range(n)], False]
    return gen


# --------------------------------------------------------------------------------------------------- RECORD
OLD = json.dumps(c14.doc(c14.BASE, {"old": {"zz": {"f": ["1"]}}}))
LINES = {
    "none": [], "commas": ['"pkg/a,b.py",sha256=abc,3'], "quotes": ['"pkg/a""b.py",,'], "blank": [""], "blanks": ["", "x.py,,", ""], "extra": [f"x/{META},sha256=abc,5", f"{META}.bak,,"],
    "similar": [f"{DI}/variant_json,,", f"{DI}/VARIANT.JSON,,"], "spaces": [f" {META},,", f"{META} ,,", f"\t{META},sha256=zzz,3"], "nohash": ["y.py,,"], "unicode": ["pkg/\u00e9\u2028.py,sha256=x,1"], "long": ["z" * 5000 + ",,"],
}


def run_record(case):
    lines, eol, final, own, pos, existing, method, props = case
    files = [member("pkg/a.py", "a = 1\n"), member("pkg/b.py", "b = 1\n", kind="exec")]
    meta = [member(META, OLD, method=method)] if existing else []
    entry = {"listed": [wheels.record_line(META, OLD.encode())], "twice": [wheels.record_line(META, OLD.encode())] * 2, "nohash": [f"{META},,"], "wrong": [f"{META},sha256=zzz,1"]}.get(existing, [])
    rec_lines = LINES[lines] + entry if case[6] != "lzma" else entry + LINES[lines]
    rec = member(RECORD, record_of(files, eol, final, own, rec_lines), kind="ro", method=method, date=DATES[1])
    order = {"last": files + meta + [rec], "first": [rec] + files + meta, "middle": files[:1] + [rec] + meta + files[1:], "after": meta + files + [rec]}[pos]
    return Outcome((case, go(order + [member(f"{DI}/WHEEL", "W")] * 1, props=[tuple(p) for p in props], project="rich" if existing else "empty")))


def gen_record(tier):
    def gen():
        k = itertools.count()
        props = [[], [["a", "f", "x"]], [["a", "f", "x"], ["r", "f", "2"]]]
        for lines in LINES:
            for eol in ("\n", "\r\n"):
                for final in (True, False):
                    for own in (True, False):
                        for pos in ("last", "first", "middle", "after"):
                            for existing in ("", "listed", "unlisted", "twice", "nohash", "wrong"):
                                i = next(k)
                                methods = list(wheels.METHODS)
                                for m in methods if tier != "quick" else [methods[i % 4]]:
                                    yield [lines, eol, final, own, pos, existing, m, props[i % 3]]
    return gen


# ------------------------------------------------------------------------------------- dist-info directories
DIRS = ["pkg-1.0.dist-info", "pkg-1.dist-info", "pkg-2.0.1rc1.dist-info", "p_k.g-1!2.0+l.1.dist-info", "PKG-1.0.dist-info", "x.dist-info", "p k-1.0.dist-info", "\u00e9-1.0.dist-info", "a-b-c.dist-info"]


def run_dirs(case):
    di, existing, pos, props = case
    meta, record = f"{di}/variant.json", f"{di}/RECORD"
    files = [member("pkg/a.py", "a = 1\n"), member("variant.json", "{}"), member("pkg.dist-infos/variant.json", "1"), member("dist-info/variant.json", "2")]
    entry = [wheels.record_line(meta, OLD.encode())] if existing == "listed" else []
    rec = member(record, record_of(files, own=False, extra=entry) + f"{record},,\n", kind="ro", date=DATES[1])
    mine = [member(meta, OLD, DATES[2], "exec", "stored")] if existing else []
    rest = [member(f"{di}/METADATA", "Name: pkg\n"), member(f"{di}/sub/variant.json", "3"), member(f"{di}/variant.json.sig", "4")]
    body = {"last": files + rest + mine + [rec], "first": [rec, *mine, *files, *rest], "split": [*mine, *files, rec, *rest]}[pos]
    return Outcome((case, go(body, props=[tuple(p) for p in props], project="rich" if existing else "empty", meta=meta, record=record)))


def gen_dirs(tier):
    def gen():
        for di in DIRS:
            for existing in ("", "listed", "unlisted"):
                for pos in ("last", "first", "split"):
                    for props in REQUESTS[:2]:
                        yield [di, existing, pos, props]
    return gen


# ------------------------------------------------------------------------------------------ names and requests
NAMES = {  # input name -> name without label
    "pkg-1.0-py3-none-any.whl": "pkg-1.0-py3-none-any", "pkg-1.0-py3-none-any-null.whl": "pkg-1.0-py3-none-any", "pkg-1.0-py3-none-any-0123456789abcdef.whl": "pkg-1.0-py3-none-any",
    "pkg-1.0-3-py3-none-any.whl": "pkg-1.0-3-py3-none-any", "pkg-1.0-3b-cp39.cp310-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64-a.b_c.whl": "pkg-1.0-3b-cp39.cp310-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64",
    "p_k.g-1!2.0rc1+l.1-py3-none-any-x.whl": "p_k.g-1!2.0rc1+l.1-py3-none-any", "pkg-1.0-1-py3-none-any-py3.whl": "pkg-1.0-1-py3-none-any",
}
REQUESTS = [[], [("a", "f", "x")], [("a", "f", "y"), ("a", "f", "x"), ("b", "g", "1.2")], [(f"n{i}", "f", f"v{i}") for i in range(33)], [("n", f"f{i % 7}", str(i)) for i in range(129)]]


def run_names(case):
    name, props, label, project, where = case
    body = dist_info(record_of([]), before=[member("pkg.py", "x")])
    return Outcome((case, len(go(body, props=[tuple(p) for p in props], label=label, project=project, name=name, base=NAMES[name], where=where))))


def gen_names(tier):
    for name in NAMES:
        for props in REQUESTS:
            for label in (None, "a", "nul", "0.1_b", "0123456789abcdef", "py3", "whl", ".", "_"):
                if not props and label is not None:
                    continue
                for project in PROJECTS:
                    for where in ("out", "in"):
                        yield [name, props, label, project, where]
    # the output is the input itself
    for lab in ("x", "0123456789abcdef"):
        name = f"pkg-1.0-py3-none-any-{lab}.whl"
        NAMES[name] = "pkg-1.0-py3-none-any"
        for project in PROJECTS:
            yield [name, REQUESTS[1], lab, project, "in"]
            yield [name, REQUESTS[2], lab, project, "in"]
    yield ["pkg-1.0-py3-none-any-null.whl", [], None, "empty", "in"]


def run_refuse(case):
    name, props, label, extra = case
    d = env().fresh()
    (d / "in").mkdir()
    (d / "out").mkdir()
    (d / "f").write_text("file")
    src = d / "in" / name
    if extra == "isdir":
        src.mkdir()
    elif extra == "notzip":
        src.write_bytes(b"not an archive")
    elif extra != "missing":
        wheels.build(src, dist_info(record_of([]), before=[member("pkg.py", "x")]))
    out = {"noout": d / "none", "fileout": d / "f"}.get(extra, d / "out")
    before = sorted((str(p), p.is_file() and p.read_bytes()) for p in d.rglob("*"))
    (d / "pyproject.toml").write_text("")
    before.append((str(d / "pyproject.toml"), b""))
    status = make(d, src, out, [tuple(p) for p in props], label)
    check(status != 0, "the request was not refused")
    after = sorted((str(p), p.is_file() and p.read_bytes()) for p in d.rglob("*"))
    check_eq([p for p, _ in after], sorted(p for p, _ in before), "files after a refusal")
    check([x for x in after if "pyproject" not in x[0]] == sorted(x for x in before if "pyproject" not in x[0]), "files changed by a refusal")
    shutil.rmtree(d)
    return tuple(map(str, case))


def gen_refuse():
    ok = "pkg-1.0-py3-none-any.whl"
    one = [["a", "f", "x"]]
    for label in ("null", "", "A", "a-b", "a b", "a" * 17, "a\n", "\u00e9", "a/b", "../a", "a:b", "\u0661", " a", "a+b"):
        yield [ok, one, label, ""]
    for label in ("a", "null", "zz"):
        yield [ok, [], label, ""]
    for name in ("pkg.whl", "pkg-1.0.whl", "pkg-1.0-py3-none.whl", "pkg-1.0-py3-none-any.zip", "pkg-1.0-py3-none-any", "pkg-1.0-py3-none-any-LABEL.whl", "pkg-1.0-py3-none-any-a-b-c.whl",
                 "pkg-1.0-py3-none-any.whl.txt", "pkg-1.0-py3-none-any-.whl", "-1.0-py3-none-any.whl", "pkg-1.0-py3-none-any-abcdefghijklmnopq.whl", "pkg-1.0-b1-py3-none-any-lab.whl", "pkg 1.0-py3-none-any.whl"):
        yield [name, one, None, ""]
        yield [name, [], None, ""]
    for extra in ("missing", "isdir", "notzip", "noout", "fileout"):
        yield [ok, one, None, extra]
        yield ["pkg-1.0-py3-none-any-x.whl", one, "x", extra]


def spaces(tier):
    return [
        Space("members", gen_members(tier), run_members, setup=setup),
        Space("record", gen_record(tier), run_record, setup=setup),
        Space("dist-info", gen_dirs(tier), run_dirs, setup=setup),
        Space("names", lambda: gen_names(tier), run_names, setup=setup),
        Space("refusals", gen_refuse, run_refuse, setup=setup),
    ]
