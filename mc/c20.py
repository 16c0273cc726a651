"""C20: labels and wheel names are split and validated exactly."""
from __future__ import annotations

import itertools
import json
import os
import shutil

from mc import c14, c16, ref, wheels
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points, raises, vd
from mc.wheels import member
from variantlib.api import get_variant_label
from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
from variantlib.errors import ValidationError
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

LEVEL = "exploration"
RULE = ("every combination of name, version, build tag, tags, label and suffix over pools of usual, extreme and invalid parts, with parts missing and in excess: the "
        "parser and all five commands on a wheel of that name, each compared with splitting at the dashes; every single character, every length and "
        "every pair of special characters as a label, in every place that accepts labels. An outcome is the split or the verdict.")
ASSUMPTIONS = ["either reading is accepted where a name is ambiguous (Python tag starting with a digit)",
               "names with an empty version or blanks in the build tag may be refused or accepted"]

PROPS = [("a", "f", "x"), ("b", "g", "y")]


def setup(e):
    install_entry_points(e)


def readings(name):
    """-> (possible readings (base, namever, build, label) or None for refusal)"""
    if not name.endswith(".whl"):
        return [None]
    parts = name[:-4].split("-")
    if not 5 <= len(parts) <= 7:
        return [None]
    out = []
    for build in (False, True):
        for label in (False, True):
            if len(parts) != 5 + build + label:
                continue
            want = list(parts)
            lab = want.pop() if label else None
            b = want.pop(2) if build else None
            if label and not ref.ok_label(lab):
                continue
            doubt = want[1] == "" or (b is not None and (any(c.isspace() for c in b) or b[:1] not in "0123456789" and b[:1].isdigit()))
            if b is not None and not (b[:1].isdigit() and b != ""):
                continue
            if any(any(c.isspace() for c in w) for w in want) or not all(want[:1] + want[2:]):
                continue
            out.append(("-".join(parts[:len(parts) - label]), "-".join(parts[:2]), b, lab))
            if doubt:
                out.append(None)
    return out or [None]


def archive(path, label):
    meta = json.dumps(c14.doc(c14.BASE, {label: {} if label == "null" else ref.packed(PROPS)}))
    wheels.build(path, c16.dist_info(c16.record_of([]), before=[member("pkg.py", "x"), member(c16.META, meta)]))


def run(*args):
    try:
        status, out = cli(*map(str, args))
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__, ""
    return status, out


def observe(d, name):
    """what each command takes the file for"""
    f = d / "in" / name
    got = {}
    status, out = run("analyze-wheel", "-i", f)
    got["analyze"] = "refused" if status else "accepted"
    got["shown"] = sorted(line for line in out.splitlines() if "::" in line)
    status, _ = run("unmake-variant", "-f", f, "-o", d / "out")
    got["unmake"] = "refused" if status else sorted(os.listdir(d / "out"))
    for x in os.listdir(d / "out"):
        (d / "out" / x).unlink()
    status, _ = run("add-wheel-to-index-json", "-f", f, "-o", d / "out")
    got["add"] = "refused" if status else {x: sorted(json.loads((d / "out" / x).read_text())["variants"]) for x in os.listdir(d / "out")}
    if status:
        check_eq(os.listdir(d / "out"), [], f"{name}: files after a refused addition")
    for x in os.listdir(d / "out"):
        (d / "out" / x).unlink()
    status, _ = run("generate-index-json", "-d", d / "in")
    check_eq(status, 0, f"{name}: status of generate-index-json")
    got["generate"] = {x: sorted(json.loads((d / "in" / x).read_text())["variants"]) for x in os.listdir(d / "in") if x.endswith(".json")}
    for x in got["generate"]:
        (d / "in" / x).unlink()
    status, _ = run("make-variant", "-f", f, "-o", d / "out", "--no-isolation", "--skip-plugin-validation", "--pyproject-toml", d / "p.toml", "-p", "a :: f :: x", "--variant-label", "new")
    got["make"] = "refused" if status else os.listdir(d / "out")
    return got


def expected(r, meta):
    """what each command must take a file with this reading for, with metadata naming the label meta"""
    out = {"analyze": "refused", "shown": [], "unmake": "refused", "add": "refused", "generate": {}, "make": "refused"}
    if r is None:
        return out
    base, namever, _, label = r
    out["make"] = [f"{base}-new.whl"]
    if label is None:
        out.update(analyze="accepted", unmake=[])
        return out
    out["unmake"] = [f"{base}.whl"]
    if label == meta:
        index = {f"{namever}-variants.json": [label]}
        out.update(analyze="accepted", shown=[] if label == "null" else sorted(" :: ".join(p) for p in PROPS), add=index, generate=index)
    return out


def run_name(case):
    name, meta = case
    options = readings(name)
    m = VALIDATION_WHEEL_NAME_REGEX.fullmatch(name)
    got = None if m is None else (m["base_wheel_name"], m["namever"], m["build"], m["variant_label"])
    check(got in options, lambda: f"{name!r} is read as {got}, expected {options}")
    if m is not None:
        check_eq("-".join(x for x in (m["name"], m["ver"], m["build"], m["pyver"], m["abi"], m["plat"], m["variant_label"]) if x is not None) + ".whl", name, "the parts joined again")
        check_eq(f"{m['name']}-{m['ver']}", m["namever"], "name and version")
    d = env().fresh()
    (d / "in").mkdir()
    (d / "out").mkdir()
    (d / "p.toml").write_text("")
    labels = {r[3] for r in options if r and r[3]}
    archive(d / "in" / name, meta if meta else min(labels, default="x"))
    label = meta or min(labels, default="x")
    seen = observe(d, name)
    wants = [expected(r, label) for r in options]
    if not name.endswith(".whl") or name == ".whl":
        for w in wants:
            w["generate"] = {}
    check(seen in wants, lambda: f"{name!r} (metadata: {label}): the commands take it for {seen}, expected {wants}")
    check(seen == expected(got, label) or not name.endswith(".whl"), lambda: f"{name!r} (metadata: {label}): the commands take it for {seen}, but it is read as {got}")
    shutil.rmtree(d)
    return (name, meta, str(got))


LABELS = [None, "a", "null", "0", ".", "_", "a.b_c", "py3", "whl", "x.whl", "0123456789abcdef", "abcdefghijklmnop", "any", "none", "..", "1.0", "a" * 16]
NO_LABELS = ["", "A", "a" * 17, "Null", "a b", "a+b", "a\n", "\u00e9", "a:b", "\u0661", "a,b", " a", "\u00df", "\u017f", "\u212a", "a\u0301", "~", "a@b", "\n"]


def gen_names(tier):
    def gen():
        seen = set()

        def out(parts, suffix=".whl", meta=None):
            name = "-".join(p for p in parts if p is not None) + suffix
            if (name, meta) in seen or len(name.encode()) > 250 or "/" in name:
                return []
            seen.add((name, meta))
            return [[name, meta]]
        ns, vs, bs = ["pkg", "p.k_g", "P", "1", "py3", "\u00e9"], ["1.0", "1!2.0rc1+l.1", "0", "any", "v"], [None, "1", "3b", "20240101.x_y", "1none"]
        pys, abis, plats = ["py3", "cp39.cp310", "py2.py3"], ["none", "abi3", "cp39.abi3"], ["any", "linux_x86_64", "manylinux_2_17_x86_64.manylinux2014_x86_64"]
        for lab in LABELS + NO_LABELS:
            for n, v, b in itertools.product(ns, vs, bs):
                yield from out([n, v, b, "py3", "none", "any", lab])
            for b in bs:
                for t in itertools.product(pys, abis, plats):
                    yield from out(["pkg", "1.0", b, *t, lab])
        # one part replaced by something strange
        odd = ["", " ", "a b", "\t", "\n", "a\n", "\u00a0", "-", ".", "_", "1", "12", "1x", "1 x", "x1", "\u0661", "b1", "any", ".whl", "a.whl", "\u2028", "+", "null", "~", "\u00b2", "0"]
        base = ["pkg", "1.0", None, "py3", "none", "any", None]
        for b, lab in itertools.product([None, "1"], [None, "a", "1", "A"]):
            for i in range(7):
                for o in odd:
                    p = list(base)
                    p[2], p[6] = b, lab
                    p[i] = o
                    yield from out(p)
                    if tier != "quick":
                        for j in range(i + 1, 7):
                            for o2 in odd:
                                q = list(p)
                                q[j] = o2
                                yield from out(q)
        # any number of simple parts
        for n in range(1, 9):
            for p in itertools.product(["a", "1", "A"] if n < 8 else ["a"], repeat=n):
                if tier == "quick" and n > 5 and p.count("A") > 1:
                    continue
                yield from out(p)
        for s in (".WHL", ".Whl", ".zip", "", ".whl ", ".whl.whl", ".whl.txt", ".whlx", ".wh", "whl", "..whl", ".whl~", ".whl\n", ".metadata", ".whl.metadata", "-.whl"):
            for b, lab in itertools.product([None, "1"], [None, "a", "null"]):
                yield from out(["pkg", "1.0", b, "py3", "none", "any", lab], s)
        # metadata with another label
        for lab in LABELS[1:]:
            for meta in ["a", "null", "b", "aa", "a.", "0", "00", "py3", "a.b_d", "0123456789abcdee", "a" * 15]:
                for b in (None, "1"):
                    if meta != lab:
                        yield from out(["pkg", "1.0", b, "py3", "none", "any", lab], meta=meta)
    return gen


# ------------------------------------------------------------------------------------------------------- labels
SOME, NOTHING = vd(PROPS), vd([])


def accepted_label(s):
    """by the library"""
    ok = not raises(ValidationError, get_variant_label, SOME, s)
    want = ref.ok_label(s) and s != "null"
    check(ok == want, f"label {s!r} for a variant with properties: {'accepted' if ok else 'refused'}")
    if ok:
        check_eq(get_variant_label(SOME, s), s, "label")
    ok = not raises(ValidationError, get_variant_label, NOTHING, s)
    check(ok == (s == "null"), f"label {s!r} for the variant without properties: {'accepted' if ok else 'refused'}")
    return want


def everywhere(s):
    """the other places that take labels"""
    want = accepted_label(s)
    for props, w in ((PROPS, want), ((), s == "null")):
        data = c14.doc(c14.BASE, {s: ref.packed(props)})
        ok = not raises(ValidationError, lambda: VariantsJson(data))
        check(ok == w, f"index with label {s!r} for {len(props)} properties: {'accepted' if ok else 'refused'}")
        ok = not raises(ValidationError, lambda: VariantDistInfo(json.dumps(data), s))
        check(ok == w, f"metadata with label {s!r} for {len(props)} properties: {'accepted' if ok else 'refused'}")
    d = env().root / "labels"
    if not d.exists():
        (d / "in").mkdir(parents=True)
        (d / "p.toml").write_text("")
        archive(d / "in/pkg-1.0-py3-none-any.whl", "x")
    (d / "out").mkdir()
    if not any(0xD800 <= ord(c) < 0xE000 for c in s) and "\0" not in s:
        status, _ = run("make-variant", "-f", d / "in/pkg-1.0-py3-none-any.whl", "-o", d / "out", "--no-isolation", "--skip-plugin-validation", "--pyproject-toml", d / "p.toml", "-p", "a :: f :: x", f"--variant-label={s}")
        check((status == 0) == want, f"make-variant with label {s!r}: {status}")
        check_eq(os.listdir(d / "out"), [f"pkg-1.0-py3-none-any-{s}.whl"] if want else [], "output of make-variant")
    shutil.rmtree(d / "out")
    name = f"pkg-1.0-py3-none-any-{s}.whl"
    if "-" not in s:
        m = VALIDATION_WHEEL_NAME_REGEX.fullmatch(name)
        check((m is not None) == ref.ok_label(s), f"{name!r} as a wheel name: {m}")
    return want


def run_chars(case):
    lo, hi = case
    n = 0
    for c in range(lo, hi):
        n += accepted_label(chr(c))
        accepted_label("a" + chr(c))
        accepted_label(chr(c) + "0")
        s = f"pkg-1.0-py3-none-any-{chr(c)}.whl"
        check((VALIDATION_WHEEL_NAME_REGEX.fullmatch(s) is not None) == ref.ok_label(chr(c)), f"{s!r} as a wheel name")
    return Outcome((lo, n), evaluations=4 * (hi - lo))


def run_labels(case):
    return (case, [everywhere(s) for s in case])


def gen_labels(tier):
    alphabet = "09az._-AZ \n\t:/+@`{\u0661\u00e9\u017f\u212a\u2028\0\\\"'"
    for n in range(0, 3 if tier == "quick" else 4):
        for p in itertools.product(alphabet, repeat=n):
            yield ["".join(p)]
    for n in range(0, 40):
        for c in "a0._A":
            yield [c * n]
            yield ["b" * max(n - 1, 0) + c]
    for i in range(16):
        for c in alphabet:
            yield ["x" * i + c + "y" * (15 - i), "x" * i + c + "y" * (16 - i)]
    for w in ("null", "NULL", "Null", "nul", "nulll", "null ", " null", "null\n", "null.", "none", "NaN", "null" * 4, "nu\u017fl", "n\u00fall", "whl", "any", "py3", "con", "..", "...", "variants", "$schema", "__proto__", "0x10", "1e5"):
        yield [w]


def gen_chars():
    for lo in range(0, 0x110000, 0x1000):
        yield [lo, lo + 0x1000]


def spaces(tier):
    return [
        Space("names", gen_names(tier), run_name, setup=setup),
        Space("characters", gen_chars, run_chars, setup=setup),
        Space("labels", lambda: gen_labels(tier), run_labels, setup=setup),
    ]
