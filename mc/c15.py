"""C15: index files are a function of the wheels, however they are produced."""
from __future__ import annotations

import itertools
import json
import os
import shutil
import zipfile

from mc import c12, c14, ref
from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points, subsets
from variantlib.variants_json import VariantsJson

LEVEL = "model_checking"
RULE = ("the model state is the set of files in the directory and the content of each index; the transitions are putting, removing, generating and adding "
        "(with every combination of options). All histories up to the depth, all subsets of a pool of wheels and other files, and all listing orders are run "
        "through the real commands, comparing every file after each step.")
ASSUMPTIONS = ["which of several mutually inconsistent wheels prevails is not judged, only that the listing order has no influence",
               "unreadable (corrupt) archives are not judged"]

COMMON, OTHER = c14.BASE, c14.DEVIATIONS["requires more"]
A, B, C = c14.A, c14.B, c14.C
P = "pkg-1.0-py3-none-any"
# name -> (common, variants, metadata member or None, kind): kind good = valid variant wheel
POOL = {
    f"{P}-v1.whl": (COMMON, {"v1": A}),
    f"{P}-v2.whl": (COMMON, {"v2": B}),
    f"{P}-null.whl": (COMMON, {"null": {}}),
    "pkg-1.0-7b-cp312-abi3-linux_x86_64-v1.whl": (COMMON, {"v1": A}),       # another build of the same variant
    f"{P}-v4.whl": (COMMON, {"v4": A}),                                    # same properties, other label
    "pkg-1.0.1-py3-none-any-v1.whl": (COMMON, {"v1": B}),                  # other version
    "pkg-10-py3-none-any-v9.whl": (OTHER, {"v9": C}),
    "pkg_x-1.0-py3-none-any-v1.whl": (OTHER, {"v1": C}),                   # other project
    # not valid variant wheels
    f"{P}-bad1.whl": (COMMON, {"v1": A}),                                  # other label inside
    f"{P}-bad2.whl": (COMMON, {"bad2": A, "v1": A}),
    f"{P}-bad3.whl": ({"providers": 1}, {"bad3": A}),
    f"{P}-bad4.whl": None,                                                 # no metadata
    f"{P}.whl": (COMMON, {"v1": C}),                                       # not a variant wheel
    "pkg-1.0-any-v1-x-y-z-v2-q.whl": (COMMON, {"q": A}),                   # not a wheel name
    f"{P}-v8.zip": (COMMON, {"v8": A}),
    f"{P}-v7.whl.txt": (COMMON, {"v7": A}),
    "sub/" + f"{P}-v6.whl": (COMMON, {"v6": A}),
    "nested.whl": "nested",
}
GOOD = list(POOL)[:8]
# mutually inconsistent with the consistent ones
CLASH = {"pkg-1.0-cp39-abi3-any-v1.whl": (COMMON, {"v1": B}), f"{P}-w1.whl": (OTHER, {"w1": C}), f"{P}-a1.whl": (c14.DEVIATIONS["namespace order"], {"a1": C})}
STORE = {}


def setup(e):
    install_entry_points(e)
    STORE["dir"] = e.root / "store"
    STORE["dir"].mkdir()
    for name, spec in {**POOL, **CLASH}.items():
        p = STORE["dir"] / name
        p.parent.mkdir(exist_ok=True)
        namever = "-".join(name.split("/")[-1].split("-")[:2])
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("pkg/__init__.py", "")
            z.writestr(f"pkg/data/{namever}.dist-info/variant.json", "not metadata")
            z.writestr("variant.json", "not metadata")
            z.writestr(f"{namever}.dist-info/METADATA", "Name: pkg\n")
            if spec == "nested" or spec is None:
                z.writestr(f"{namever}.dist-info/x/variant.json", json.dumps(c14.doc(COMMON, {"null": {}})))
                z.writestr(f"{namever}.data/variant.json", json.dumps(c14.doc(COMMON, {"null": {}})))
            else:
                z.writestr(f"{namever}.dist-info/variant.json", json.dumps(c14.doc(*spec)))
            z.writestr(f"{namever}.dist-info/RECORD", "")


def namever(name):
    return "-".join(name.split("-")[:2])


def put(d, name):
    (d / name).parent.mkdir(exist_ok=True)
    shutil.copy(STORE["dir"] / name, d / name)


class Listing:
    """directory listings come in a chosen order"""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        key = {n: i for i, n in enumerate(self.order)}

        def listdir(*a, **k):
            return sorted(self.listdir(*a, **k), key=lambda n: key.get(str(n), -1))

        class scan:
            def __init__(s, *a, **k):
                with self.scandir(*a, **k) as it:
                    s.it = iter(sorted(it, key=lambda x: key.get(os.fsdecode(x.name), -1)))

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return None

            def __iter__(s):
                return s.it

            def __next__(s):
                return next(s.it)

            def close(s):
                pass
        os.scandir, os.listdir = scan, listdir

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir


def command(*args):
    """-> True if it succeeded"""
    try:
        return cli(*args)[0] == 0
    except Exception:  # noqa: BLE001
        return False


def files(d):
    """content of every file below d"""
    out = {}
    for base, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
        for n in dirs:
            if not os.listdir(os.path.join(base, n)):
                out[os.path.relpath(os.path.join(base, n), d) + "/"] = b""
    return out


def content(data):
    j = VariantsJson(json.loads(data))
    return c14.json.dumps(c12.plain(j), sort_keys=True), c12.variants_of(j)


def index_of(names):
    """model of the index of consistent wheels"""
    variants = {}
    for n in names:
        variants.update(c14.vset(POOL[n][1]))
    return c14.canon(POOL[names[0]][0]), variants


def by_version(names):
    out = {}
    for n in names:
        if n in GOOD:
            out.setdefault(namever(n), []).append(n)
    return out


def expect_indexes(d, want, what):
    """want: {namever: (common, variants)}"""
    got = {n: v for n, v in files(d).items() if n.endswith(".json")}
    check_eq(sorted(got), sorted(f"{nv}-variants.json" for nv in want), f"{what}: index files")
    for nv, w in want.items():
        check_eq(content(got[f"{nv}-variants.json"]), w, f"{what}: index of {nv}")


# ----------------------------------------------------------------------------------------------- directories
def run_dir(case):
    names, order = case
    d = env().fresh()
    for n in names:
        put(d, n)
    before = files(d)
    consistent = all(n in POOL for n in names)
    with Listing(order):
        check(command("generate-index-json", "-d", str(d)), "generate-index-json failed")
    after = files(d)
    check_eq({k: v for k, v in after.items() if not k.endswith(".json")}, before, "the other files")
    if consistent:
        expect_indexes(d, {nv: index_of(ns) for nv, ns in by_version(names).items()}, f"listed as {order}")
    else:
        d2 = env().fresh()
        for n in names:
            put(d2, n)
        with Listing(sorted(names)):
            check(command("generate-index-json", "-d", str(d2)), "generate-index-json failed")
        check_eq(after, files(d2), "index after listing in another order")
        for nv, ns in by_version(names).items():
            if all(namever(n) != nv for n in CLASH if n in names):
                check_eq(content(after[f"{nv}-variants.json"]), index_of(ns), f"index of the unaffected {nv}")
        got = content(after["pkg-1.0-variants.json"])
        ok = [c14.vset({**POOL, **CLASH}[n][1]) for n in names if namever(n) == "pkg-1.0" and (n in CLASH or n in GOOD)]
        for lab, props in got[1].items():
            check({lab: props} in ok, f"variant {lab} is not that of any wheel")
        shutil.rmtree(d2)
    once = files(d)
    with Listing(order[::-1]):
        check(command("generate-index-json", "-d", str(d)), "generate-index-json failed")
    check_eq(files(d), once, "generating again")
    state = tuple(sorted((k, v) for k, v in once.items() if k.endswith(".json")))
    shutil.rmtree(d)
    return Outcome((tuple(sorted(names)),), trivial=not state, states=[state], transitions=2, traces=1)


def gen_dir(tier):
    def gen():
        every = list(POOL) + list(CLASH)
        small = 2 if tier == "quick" else 3
        for names in subsets(every, 0, 4 if tier == "quick" else 5):
            if len(names) == 4 and tier == "quick" and not (set(names) <= set(GOOD) or sum(n in GOOD for n in names) == 2 and names[-1] in CLASH):
                continue
            if len(names) == 5 and sum(n in GOOD for n in names) < 3:
                continue
            orders = list(itertools.permutations(names)) if len(names) <= small or (len(names) <= 3 and any(n in CLASH for n in names)) else [names, names[::-1]] + ([names[1:] + names[:1]] if tier != "quick" else [])
            for o in orders:
                yield [names, o]
        yield [every, every]
        yield [list(POOL), list(POOL)[::-1]]
    return gen


# ------------------------------------------------------------------------------------------------ incremental
def run_incremental(case):
    """adding one at a time = generating"""
    seq, overwrite_first = case
    d = env().fresh()
    done = []
    states, steps = [], 0
    for n in seq:
        nv = namever(n)
        out = d / f"{nv}-variants.json"
        args = ["add-wheel-to-index-json", "-f", str(STORE["dir"] / n), "-o", str(d)]
        if out.exists():
            args += ["-i", str(out), "-w"]
        elif overwrite_first:
            args += ["-w"]
        check(command(*args), f"adding {n} after {done} failed")
        done.append(n)
        steps += 1
        expect_indexes(d, {v: index_of(ns) for v, ns in by_version(done).items()}, f"after adding {done}")
        states.append(tuple(sorted(files(d).items())))
    inc = files(d)
    g = env().fresh()
    for n in set(seq):
        put(g, n)
    check(command("generate-index-json", "-d", str(g)), "generate-index-json failed")
    gen = {k: v for k, v in files(g).items() if k.endswith(".json")}
    check_eq({k: content(v) for k, v in inc.items()}, {k: content(v) for k, v in gen.items()}, "incremental and generated index")
    check_eq(inc, gen, "text of the incremental and the generated index")
    shutil.rmtree(d)
    shutil.rmtree(g)
    return Outcome((tuple(sorted(set(seq))), len(seq)), states=states, transitions=steps + 1, traces=1)


def gen_incremental(tier):
    def gen():
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(GOOD if n < 4 else GOOD[:6], repeat=n):
                yield [seq, n % 2 == 0]
        for seq in itertools.permutations(GOOD[:5], 5 if tier != "quick" else 4):
            yield [seq, False]
    return gen


# -------------------------------------------------------------------------------------------------- histories
W = [f"{P}-v1.whl", f"{P}-v2.whl", "pkg-1.0-7b-cp312-abi3-linux_x86_64-v1.whl", "pkg-1.0.1-py3-none-any-v1.whl"]
BADW = [f"{P}-bad1.whl", "pkg-1.0-cp39-abi3-any-v1.whl", f"{P}-w1.whl"]
OPS = ([["put", w] for w in (W[0], W[1], W[3], BADW[0])] + [["rm", W[0]], ["rm", W[1]], ["gen"], ["stale", "pkg-1.0"]] +
       [["add", w, o] for w in W[:2] for o in ("", "w", "i", "iw")] + [["add", W[2], "iw"], ["add", W[3], "iw"]] + [["add", b, "iw"] for b in BADW])


def run_history(case):
    ops = case
    d = env().fresh()
    present, index = set(), {}  # model
    states = set()
    for k, op in enumerate(ops):
        what = f"after {ops[:k + 1]}"
        before = files(d)
        if op[0] == "put":
            put(d, op[1])
            present.add(op[1])
        elif op[0] == "rm":
            (d / op[1]).unlink(missing_ok=True)
            present.discard(op[1])
        elif op[0] == "stale":
            # an index with content of its own
            (d / "pkg-1.0-variants.json").write_text(VariantsJson(c14.doc(COMMON, {"old": C})).to_str())
            index["pkg-1.0"] = (c14.canon(COMMON), c14.vset({"old": C}))
        elif op[0] == "gen":
            check(command("generate-index-json", "-d", str(d)), f"{what}: generate-index-json failed")
            for nv, ns in by_version(sorted(present)).items():
                index[nv] = index_of(ns)
        else:
            _, w, opt = op
            nv = namever(w)
            exists = nv in index
            args = ["add-wheel-to-index-json", "-f", str(STORE["dir"] / w), "-o", str(d)]
            if "i" in opt and exists:
                args += ["-i", str(d / f"{nv}-variants.json")]
            if "w" in opt:
                args += ["-w"]
            common, variants = {**POOL, **CLASH}[w]
            old = index.get(nv) if "i" in opt else None
            label = w[:-4].split("-")[-1]
            ok = list(variants) == [label] and not (exists and "w" not in opt)
            new = c14.canon(common), c14.vset(variants)
            if old:
                ok = ok and old[0] == new[0] and all(old[1].get(x, y) == y for x, y in new[1].items())
            check_eq(command(*args), ok, f"{what}: success")
            if ok:
                index[nv] = (new[0], {**(old[1] if old else {}), **new[1]})
            else:
                check_eq(files(d), before, f"{what}: files after a refused addition")
        expect_indexes(d, index, what)
        check_eq({n for n in files(d) if not n.endswith(".json")}, present, f"{what}: other files")
        states.add((tuple(sorted(present)), repr(sorted(index.items()))))
    shutil.rmtree(d)
    return Outcome(repr(sorted(index.items())) + repr(sorted(present)), states=states, transitions=len(ops), traces=1)


def gen_history(tier):
    def gen():
        for n in range(1, 4 if tier == "quick" else 5):
            ops = OPS
            for seq in itertools.product(ops, repeat=n):
                # what only touches files matters only if a command follows
                if seq[-1][0] in ("put", "rm", "stale"):
                    continue
                yield list(seq)
    return gen


# --------------------------------------------------------------------------------------------------- refusals
def run_refuse(case):
    """additions that cannot work change nothing"""
    name, state, opt = case
    d = env().fresh()
    nv = "pkg-1.0"
    if state == "index":
        (d / f"{nv}-variants.json").write_text(VariantsJson(c14.doc(COMMON, {"v1": A, "old": C})).to_str())
    elif state == "garbage":
        (d / f"{nv}-variants.json").write_text("{")
    elif state == "invalid":
        (d / f"{nv}-variants.json").write_text('{"variants": {"null": {"a": {"f": ["x"]}}}}')
    before = files(d)
    args = ["add-wheel-to-index-json", "-f", str(STORE["dir"] / name), "-o", str(d) if opt != "nodir" else str(d / "none"), "-w"]
    if opt != "noinput":
        args += ["-i", str(d / f"{nv}-variants.json") if opt != "missing" else str(d / "missing.json")]
    ok = name == f"{P}-v2.whl" and (opt == "noinput" or opt == "input" and state == "index")
    check_eq(command(*args), ok, "success")
    if not ok:
        check_eq(files(d), before, "files after a refused addition")
    else:
        want = {"v2": B} if opt == "noinput" else {"v1": A, "old": C, "v2": B}
        expect_indexes(d, {nv: (c14.canon(COMMON), c14.vset(want))}, "after the addition")
    shutil.rmtree(d)
    return Outcome(case, states=[case], transitions=1, traces=1)


def gen_refuse():
    for name in [f"{P}-v2.whl", *(n for n in list(POOL)[8:] if "/" not in n), f"{P}-nothing.whl"]:
        for state in ("none", "index", "garbage", "invalid"):
            for opt in ("noinput", "input", "missing", "nodir"):
                yield [name, state, opt]
    for name in CLASH:
        yield [name, "index", "input"]


def run_input(case):
    """adding to every kind of index: what is written is the merge, or nothing"""
    dev_name, held, wheel, where = case
    common = {"base": COMMON, "bare": {}, **c14.DEVIATIONS, **c14.SAME}[dev_name]
    vs = {"none": {}, "null": {"null": {}}, "v1": {"v1": A}, "v1 other": {"v1": B}, "v2": {"v2": B}, "several": {"v9": C, "v1": A, "null": {}, "v8": A}}[held]
    d, out = env().fresh(), env().fresh()
    nv = namever(wheel)
    src = {"same": out / f"{nv}-variants.json", "other": d / "anything.txt", "version": out / "pkg-9-variants.json"}[where]
    src.write_text(json.dumps(c14.doc(common, vs)))
    new = c14.vset(POOL[wheel][1])
    ok = c14.canon(common) == c14.canon(COMMON) and all(c14.vset(vs).get(k, v) == v for k, v in new.items())
    before = files(d), files(out)
    check_eq(command("add-wheel-to-index-json", "-f", str(STORE["dir"] / wheel), "-o", str(out), "-i", str(src), *(["-w"] if where == "same" else [])), ok, "success")
    check_eq(files(d), before[0], "files beside the input")
    if not ok:
        check_eq(files(out), before[1], "files after a refused addition")
    else:
        got = files(out)
        check_eq(content(got.pop(f"{nv}-variants.json")), (c14.canon(COMMON), {**c14.vset(vs), **new}), "the index")
        check_eq(got, {k: v for k, v in before[1].items() if where != "same"}, "other files")
    shutil.rmtree(d)
    shutil.rmtree(out)
    return Outcome(case, states=[case], transitions=1, traces=1)


def gen_input():
    for dev_name in ["base", "bare", *c14.DEVIATIONS, *c14.SAME]:
        for held in ("none", "null", "v1", "v1 other", "v2", "several"):
            for wheel in (f"{P}-v1.whl", f"{P}-null.whl"):
                for where in ("same", "other", "version"):
                    yield [dev_name, held, wheel, where]


def run_one_bad(case):
    """one of many wheels is invalid or contradicts the others: whatever the listing order, the result is the same"""
    n, at, how = case
    d = env().fresh()
    for i in range(n):
        label, common, desc = f"l{i}", COMMON, {"a": {"f": [f"v{i}"]}}
        if i == at:
            common = OTHER if how == "common" else common
        with zipfile.ZipFile(d / f"q-1-py3-none-any-{label}.whl", "w") as z:
            z.writestr("q-1.dist-info/variant.json", json.dumps(c14.doc(common, {label if i != at or how != "label" else "other": desc})))
        if i == at and how == "clash":
            with zipfile.ZipFile(d / f"q-1-7-py3-none-any-{label}.whl", "w") as z:
                z.writestr("q-1.dist-info/variant.json", json.dumps(c14.doc(common, {label: {"a": {"f": ["other"]}}})))
    order = sorted(os.listdir(d))
    outs = []
    for o in (order, order[::-1], order[at:] + order[:at], order[1::2] + order[::2]):
        with Listing(o):
            check(command("generate-index-json", "-d", str(d)), "generate-index-json failed")
        if how in ("none", "label"):
            expect_indexes(d, {"q-1": (c14.canon(COMMON), {f"l{i}": (("a", "f", f"v{i}"),) for i in range(n) if how == "none" or i != at})}, "one of many")
        outs.append(files(d)["q-1-variants.json"])
        os.unlink(d / "q-1-variants.json")
    check(len(set(outs)) == 1, "the index depends on the listing order")
    shutil.rmtree(d)
    return Outcome(case, states=[case], transitions=1, traces=1)


def gen_one_bad(tier):
    def gen():
        for n in (3, 9, 33) if tier == "quick" else (3, 5, 9, 17, 33, 65, 129):
            for at in sorted({0, 1, n // 2, n - 1}):
                for how in ("none", "common", "label", "clash"):
                    yield [n, at, how]
    return gen


def run_many(case):
    n, = case
    d = env().fresh()
    for i in range(n):
        for v in ("1", "1.0", "1.0.0"):
            with zipfile.ZipFile(d / f"q-{v}-py3-none-any-l{i}.whl", "w") as z:
                z.writestr(f"q-{v}.dist-info/variant.json", json.dumps(c14.doc(COMMON, {f"l{i}": {"a": {"f": [f"{v}.{i}"]}}})))
    check(command("generate-index-json", "-d", str(d)), "generate-index-json failed")
    expect_indexes(d, {f"q-{v}": (c14.canon(COMMON), {f"l{i}": (("a", "f", f"{v}.{i}"),) for i in range(n)}) for v in ("1", "1.0", "1.0.0")}, "many wheels")
    shutil.rmtree(d)
    return Outcome(n, states=[n], transitions=1, traces=1)


# ---- names and versions that are easily confused
PROJ = ["pkg", "Pkg", "PKG", "pkg_", "p_k_g", "p.kg", "pk", "variants", "_", "null", "p9", "dist_info"]
VERS = ["1", "1.0", "1.0.0", "01", "1.0rc1", "1.0.dev0", "1!1", "1.0+l.1", "1.0.post1", "1_0"]
TAGS = ["py3-none-any", "1-py3-none-any", "7b-cp312-abi3-linux_x86_64", "py2.py3-none-any.linux_x86_64"]


def run_names(case):
    wheels = case  # [project, version, tags]
    d, inc = env().fresh(), env().fresh()
    want = {}
    for i, (p, v, t) in enumerate(wheels):
        label = f"l{i}"
        with zipfile.ZipFile(d / f"{p}-{v}-{t}-{label}.whl", "w") as z:
            z.writestr(f"{p}-{v}.dist-info/variant.json", json.dumps(c14.doc(COMMON, {label: {"a": {"f": [f"v{i}"]}}})))
        want.setdefault(f"{p}-{v}", {})[label] = (("a", "f", f"v{i}"),)
        out = inc / f"{p}-{v}-variants.json"
        check(command("add-wheel-to-index-json", "-f", str(d / f"{p}-{v}-{t}-{label}.whl"), "-o", str(inc), *(["-i", str(out), "-w"] if out.exists() else [])), f"adding {p}-{v}-{t} failed")
    check(command("generate-index-json", "-d", str(d)), "generate-index-json failed")
    want = {k: (c14.canon(COMMON), v) for k, v in want.items()}
    expect_indexes(d, want, "generated")
    expect_indexes(inc, want, "incremental")
    shutil.rmtree(d)
    shutil.rmtree(inc)
    return Outcome(case, states=[repr(case)], transitions=1 + len(wheels), traces=1)


def gen_names(tier):
    def gen():
        for p in PROJ:
            for v in VERS:
                for t in TAGS:
                    yield [[p, v, t]]
        for i, (p, q) in enumerate(itertools.combinations(PROJ, 2)):
            for v in VERS[:1] if tier == "quick" else VERS:
                yield [[p, v, TAGS[i % 4]], [q, v, TAGS[0]], [p, v, TAGS[(i + 1) % 4]]]
        for i, (v, w) in enumerate(itertools.combinations(VERS, 2)):
            for p in PROJ[:2] if tier == "quick" else PROJ:
                yield [[p, v, TAGS[i % 4]], [p, w, TAGS[0]], [p, v, TAGS[(i + 1) % 4]]]
        yield [[p, v, t] for p in PROJ for v in VERS for t in TAGS[:2]]
    return gen


def spaces(tier):
    return [
        Space("directories", gen_dir(tier), run_dir, setup=setup),
        Space("incremental", gen_incremental(tier), run_incremental, setup=setup),
        Space("histories", gen_history(tier), run_history, setup=setup),
        Space("refusals", gen_refuse, run_refuse, setup=setup),
        Space("names", gen_names(tier), run_names, setup=setup),
        Space("many", lambda: ([n] for n in [*range(1, 13), 33, 101]), run_many, setup=setup),
        Space("inputs", gen_input, run_input, setup=setup),
        Space("one of many", gen_one_bad(tier), run_one_bad, setup=setup),
    ]
