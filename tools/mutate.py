#!/usr/bin/env python3
"""Mutation runs over variantlib, to find what the checks cannot see (a development tool; no check uses it).

  mutate.py list                      number of mutants by file
  mutate.py run DIR [N/M]             for each mutant (or a part): the tests and, if they pass, the checks for its file until one catches it;
                                      appends to DIR/results.jsonl; mutants recorded there are skipped
"""
import ast
import concurrent.futures
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import threading

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MUT_REPO", "/repo"))
PY = "/opt/venv/bin/python"

CHECKS = {
    "models/variant.py": "C28 C01 C02 C24 C10 C13 C03 C12 C23",
    "models/variant_info.py": "C28 C13 C12 C06 C19 C14 C05 C16",
    "models/provider.py": "C28 C02 C07 C06 C08 C24 C10",
    "models/configuration.py": "C28 C21 C05",
    "models/base.py": "C28 C02 C07 C21",
    "variants_json.py": "C13 C12 C14 C15 C05 C19 C16 C23",
    "variant_dist_info.py": "C13 C12 C15 C19 C16 C20",
    "pyproject_toml.py": "C13 C12 C19 C22",
    "configuration.py": "C21 C05 C23 C26",
    "constants.py": "C02 C20 C13 C11 C06 C16",
    "validators/base.py": "C28 C02 C07 C13 C21 C03",
    "validators/combining.py": "C28 C02 C07",
    "validators/keytracking.py": "C13 C12 C19",
    "resolver/filtering.py": "C28 C03 C05 C23",
    "resolver/sorting.py": "C28 C04 C05",
    "resolver/lib.py": "C28 C11 C03 C05 C04 C23 C26",
    "api.py": "C05 C10 C19 C01 C24 C20 C25 C06 C16 C26",
    "plugins/loader.py": "C06 C07 C08 C09 C22 C24 C10 C19 C23 C26",
    "plugins/_subprocess.py": "C07 C06 C08 C19 C26",
    "protocols.py": "C07 C08",
    "utils.py": "C05 C21 C04",
    "cache.py": "C23",
    "commands/make_variant.py": "C16 C17 C19 C10 C20 C18 C27",
    "commands/unmake_variant.py": "C17 C20 C18 C27",
    "commands/generate_index_json.py": "C15 C20 C18 C27",
    "commands/add_wheel_to_index_json.py": "C15 C20 C18 C27",
    "commands/analyze_wheel.py": "C24 C20 C27",
    "commands/analyze_platform.py": "C24 C27",
    "commands/get_variant_hash.py": "C24 C01 C27",
    "commands/update_pyproject_toml.py": "C22 C18 C27",
    "commands/utils.py": "C26 C18 C15 C16 C27",
    "commands/main.py": "C24 C15 C27",
    "commands/config/list_paths.py": "C21 C27",
    "commands/config/show.py": "C21 C27",
    "commands/config/main.py": "C21 C27",
    "commands/plugins/get_configs.py": "C24 C27",
    "commands/plugins/list_plugins.py": "C24 C27",
    "commands/plugins/main.py": "C24 C27",
}

CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
UNWRAP = {"sorted", "list", "set", "tuple", "dict", "deepcopy", "frozenset", "reversed"}
UNCALL = {"copy", "strip", "rstrip", "lstrip", "resolve", "encode", "values", "keys", "rsplit", "items", "lower"}
QUIET = {"logger", "parser"}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln))
        self.out = []

    def pos(self, lineno, col):
        return self.starts[lineno - 1] + len(self.lines[lineno - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.text[a:b]

    def put(self, n, new, kind):
        a, b = n if isinstance(n, tuple) else self.span(n)
        if self.text[a:b] != new:
            self.out.append((a, b, new, kind))

    # what is not behaviour
    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        self.body(n.body)

    def visit_Raise(self, n):
        self.put(n, "pass", "no raise")

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.src(n.test) or "version_info" in self.src(n.test):
            return
        self.put(n.test, f"not ({self.src(n.test)})", "if not")
        self.put(n.test, "True", "if True")
        self.put(n.test, "False", "if False")
        self.visit(n.test)
        self.body(n.body)
        self.body(n.orelse)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            root = n.value.func
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in QUIET:
                return
        if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.put(n, "pass", "no call")
        self.generic_visit(n)

    def body(self, stmts):
        for s in stmts:
            self.visit(s)

    def visit_Continue(self, n):
        self.put(n, "break", "break")
        self.put(n, "pass", "no continue")

    def visit_Break(self, n):
        self.put(n, "pass", "no break")

    def visit_AugAssign(self, n):
        self.put(n, "pass", "no +=")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.put(n, "pass", "no assignment")
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.put(n, "pass", "no del")

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            left, right = self.src(n.left), self.src(n.comparators[0])
            for new in CMP[type(n.ops[0])]:
                self.put(n, f"({left} {new} {right})", "comparison")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        parts = [self.src(v) for v in n.values]
        word, other = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
        if not any(":=" in p for p in parts):
            self.put(n, "(" + other.join(f"({p})" for p in parts) + ")", "and/or")
            for k in range(len(parts)):
                self.put(n, "(" + word.join(f"({p})" for i, p in enumerate(parts) if i != k) + ")", "operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, f"bool({self.src(n.operand)})", "no not")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, self.src(n.body), "if-else")
        self.put(n, self.src(n.orelse), "if-else")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "bool")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "int")
            self.put(n, str(v - 1), "int")
        elif isinstance(v, str) and v and not any(c in v for c in " ") and self.src(n)[0] in "'\"":
            self.put(n, repr(v + "x"), "str")

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                pass

    def visit_Call(self, n):
        f = n.func
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in QUIET:
            return
        if isinstance(f, ast.Name) and f.id in UNWRAP and len(n.args) == 1 and not n.keywords:
            new = self.src(n.args[0])
            self.put(n, f"({new})", "unwrap")
        if isinstance(f, ast.Attribute) and f.attr in UNCALL:
            self.put(n, self.src(f.value), "uncall")
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                a, b = self.pos(k.lineno, k.col_offset), self.pos(k.end_lineno, k.end_col_offset)
                rest = self.text[b:]
                if rest.lstrip().startswith(","):
                    b += len(rest) - len(rest.lstrip()) + 1
                self.put((a, b), "", "no keyword")
        if len(n.args) == 2 and not n.keywords and isinstance(f, ast.Attribute) and f.attr in ("get", "setdefault", "pop"):
            pass
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.put(n.value, "None", "return None")
        self.generic_visit(n)

    def comp(self, n):
        for g in n.generators:
            for c in g.ifs:
                self.put(c, "True", "no filter")
        self.generic_visit(n)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ExceptHandler(self, n):
        if n.type is not None:
            self.put(n.type, "ZeroDivisionError", "not caught")
            if self.src(n.type) != "Exception":
                self.put(n.type, "Exception", "caught")
        self.body(n.body)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Sub):
            self.put(n, self.src(n.left), "no -")
        if isinstance(n.op, ast.Add):
            self.put(n, self.src(n.left), "no +")
        self.generic_visit(n)

    def visit_Slice(self, n):
        for side in (n.lower, n.upper):
            if side is not None:
                self.put(side, "", "slice")
        self.generic_visit(n)

    def visit_List(self, n):
        if len(n.elts) > 1 and isinstance(n.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in n.elts):
            for k in range(len(n.elts)):
                self.put(n, "[" + ", ".join(self.src(e) for i, e in enumerate(n.elts) if i != k) + "]", "element")
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if len(n.elts) > 1 and isinstance(n.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in n.elts):
            for k in range(len(n.elts)):
                self.put(n, "(" + ", ".join(self.src(e) for i, e in enumerate(n.elts) if i != k) + ",)", "element")
        self.generic_visit(n)
    visit_Import = visit_ImportFrom = visit_Assert = lambda self, n: None


def mutants():
    out = []
    for f in CHECKS:
        p = REPO / "variantlib" / f
        text = p.read_text()
        v = Finder(text)
        v.visit(ast.parse(text))
        seen = set()
        for a, b, new, kind in v.out:
            mutated = text[:a] + new + text[b:]
            if mutated in seen:
                continue
            seen.add(mutated)
            try:
                compile(mutated, f, "exec")
            except (SyntaxError, ValueError):
                continue
            out.append({"file": f, "line": text.count("\n", 0, a) + 1, "old": text[a:b], "new": new, "kind": kind, "a": a, "b": b})
    return out


def key(m):
    return f"{m['file']}:{m['line']}:{m['a']}:{m['b']}:{m['kind']}:{m['new']}"


def order(c, f):
    """the test files, those named like the file first and the slowest last"""
    tests = sorted(str(p.relative_to(c)) for p in (c / "tests").rglob("test_*.py") if "artifacts" not in p.parts)
    stem = pathlib.Path(f).stem.strip("_")
    slow = ["tests/resolver/test_lib.py", "tests/test_api.py"]
    return sorted(tests, key=lambda t: (stem not in t, t in slow))


def one(m, base):
    tls = threading.get_ident()
    d = pathlib.Path(base) / f"w{tls}"
    c = d / "repo"
    if not c.exists():
        d.mkdir(parents=True)
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(ROOT, d / "verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        (d / "verif/evidence").mkdir()
    f = c / "variantlib" / m["file"]
    text = (REPO / "variantlib" / m["file"]).read_text()
    f.write_text(text[:m["a"]] + m["new"] + text[m["b"]:])
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1", HYPOTHESIS_PROFILE="ci", PYTHONPATH=str(c))
    res = dict(m)
    try:
        try:
            r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "--no-cov", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=100", *order(c, m["file"])], cwd=c, env=env, capture_output=True, text=True, timeout=400)
            res["tests"] = "pass" if r.returncode == 0 else "fail"
            if r.returncode:
                res["first"] = [ln for ln in r.stdout.splitlines() if ln.startswith(("FAILED", "ERROR"))][:1]
        except subprocess.TimeoutExpired:
            res["tests"] = "timeout"
        if res["tests"] != "pass":
            return res
        res["checks"] = {}
        for n in CHECKS[m["file"]].split():
            try:
                r = subprocess.run([str(d / "verif/run"), n], cwd=d / "verif", env=dict(os.environ, MC_REPO=str(c), MC_WORKERS="2"), capture_output=True, text=True, timeout=900)
                res["checks"][n] = r.returncode
            except subprocess.TimeoutExpired:
                res["checks"][n] = "timeout"
            if res["checks"][n] == 1:
                return res
    finally:
        f.write_text(text)
    return res


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for f in CHECKS:
            print(f, sum(m["file"] == f for m in ms))
        print(len(ms))
        return
    base = pathlib.Path(sys.argv[2])
    base.mkdir(exist_ok=True, parents=True)
    part, parts = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
    log = base / "results.jsonl"
    done = {key(json.loads(ln)) for ln in log.read_text().splitlines()} if log.exists() else set()
    todo = [m for i, m in enumerate(ms) if i % parts == part and key(m) not in done]
    if len(sys.argv) > 4:
        todo = [m for m in todo if m["file"] in sys.argv[4].split(",")]
    todo = [m for m in todo if not m["old"].startswith(("help=", "description=", "prog=", "dest=")) and not m["new"].startswith("help=")]
    random.Random(5).shuffle(todo)
    print(len(todo), "to do", flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(one, m, base) for m in todo]):
            r = fut.result()
            with log.open("a") as out:
                out.write(json.dumps(r) + "\n")


main()
