"""C22: updating the project file keeps it valid and touches nothing else."""
from __future__ import annotations

import copy
import itertools
import json
import os
import re
import shutil
import sys
import tomllib

from packaging.requirements import Requirement
from packaging.utils import canonicalize_name

from mc.core import Outcome, Space, check, check_eq, env
from mc.util import cli, install_entry_points
from mc.zygote import Zygote, api
from variantlib.pyproject_toml import VariantPyProjectToml

LEVEL = "model_checking"
RULE = ("explicit-state exploration: the states are the texts of the project file, the transitions are runs of the command with every combination of additions "
        "and deletions from a list (installed, unknown, absent, repeated, several at once, none); from every initial document all texts reachable within the "
        "depth are visited once, and after every transition the parsed content is compared with the model of the operation, the text outside of the variant "
        "tables with what it was, and the step is repeated.")
ASSUMPTIONS = ["the text of a table reaches from its header to the next header", "documents that spell the variant table with dotted keys at top level are left out (tomlkit corrupts them)",
               "blank lines at the borders of tables are not judged"]

PLUGINS = {"aa": ("Aa.Dist", "1.5"), "bb": ("bb_dist", "2.0rc1"), "cc": ("aa-dist2", "0"), "b": ("bb_dist", "2.0rc1")}
Z = {}


def setup(e):
    install_entry_points(e)
    py, _ = Zygote(e).venv("v")
    sys.executable = str(py)
    for dist, version in set(PLUGINS.values()):
        di = e.root / "sp" / f"{dist.replace('-', '_')}-{version}.dist-info"
        di.mkdir()
        (di / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {dist}\nVersion: {version}\n")
        (di / "entry_points.txt").write_text("[variant_plugins]\n" + "".join(f"{ns}_ep = {reference(ns)}\n" for ns, d in PLUGINS.items() if d == (dist, version)))


def reference(ns):
    return api({"ns": ns, "all": [["f", ["x"], False]], "sup": [], "aot": True, "i": 30})


# ------------------------------------------------------------------------------------------------------ model
def model(data, adds, dels):
    """-> parsed content afterwards, or None if refused"""
    if not adds and not dels or any(a not in PLUGINS for a in adds):
        return None
    data = copy.deepcopy(data)
    v = data.setdefault("variant", {})
    prio = v.setdefault("default-priorities", {}).setdefault("namespace", [])
    provs, static = v.setdefault("providers", {}), v.get("static-properties", {})
    for d in dels:
        prio[:] = [n for n in prio if n != d]
        provs.pop(d, None)
        static.pop(d, None)
    for a in adds:
        if a not in prio:
            prio.append(a)
        p = provs.setdefault(a, {})
        p["plugin-api"] = reference(a)
        if "requires" not in p:
            p["requires"] = ["%s >= %s" % PLUGINS[a]]
        if p["requires"]:
            static.pop(a, None)
    return data


def canon(data):
    """comparable content: tables that are empty count as absent; default requirements by meaning"""
    data = copy.deepcopy(data)
    v = data.get("variant", {})
    for n, p in v.get("providers", {}).items():
        p["requires"] = [norm_req(r) for r in p["requires"]] if "requires" in p else None

    def strip(x):
        return {k: strip(y) for k, y in x.items() if not (isinstance(y, dict) and not strip(y))} if isinstance(x, dict) else x
    for key in ("default-priorities", "providers", "static-properties"):
        if key in v and key != "providers":
            v[key] = strip(v[key])
        if not v.get(key):
            v.pop(key, None)
    if v.get("default-priorities", {}).get("namespace") == []:
        del v["default-priorities"]["namespace"]
        if not v["default-priorities"]:
            del v["default-priorities"]
    if not v:
        data.pop("variant", None)
    return data


def norm_req(r):
    q = Requirement(r)
    return (canonicalize_name(q.name), str(q.specifier), str(q.marker), tuple(sorted(q.extras)))


def outside(text, touched=None):
    """the sections that do not belong to the variant tables (or that belong to providers that are not touched), without blank lines at their borders"""
    out, cur, inside = [], [], False
    for line in text.replace("\r\n", "\n").split("\n"):
        m = re.match(r"\s*\[+\s*([^\]#]+)", line) if not cur or not unfinished(cur) else None
        if m:
            out.append(None if inside else "\n".join(cur).strip())
            keys = [k.strip(" \"'") for k in re.findall(r"""\s*("[^"]*"|'[^']*'|[^.]+)""", m[1].strip())]
            cur, inside = [], keys[0] == "variant" and not (len(keys) > 2 and keys[1] in ("providers", "static-properties") and keys[2] not in touched)
        if not inside and not out and re.match(r"variant\s*=", line):
            continue
        cur.append(line)
    out.append(None if inside else "\n".join(cur).strip())
    return [s for s in out if s]


def unfinished(lines):
    """inside a multi-line array or string"""
    text = "\n".join(lines)
    body = re.sub(r'""".*?"""|\'\'\'.*?\'\'\'', "", text, flags=re.S)
    if '"""' in body or "'''" in body:
        return True
    body = re.sub(r"#.*|\"[^\"\n]*\"|'[^'\n]*'", "", body)
    body = re.sub(r"(?m)^\s*\[+[^\]\n]*\]+\s*$", "", body)
    return body.count("[") > body.count("]")


# ------------------------------------------------------------------------------------------------------ steps
def step(path, text, adds, dels, order, what):
    """run the command on this text -> the new text (None if refused)"""
    data = tomllib.loads(text)
    path.write_bytes(text.encode())
    args = ["update-pyproject-toml", "-f", str(path)]
    parts = [["-a", *adds] if adds else [], ["-d", *dels] if dels else []]
    if order == "dels first":
        parts.reverse()
    if order == "repeated":
        parts = [[x for a in adds for x in ("-a", a)], [x for d in dels for x in ("-d", d)]]
    try:
        status = cli(*args, *itertools.chain(*parts))[0]
    except Exception as exc:  # noqa: BLE001
        status = repr(exc)
    got = path.read_bytes().decode()
    want = model(data, adds, dels)
    check_eq(os.listdir(path.parent), [path.name], f"{what}: files around")
    if want is None:
        check(status != 0, f"{what}: not refused")
        check(got == text, lambda: f"{what}: refused, but the file was changed to {got}")
        return None
    check(status == 0, f"{what}: refused ({status})")
    try:
        new = tomllib.loads(got)
        VariantPyProjectToml(copy.deepcopy(new))
    except Exception as exc:  # noqa: BLE001
        check(False, f"{what}: {exc!r} reading the new file:\n{got}")
    check(canon(new) == canon(want), lambda: f"{what}: content {json.dumps(canon(new).get('variant'))}, expected {json.dumps(canon(want).get('variant'))}\n{got}")
    check_eq(outside(got, adds + dels), outside(text, adds + dels), f"{what}: text outside of the tables of the command")
    if "\r\n" in text and "\n" not in text.replace("\r\n", ""):
        check("\n" not in got.replace("\r\n", ""), f"{what}: line ends {got!r}")
    check("\r" in text or "\r" not in got, f"{what}: line ends {got!r}")
    return got


BASIC = """# head
[build-system]
requires = ["x"]  # why

[project]
name = 'x'
dependencies = [
  "a", # first
  "b",
]

[variant.default-priorities]
namespace = ['aa', "zz"] # order
feature.aa = ["g", "f"]

[variant.providers.aa]
# inside
requires = ['q >= 1',
   "r"] # reqs
plugin-api = 'q:Q'  # api
enable-if = "python_version > '3'"

[variant.providers.zz]
requires = ['z']
optional = true

[tool.other]
x = [1,
  2]   # odd   spacing
s = '''
[variant.providers.fake]
'''
"""
DOCS = {
    "none": "[project]\nname = 'x'\n",
    "empty": "",
    "comment": "# only",
    "basic": BASIC,
    "no final newline": "[project]\nname = 'x' # end",
    "CRLF": BASIC.replace("\n", "\r\n"),
    "between": "[tool.a]\nx=1\n\n\n[variant.default-priorities]\nnamespace=['bb']\n[tool.b]\ny=2 # y\n[variant.providers.bb]\nrequires=['p']\n[tool.c]\n# nothing\n",
    "reversed": "[variant.providers.aa]\nrequires=['q']\nplugin-api='x:Y'\n[variant.providers.cc]\nrequires=['r']\nplugin-api='x:Y'\n[project]\nname='x'\n[variant.default-priorities]\nnamespace=['cc','aa']\n",
    "nested headers": "[variant]\n\n[variant.default-priorities]\nnamespace = [\n    'zz', # comment\n    'bb',\n]\n\n[variant.providers]\n\n[variant.providers.zz]\ninstall-time = false\n\n[variant.providers.bb]\nrequires=['r']\nplugin-api='r:R'\n\n[variant.static-properties.zz]\nf=['x']\n",
    "static": "[variant.default-priorities]\nnamespace=['aa','bb']\nfeature.bb=['g','f']\n[variant.providers.aa]\ninstall-time=false\n[variant.providers.bb]\ninstall-time=false\nplugin-api='b:B'\n[variant.static-properties.aa]\nf=['1']\n[variant.static-properties.bb]\nf=['1']\ng=['2','1']\n[project]\nname='x'\n",
    "static with empty requires": "[variant.default-priorities]\nnamespace=['aa','bb']\n[variant.providers.aa]\ninstall-time=false\nrequires=[]\n[variant.providers.bb]\ninstall-time=false\n[variant.static-properties]\naa.f=['1']\nbb.f=['1']\n",
    "inline": "[variant]\ndefault-priorities = { namespace = ['aa', 'zz'] }\nproviders = { aa = { requires = ['q'], plugin-api = 'q:Q' }, zz = { requires = ['z'] } }\n[project]\nname='x'\n",
    "inline providers": "[variant.default-priorities]\nnamespace = ['aa']\n[variant.providers]\naa = { requires = ['q'], plugin-api = 'q:Q', optional = true }\n[tool.x]\ny = 1\n",
    "priorities only": "[variant.default-priorities]\nnamespace = []\n\n[tool.x]\ny = 1\n",
    "empty providers": "[variant.default-priorities]\nnamespace = []\n[variant.providers]\n[tool.x]\ny = 1\n",
    "quoted": "[\"variant\".'default-priorities']\n\"namespace\" = [\"aa\", \"b\"]\n[variant.'providers'.\"aa\"]\n'requires' = ['q']\n\"plugin-api\" = 'q:Q'\n[variant.providers.b]\nrequires = ['w']\n[tool.\"variant\"]\nx = 1\n",
    "arrays of tables": "[[tool.x]]\na=1\n[[tool.x]]\na=2 # two\n[[tool.x.y]]\n[variant.default-priorities]\nnamespace=['aa']\n[variant.providers.aa]\nrequires=['q']\nplugin-api='q:Q'\n[[tool.z]]\nb=1\n",
    "indented": "[project]\n  name = 'x'\n\n  [variant.default-priorities]\n    namespace = [ 'aa' ]\n\n  [variant.providers.aa]\n    requires = [ 'q' ] # c\n    plugin-api = 'q:Q'\n\n  [tool.x]\n    y = 1\n",
    "unicode": "# \u00e9\u2603\n[project]\nname = '\u00e9'\n[variant.default-priorities]\nnamespace = ['aa']\n[variant.providers.aa]\nrequires = ['q'] # \u2603\nplugin-api = '\u00e9:Q'\n",
    "similar names": "[variants.providers.aa]\nx=1\n[variant.default-priorities]\nnamespace=['aa','a','b','bb']\n[variant.providers.aa]\nrequires=['q']\n[variant.providers.a]\nrequires=['q']\n[variant.providers.b]\nrequires=['q']\n[variant.providers.bb]\nrequires=['q']\n[tool.variant.providers.aa]\nx=1\n",
    "all": "[variant.default-priorities]\nnamespace=['bb','cc','aa','b']\n" + "".join(f"[variant.providers.{n}]\nrequires=['q']\nplugin-api='q:{n}'\ninstall-time={'true' if n != 'cc' else 'false'}\n" for n in ("aa", "b", "bb", "cc")),
}
OPS = [(("aa",), ()), (("bb",), ()), ((), ("aa",)), ((), ("zz",)), (("aa", "cc"), ()), ((), ("aa", "bb", "zz")), (("aa",), ("aa",)), (("cc", "b"), ("aa", "b")), (("xx",), ()), (("aa", "xx"), ("zz",)), ((), ("xx",)), ((), ()),
       (("bb",), ("bb", "aa", "zz", "cc", "b"))]
MORE = [(("b",), ()), ((), ("bb",)), ((), ("b", "b")), (("aa", "aa"), ()), (("cc", "bb", "b", "aa"), ()), ((), ("aa", "bb", "cc", "b", "zz", "a")), (("AA",), ()), (("aa-dist2",), ("zz",)), ((), ("",))]


def compact(text):
    """without blank lines and indentation"""
    return re.sub(r"\n\s+", "\n", text.replace("\r\n", "\n")).strip("\n") if text is not None else None


def run_explore(case):
    doc, first, depth, ops = case
    d = env().fresh()
    path = d / "pyproject.toml"
    todo = [(DOCS[doc], ())]
    seen = {compact(DOCS[doc])}
    steps = 0
    while todo:
        text, hist = todo.pop(0)
        if len(hist) >= depth:
            continue
        for k, (adds, dels) in enumerate(ops if hist else [first]):
            adds, dels = tuple(adds), tuple(dels)
            what = f"{doc} after {[*hist, (adds, dels)]}"
            new = step(path, text, adds, dels, ("", "dels first", "repeated")[k % 3], what)
            steps += 1
            if new is None:
                continue
            again = step(path, new, adds, dels, "", what + ", repeated")
            steps += 1
            same = compact if not set(adds) & set(dels) else tomllib.loads  # what is deleted and added again may be laid out differently
            check(same(again) == same(new), lambda: f"{what}: repeating the step changed the file from\n{new}\nto\n{again}")
            if compact(new) not in seen:
                seen.add(compact(new))
                todo.append((new, (*hist, (adds, dels))))
    shutil.rmtree(d)
    return Outcome((doc, len(seen)), states=seen, transitions=steps, traces=steps)


def gen_explore(tier):
    def gen():
        ops = OPS if tier == "quick" else OPS + MORE
        for doc in DOCS:
            for first in OPS + MORE:
                yield [doc, first, 2 if tier == "quick" else 3, ops]
    return gen


def run_refuse(case):
    d = env().fresh()
    how, args = case
    f = d / "pyproject.toml"
    if how == "broken":
        f.write_text("[variant\n")
    elif how == "dir":
        f.mkdir()
    elif how == "latin1":
        f.write_bytes("[project]\nname='\u00e9'\n".encode("latin1"))
    before = {p.name: p.is_file() and p.read_bytes() for p in d.iterdir()}
    try:
        status = cli("update-pyproject-toml", *(["-f", str(f)] if how != "default" else []), *args)[0]
    except Exception as exc:  # noqa: BLE001
        status = repr(exc)
    check(status != 0, "not refused")
    check_eq({p.name: p.is_file() and p.read_bytes() for p in d.iterdir()}, before, "files after a refusal")
    check_eq(os.listdir("."), [], "files in the working directory")
    shutil.rmtree(d)
    return (case, str(status))


def gen_refuse():
    for how in ("missing", "broken", "dir", "default", "latin1"):
        for args in (["-a", "aa"], ["-d", "aa"], ["-a", "aa", "-d", "bb"], [], ["-a", "xx"]):
            yield [how, args]


def spaces(tier):
    return [
        Space("explore", gen_explore(tier), run_explore, setup=setup, hang=400),
        Space("refusals", gen_refuse, run_refuse, setup=setup),
    ]
