"""The operations whose results C26 compares between processes.  Run as a script in the process environment under examination:

    c26drive.py CONFIG.json

writes {operation: result} to the file named in the configuration.  Paths of the run's own directory are written as <D>.
"""
import json
import os
import re
import sys

with open(sys.argv[1], encoding="utf8") as f:
    CONF = json.load(f)
sys.dont_write_bytecode = True
sys.path[:0] = CONF["path"]

import contextlib  # noqa: E402
import io  # noqa: E402
import itertools  # noqa: E402
import shutil  # noqa: E402
import zipfile  # noqa: E402
from pathlib import Path  # noqa: E402

D = Path(CONF["dir"])
PY = CONF["python"]
VARIATION = CONF.get("variation", {})

if "logging" in VARIATION:
    import logging
    logging.basicConfig(level=getattr(logging, VARIATION["logging"]), stream=io.StringIO())
    logging.getLogger("variantlib").setLevel(getattr(logging, VARIATION["logging"]))
if "gc" in VARIATION:
    import gc
    if VARIATION["gc"] is None:
        gc.disable()
    else:
        gc.set_threshold(VARIATION["gc"])
if "recursion" in VARIATION:
    sys.setrecursionlimit(VARIATION["recursion"])
if "umask" in VARIATION:
    os.umask(VARIATION["umask"])
# the user's configuration, in a place that no variation changes
sys.prefix = str(D / "prefix")
(D / "prefix").mkdir()
(D / "prefix/variants.toml").write_bytes("""# \u00e4\u2603 comment
namespace_priorities = ["gamma", "delta"]
[feature_priorities]
beta = ["three", "one"]  # \U0001f600
[property_priorities.alpha]
two = ["v", "zz"]
""".encode())
if VARIATION.get("python") == "relative":
    PY = os.path.relpath(PY)
elif VARIATION.get("python") == "path":
    PY = Path(PY)
elif VARIATION.get("python") == "linked":
    link = D / os.fsdecode("b \u00e4".encode())
    link.symlink_to(os.path.dirname(os.path.dirname(PY)))
    PY = str(link / "bin" / os.path.basename(PY))
if "intern" in VARIATION:
    class Text(str):
        """equal to, but not identical with, other strings"""
    S = Text
else:
    S = str

from variantlib import api  # noqa: E402
from variantlib.commands.main import main  # noqa: E402
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty  # noqa: E402
from variantlib.models.variant_info import VariantInfo  # noqa: E402
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader  # noqa: E402
from variantlib.pyproject_toml import VariantPyProjectToml  # noqa: E402
from variantlib.resolver.lib import filter_variants  # noqa: E402
from variantlib.resolver.lib import sort_and_filter_supported_variants  # noqa: E402
from variantlib.variant_dist_info import VariantDistInfo  # noqa: E402
from variantlib.variants_json import VariantsJson  # noqa: E402


def vd(props):
    return VariantDescription([VariantProperty(S(n), S(f), S(v)) for n, f, v in props])


def show(o):
    """-> JSON-able, keeping the order of everything that has one"""
    if isinstance(o, (set, frozenset)):
        return {"set": sorted((show(x) for x in o), key=repr)}
    if isinstance(o, dict):
        return {"dict": [[show(k), show(v)] for k, v in o.items()]}
    if isinstance(o, (list, tuple)):
        return [show(x) for x in o]
    if isinstance(o, (VariantDescription,)):
        return [p.to_str() for p in o.properties]
    if isinstance(o, (VariantFeature, VariantProperty)):
        return o.to_str()
    if o is None or isinstance(o, (bool, int, float)):
        return o
    if isinstance(o, str):
        return re.sub(r"<D>/w\d+", "<D>", str(o).replace(str(D), "<D>"))
    import dataclasses
    if dataclasses.is_dataclass(o):
        return [type(o).__name__, {f.name: show(getattr(o, f.name)) for f in dataclasses.fields(o)}]
    return repr(o)


def tree(d):
    out = {}
    for p in sorted(d.rglob("*"), key=os.fsencode):
        rel = os.fsencode(p.relative_to(d)).decode("utf8")
        if p.is_dir():
            out[rel] = "dir"
        elif p.suffix == ".whl":
            with zipfile.ZipFile(p) as z:
                out[rel] = [[i.filename, None if i.filename.endswith("variant.json") else i.date_time, None if i.filename.endswith("variant.json") else i.external_attr, i.compress_type, z.read(i).decode("latin-1")] for i in z.infolist()]
        else:
            out[rel] = p.read_bytes().decode("latin-1")
    return out


N = itertools.count()


def fresh():
    d = D / f"w{next(N)}"
    d.mkdir()
    return d


def spell(p):
    """a path in the spelling of this run"""
    how = VARIATION.get("paths")
    p = Path(p)
    if how == "relative":
        return os.path.relpath(p)
    if how == "dots":
        return f"{p.parent}/../{p.parent.name}/./{p.name}"
    if how == "slashes":
        return str(p).replace("/", "//") if not p.is_dir() else str(p) + "//"
    if how == "link":
        link = D / f"ln{next(N)}"
        link.symlink_to(p.parent)
        return str(link / p.name)
    if how == "file" and p.is_file():
        d = D / f"ln{next(N)}"
        d.mkdir()
        (d / p.name).symlink_to(p)
        return str(d / p.name)
    return str(p)


def cli(d, *args):
    """exit status or error, what is printed, the files afterwards"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main([spell(a) if isinstance(a, Path) else a for a in args])
        status = 0
    except SystemExit as e:
        status = e.code
    except Exception as e:  # noqa: BLE001
        status = type(e).__name__
    return {"status": status, "printed": out.getvalue(), "files": tree(d) if d is not None else None}


NS = ["delta", "alpha", "gamma", "beta", "epsilon"]
FS = ["two", "one", "three", "four"]
VS = ["x", "zz", "y", "w.1", "v"]
UNI = [(n, f, v) for n in NS for f in FS for v in VS]
PROVIDERS = {n: {"plugin-api": f"c26plug:{n}", "requires": [f"req-{n} >= 1", f"\u00fc{n}"], **({"install-time": False} if i % 2 else {}), **({"optional": True} if i == 4 else {})} for i, n in enumerate(NS)}
STATIC = {n: {f: list(VS) for f in FS} for i, n in enumerate(NS) if i % 2}
COMMON = {"default-priorities": {"namespace": list(NS), "feature": {n: FS[::-1] for n in NS[1:]}, "property": {n: {f: VS[2:4] for f in FS[:2]} for n in NS[2:]}}, "providers": PROVIDERS}
VARIANTS = {"null": {}}
for k, ps in enumerate([UNI[::7], UNI[3:6], UNI[40::13], UNI[5:6], UNI[25:27], UNI[60:61] + UNI[21:22], [("zeta", "f", "x")], UNI[::19]]):
    d = {}
    for n, f, v in ps:
        d.setdefault(n, {}).setdefault(f, []).append(v)
    VARIANTS[f"l{k}"] = d
INDEX = {**COMMON, "static-properties": STATIC, "variants": VARIANTS}
DESCS = [vd([(n, f, v) for n, fs in d.items() for f, vs in fs.items() for v in vs]) for d in VARIANTS.values()]
DI = "pkg-1.0.dist-info"


def wheel(d, name="pkg-1.0-py3-none-any.whl", extra=None):
    p = d / name
    with zipfile.ZipFile(p, "w") as z:
        names = ["pkg/__init__.py", "pkg/d\u00e4ta \u2603.txt", f"{DI}/METADATA"]
        for n in names:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 2, 3, 4, 6)), "x = '\u00e9'\n")
        if extra is not None:
            z.writestr(zipfile.ZipInfo(f"{DI}/variant.json", (2020, 1, 2, 3, 4, 6)), extra)
            names.append(f"{DI}/variant.json")
        z.writestr(zipfile.ZipInfo(f"{DI}/RECORD", (2020, 1, 2, 3, 4, 6)), "".join(f"{n},,\n" for n in [*names, f"{DI}/RECORD"]))
    return p


def variant_wheels(d):
    for lab in list(VARIANTS)[:6]:
        wheel(d, f"pkg-1.0-py3-none-any-{lab}.whl", json.dumps({**INDEX, "variants": {lab: VARIANTS[lab]}}, ensure_ascii=False))
    bad = {**INDEX, "variants": {"bad": {"alpha": {"one": ["x"]}}}}
    bad["default-priorities"] = {**bad["default-priorities"], "namespace": NS[::-1]}
    wheel(d, "pkg-1.0-py3-none-any-bad.whl", json.dumps(bad))
    wheel(d, "pkg-2.0-py3-none-any-l1.whl", json.dumps({**INDEX, "variants": {"l1": VARIANTS["l1"]}}, ensure_ascii=False))
    wheel(d, "pkg-1.0-py3-none-any.whl")


def toml(doc):
    """project file with characters beyond ASCII"""
    import tomlkit
    return "# \u00e4\u2603 comment\n[project]\nname = 'p\u00fc'\n" + tomlkit.dumps({"variant": doc})


PROJECT = {**COMMON, "providers": {n: {k: v for k, v in p.items()} for n, p in PROVIDERS.items()}}


def op_make(props, *args):
    d = fresh()
    (d / "pyproject.toml").write_bytes(toml(PROJECT).encode("utf8"))
    (d / "out").mkdir()
    return cli(d, "make-variant", "-f", wheel(d), "-o", d / "out", "--no-isolation", "--pyproject-toml", d / "pyproject.toml",
               *(["-p", *[" :: ".join(p) for p in props]] if props else ["--null-variant"]), *args)


def op_index():
    d = fresh()
    variant_wheels(d)
    return cli(d, "generate-index-json", "-d", d)


def op_add():
    d = fresh()
    variant_wheels(d)
    out = []
    (d / "in.json").write_bytes(json.dumps({**INDEX, "variants": {"l7": VARIANTS["l7"]}}, ensure_ascii=False).encode("utf8"))
    for lab, src in (("l1", "in.json"), ("l0", "pkg-1.0-variants.json"), ("null", "pkg-1.0-variants.json"), ("bad", "pkg-1.0-variants.json")):
        out.append(cli(None, "add-wheel-to-index-json", "-f", d / f"pkg-1.0-py3-none-any-{lab}.whl", "-i", d / src, "-o", d, "-w"))
    return out, tree(d)


def op_unmake():
    d = fresh()
    variant_wheels(d)
    (d / "pkg-1.0-py3-none-any.whl").unlink()
    return cli(d, "unmake-variant", "-f", d / "pkg-1.0-py3-none-any-l3.whl", "-o", d)


def op_messages():
    """what is logged by equal calls following each other, each with its own standard error"""
    d = fresh()
    wheel(d)
    out = []
    for args in (["unmake-variant", "-f", d / "pkg-1.0-py3-none-any.whl", "-o", d], ["analyze-wheel", "-i", d / "pkg-1.0-py3-none-any.whl"]) * 3:
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            main([str(a) for a in args])
        out.append(err.getvalue())
        err.close()
    return [[o == out[i % 2], "Traceback" in o] for i, o in enumerate(out)]


def op_update():
    d = fresh()
    out = []
    p = d / "pyproject.toml"
    for doc in ({**PROJECT, "static-properties": STATIC}, {"default-priorities": {"namespace": []}, "providers": {}}):
        p.write_bytes(toml(doc).encode("utf8"))
        for args in (["-a", "plug_b", "plug_a", "plug_c", "plug_d"], ["-d", "plug_b", "plug_d", "-a", "plug_b"], ["-d", "delta", "gamma"], ["-a", "nosuch"]):
            out.append(cli(d, "update-pyproject-toml", "-f", p, *args))
    return out


def configs(loader):
    with loader as ld:
        return [list(ld.namespaces), show(ld.get_all_configs()), show(ld.get_supported_configs()), show(ld.plugin_api_values)]


def validate(props):
    r = api.validate_variant(vd(props), VariantsJson(INDEX), PY)
    return show([r.results, r.multi_value_violations, r.is_valid(), r.is_valid(allow_unknown_plugins=False), r.invalid_properties, r.unknown_properties])


def parse(doc):
    o = VariantsJson(doc)
    one = VariantDistInfo(VariantInfo(**o.copy_as_kwargs()))
    one.variant_desc, one.variant_label = vd(UNI[3:9]), "lab"
    return [o.to_str(), one.to_str(), show(VariantInfo(**o.copy_as_kwargs())), show(o.variants)]


def merge(order):
    out = VariantsJson(json.loads(json.dumps({**INDEX, "variants": {order[0]: VARIANTS[order[0]]}})))
    for lab in order[1:]:
        out.merge(VariantDistInfo(json.dumps({**INDEX, "variants": {lab: VARIANTS[lab]}}), lab))
    return out.to_str()


SUP = [VariantProperty(*map(S, t)) for t in UNI if (len(t[1]) + ord(t[2][0])) % 3]
OPS = {
    "hash": lambda: [[d.hexdigest, api.get_variant_label(d), show(api.get_variant_environment_dict(d, "l")), d.to_dict(), show(VariantDescription.from_dict(d.to_dict()))] for d in DESCS],
    "texts": lambda: [[VariantProperty.from_str(" :: ".join(t)).to_str(), VariantProperty.from_str("::".join(t)) == VariantProperty(*t)] for t in UNI[::5]],
    "sorted properties": lambda: [p.to_str() for p in sorted(VariantProperty(*t) for t in UNI)],
    "filter": lambda: [d.hexdigest for d in filter_variants(DESCS, SUP)],
    "filter forbidden": lambda: [d.hexdigest for d in filter_variants(DESCS, [VariantProperty(*t) for t in UNI], ["zeta", "epsilon"], [VariantFeature("alpha", "two"), VariantFeature("beta", "one")], [VariantProperty(*t) for t in UNI[::11]])],
    "sort": lambda: [d.hexdigest for d in sort_and_filter_supported_variants(DESCS, SUP, NS, {n: FS[1:] for n in NS[:2]}, {"delta": {"one": VS[::-1]}})],
    "sort partly": lambda: [d.hexdigest for d in sort_and_filter_supported_variants(DESCS[::-1], SUP, NS[::-1])],
    "parse": lambda: parse(INDEX),
    "project": lambda: show([VariantPyProjectToml({"variant": PROJECT}).providers, VariantPyProjectToml({"variant": PROJECT}).get_provider_requires(set(NS[:3]))]),
    "merge": lambda: [merge(["l0", "l1", "null", "l4"]), merge(["l4", "null", "l1", "l0"])],
    "resolve": lambda: list(api.get_variants_by_priority(variants_json=INDEX, venv_python_executable=PY)),
    "resolve optional": lambda: list(api.get_variants_by_priority(variants_json=json.loads(json.dumps(INDEX)), venv_python_executable=PY, enable_optional_plugins=["epsilon"])),
    "supported": lambda: [api.check_variant_supported(vdesc=d, variant_info=VariantsJson(INDEX), venv_python_executable=PY, enable_optional_plugins=True) for d in DESCS],
    "validate": lambda: [validate(UNI[::7]), validate([*UNI[:2], ("zeta", "f", "x"), ("alpha", "nope", "x"), ("beta", "one", "nope")])],
    "loader": lambda: configs(PluginLoader(VariantsJson(INDEX), PY, enable_optional_plugins=True, include_aot_plugins=True)),
    "some": lambda: configs(PluginLoader(VariantsJson(INDEX), PY, enable_optional_plugins=True, filter_plugins=NS[:3], include_aot_plugins=True)),
    "list": lambda: configs(ListPluginLoader([f"c26plug:{n}" for n in NS[::-1]], PY)),
    "entry points": lambda: configs(EntryPointPluginLoader(PY)),
    "make": lambda: op_make(UNI[23:24] + UNI[4:5] + UNI[61:62]),
    "make label": lambda: op_make(UNI[23:24], "--variant-label", "lab", "--skip-plugin-validation"),
    "make null": lambda: op_make([]),
    "make bad": lambda: op_make([("alpha", "one", "nope"), ("zeta", "f", "x")]),
    "index": op_index, "add": op_add, "unmake": op_unmake, "update": op_update,
    "analyze": lambda: (lambda d: [variant_wheels(d), *[cli(None, "analyze-wheel", "-i", d / f"pkg-1.0-py3-none-any-{lab}.whl") for lab in ("l0", "null", "l6")]][1:])(fresh()),
    "print hash": lambda: cli(None, "get-variant-hash", *itertools.chain.from_iterable(["-p", " :: ".join(t)] for t in UNI[::9])),
    "plugins": lambda: [cli(None, "plugins", "list"), cli(None, "plugins", "get-configs", "-a"), cli(None, "plugins", "get-configs", "-s")],
    "platform": lambda: cli(None, "analyze-platform"),
    "messages": op_messages,
    "config": lambda: [cli(None, "config", "show"), cli(None, "config", "list-paths")["status"]],
}


def main_():
    old, sys.executable = sys.executable, str(PY)
    out = {}
    for round_ in range(CONF.get("rounds", 1)):
        for name, fn in OPS.items():
            if CONF.get("only") and name not in CONF["only"]:
                continue
            try:
                r = show(fn())
            except Exception as e:  # noqa: BLE001
                r = ["raised", type(e).__name__]
            out[name if not round_ else f"{name} again"] = r
    sys.executable = old
    return out


if "thread" in VARIATION:
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(main_()))
    t.start()
    t.join()
    result = box[0]
else:
    result = main_()
result["(set order)"] = [list({*NS[:3]}), list({*FS[:3]}), list({*VS[:3]})]
tmp = CONF["result"] + ".tmp"
with open(tmp, "w", encoding="ascii") as f:
    json.dump(result, f)
os.replace(tmp, CONF["result"])
