"""Programmable provider plugin, run inside the plugin subprocess.  Behaviour = the specification in the attribute
name (h<hex of json>) or in a file next to this module (f_<name>).

spec: {"ns": str, "all": [[name, [values], multi]...], "sup": [...], "aot": bool|absent, "style": ..., "fault": {...}}
fault: {"at": "load"|"ns"|"get_all_configs"|"get_supported_configs", "kind": ...}
"""
import json
import os
import sys
from dataclasses import dataclass

HERE = os.path.dirname(os.path.abspath(__file__))


def log(line):
    with open(os.path.join(os.path.dirname(HERE), "log"), "a") as f:
        f.write(line + "\n")


@dataclass
class Feature:
    name: object
    values: object
    multi_value: object


class FeatureNoMulti:
    def __init__(self, name, values):
        self.name, self.values = name, values


class Unserialisable:
    pass


def do_fault(kind, where):
    """-> (replaced, value)"""
    if kind == "raise":
        raise RuntimeError("plugin fault at " + where)
    if kind == "raise_unicode":
        raise RuntimeError("f\u00e4ult \u2603 \udce4")
    if kind == "keyboard":
        raise KeyboardInterrupt
    if kind == "exit0":
        sys.exit(0)
    if kind == "exit3":
        sys.exit(3)
    if kind == "_exit0":
        os._exit(0)
    if kind == "_exit_partial":
        os.write(1, b'{"get_')
        os._exit(0)
    if kind == "_exit_other":
        os.write(1, b'{}')
        os._exit(0)
    if kind == "_exit_list":
        os.write(1, b'[]')
        os._exit(0)
    if kind == "_exit_null":
        os.write(1, b'null')
        os._exit(0)
    if kind == "kill":
        os.kill(os.getpid(), 9)
    if kind == "segv":
        os.kill(os.getpid(), 11)
    if kind == "print":
        print("hello from the plugin")
        return False, None
    if kind == "stderr_garbage":
        os.write(2, b"\xff\xfe\x80 garbage")
        sys.exit(5)
    if kind == "stderr_noise":
        os.write(2, b"\xff\xfe just a warning\n")
        return False, None
    if kind == "close_stdout":
        os.close(1)
        return False, None
    if kind.startswith("late_"):
        # the answer is written, but the plugin process fails afterwards
        def late():
            sys.stdout.flush()
            if kind == "late_exit3":
                os._exit(3)
            os.kill(os.getpid(), {"late_kill": 9, "late_segv": 11, "late_term": 15, "late_abort": 6}[kind])
        import atexit
        atexit.register(late)
        return False, None
    if kind == "none":
        return True, None
    if kind == "empty":
        return True, []
    if kind == "tuple":
        return True, (Feature("f", ["v"], False),)
    if kind == "dict":
        return True, {"f": ["v"]}
    if kind == "string":
        return True, "f"
    if kind == "generator":
        return True, (x for x in [Feature("f", ["v"], False)])
    if kind == "int":
        return True, 7
    if kind == "element_str":
        return True, ["f"]
    if kind == "element_none":
        return True, [None]
    if kind == "element_dict":
        return True, [{"name": "f", "values": ["v"], "multi_value": False}]
    if kind == "element_missing":
        return True, [FeatureNoMulti("f", ["v"])]
    if kind == "mixed":
        return True, [Feature("f", ["v"], False), "g"]
    bad = {
        "name_none": Feature(None, ["v"], False), "name_int": Feature(1, ["v"], False),
        "name_empty": Feature("", ["v"], False), "name_upper": Feature("F", ["v"], False),
        "name_dot": Feature("f.g", ["v"], False), "name_newline": Feature("f\n", ["v"], False),
        "name_unser": Feature(Unserialisable(), ["v"], False),
        "values_none": Feature("f", None, False), "values_str": Feature("f", "v", False),
        "values_dict": Feature("f", {"v": 1}, False), "values_empty": Feature("f", [], False),
        "values_dup": Feature("f", ["v", "v"], False), "value_int": Feature("f", ["v", 1], False),
        "value_none": Feature("f", ["v", None], False), "value_list": Feature("f", [["v"]], False),
        "value_upper": Feature("f", ["v", "V"], False), "value_empty": Feature("f", ["v", ""], False),
        "value_space": Feature("f", ["v", "a b"], False), "value_newline": Feature("f", ["v\n"], False),
        "value_bytes": Feature("f", [b"v"], False), "value_float": Feature("f", [1.5], False),
        "values_set": Feature("f", {"v"}, False),
        "multi_str": Feature("f", ["v"], "no"), "multi_none": Feature("f", ["v"], None),
        "multi_int": Feature("f", ["v"], 1), "multi_list": Feature("f", ["v"], []),
    }
    if kind in bad:
        return True, [bad[kind]]
    if kind == "last_bad":
        return True, [Feature("f", ["v"], False), Feature("g", ["v", "V!"], False)]
    if kind == "dup_names":
        return True, [Feature("f", ["v"], False), Feature("f", ["w"], False)]
    raise SystemError("unknown fault " + kind)


def feats(lst):
    return [Feature(n, list(v), m) for n, v, m in lst]


def make(spec, ref):
    fault = spec.get("fault") or {}
    style = spec.get("style", "class")
    log("load " + str(spec.get("ns")))
    if fault.get("at") == "load":
        replaced, val = do_fault(fault["kind"], "load") if fault["kind"] not in ("missing", "missing_ns", "missing_all", "missing_sup", "instance_none") else (False, None)
        if replaced:
            return val
        if fault["kind"] == "instance_none":
            return None

    def call(method, key):
        log(method + " " + str(spec.get("ns")))
        if fault.get("at") == method:
            replaced, val = do_fault(fault["kind"], method)
            if replaced:
                return val
        return feats(spec.get(key, []))

    ns = spec.get("ns")
    if fault.get("at") == "ns":
        ns = {"none": None, "int": 3, "upper": "NS", "empty": "", "newline": ns + "\n" if isinstance(ns, str) else "", "list": ["a"],
              "unser": Unserialisable(), "dot": "n.s", "dash": "n-s"}.get(fault["kind"], ns)
    d = {"namespace": ns}
    if "aot" in spec:
        d["is_aot_plugin"] = spec["aot"]
    gone = {"missing": ["get_all_configs", "get_supported_configs"], "missing_ns": ["namespace"],
            "missing_all": ["get_all_configs"], "missing_sup": ["get_supported_configs"]}.get(fault.get("kind"), [])
    gac, gsc = (lambda: call("get_all_configs", "all")), (lambda: call("get_supported_configs", "sup"))
    if style == "class":
        d["get_all_configs"] = staticmethod(gac)
        d["get_supported_configs"] = staticmethod(gsc)
    elif style == "classmethod":
        d["get_all_configs"] = classmethod(lambda cls: gac())
        d["get_supported_configs"] = classmethod(lambda cls: gsc())
    elif style in ("instance", "property"):
        d["get_all_configs"] = lambda self: gac()
        d["get_supported_configs"] = lambda self: gsc()
        if style == "property":
            def get_ns(self):
                if fault.get("at") == "ns" and fault["kind"] in ("raise", "exit3", "_exit0", "kill", "print"):
                    do_fault(fault["kind"], "namespace")
                return ns
            d["namespace"] = property(get_ns)
    elif style == "namespace_obj":
        import types
        d.update(get_all_configs=gac, get_supported_configs=gsc)
        return types.SimpleNamespace(**{k: v for k, v in d.items() if k not in gone})
    for k in gone:
        d.pop(k)
    cls = type("Plugin", (), d)
    if style in ("instance", "property"):
        return cls()
    return cls


_made = {}


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in _made:
        return _made[name]
    if name.startswith("h"):
        try:
            spec = json.loads(bytes.fromhex(name[1:]))
        except ValueError:
            raise AttributeError(name) from None
        r = make(spec, name)
    elif name.startswith("f_"):
        try:
            with open(os.path.join(HERE, "spec_" + name[2:] + ".json")) as f:
                spec = json.load(f)
        except FileNotFoundError:
            raise AttributeError(name) from None
        r = make(spec, name)
    else:
        raise AttributeError(name)
    _made[name] = r
    return r
