"""Provider plugins of C26, run by a real interpreter."""


class Feature:
    def __init__(self, name, values, multi_value=False):
        self.name, self.values, self.multi_value = name, values, multi_value


VS = ["x", "zz", "y", "w.1", "v"]


def plugin(ns, names, keep):
    def get_all_configs():
        return [Feature(f, list(VS)) for f in names]

    def get_supported_configs():
        return [Feature(f, VS[i % 3:keep]) for i, f in enumerate(names[::-1])]
    return type(ns, (), {"namespace": ns, "is_aot_plugin": True, "get_all_configs": staticmethod(get_all_configs), "get_supported_configs": staticmethod(get_supported_configs)})


FS = ["two", "one", "three", "four"]
delta = plugin("delta", FS, 5)
alpha = plugin("alpha", FS[::-1], 4)
gamma = plugin("gamma", FS[:2], 5)
beta = plugin("beta", FS, 4)
epsilon = plugin("epsilon", FS[1:], 5)
plug_a, plug_b, plug_c, plug_d = (plugin(f"plug_{c}", FS, 4) for c in "abcd")
