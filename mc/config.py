"""Reference semantics of the configuration declaration (config_default.yaml).

Written from the documentation of the parameter types, not from the parsers:
``verdict(node, value)`` -> ("ok", converted) | ("reject",) | None (not judged).
"""
import copy
import math
import os

import yaml

from mc import impl, ref

FALSES = (False, "False", "false", "no")
TRUES = (True, "True", "true", "yes")
DIM = {"emissions_unit": "emissions", "emissionsrate_unit": "rate", "temperature_unit": "temperature",
       "currency_unit/emissionsrate_unit": "price", "(temperature_unit)/(emissions_unit)": "tcre"}
SOURCE_KEYS = ("variable", "unit", "scenario", "model", "file")


def is_leaf(node):
    return isinstance(node, dict) and "type" in node


def leaves(tree=None, path=()):
    """[(path, node)] of every documented setting."""
    tree = impl.default_tree() if tree is None else tree
    out = []
    for k, v in tree.items():
        if is_leaf(v):
            out.append((path + (k,), v))
        else:
            out += leaves(v, path + (k,))
    return out


def sections(tree=None, path=()):
    tree = impl.default_tree() if tree is None else tree
    out = [path]
    for k, v in tree.items():
        if not is_leaf(v):
            out += sections(v, path + (k,))
    return out


def same(a, b):
    """Equality which also distinguishes True from 1 and text from number."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) if len(a) == len(b) and set(a) == set(b) and list(a) == list(b) \
            else (set(a) == set(b) and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def eqval(a, b):
    """Settings equality: ints and floats of equal value count as equal only if types agree."""
    return same(a, b)


def diff(a, b, path=()):
    """First difference between two settings trees (or None)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return path + (k,), "missing" if k not in b else "extra"
            d = diff(a[k], b[k], path + (k,))
            if d:
                return d
        return None
    return None if same(a, b) else (path, f"{a!r} != {b!r}")


def verdict(node, value):
    t = node["type"]
    cbf = bool(node.get("can_be_false", False))
    if cbf and any(same(value, f) for f in FALSES):
        return ("ok", False)
    if t in ("float", "int"):
        lo, hi = node.get("min", -math.inf), node.get("max", math.inf)
        if isinstance(value, bool):
            return None
        if value is None or isinstance(value, (list, dict)):
            return ("reject",)
        try:
            x = float(value)
        except ValueError:
            return ("reject",)
        if x != x:
            return ("reject",)
        if cbf and x == 0:
            return None
        if t == "int":
            if math.isinf(x):
                return ("reject",)
            if x != int(x):
                return ("reject",) if isinstance(value, str) else None
            if isinstance(value, str) and not value.strip().lstrip("+-").isdigit():
                return None
            x = int(x)
        if math.isinf(x) and lo <= x <= hi:
            return None
        return ("ok", x) if lo <= x <= hi else ("reject",)
    if t == "bool":
        for f in FALSES:
            if same(value, f):
                return ("ok", False)
        for f in TRUES:
            if same(value, f):
                return ("ok", True)
        if isinstance(value, (int, float)) and not isinstance(value, bool) and value in (0, 1):
            return None
        return ("reject",)
    if t == "enum":
        if any(same(value, v) for v in node["values"]):
            return ("ok", value)
        if isinstance(value, (int, float)) and any(v == value for v in node["values"]):
            return None
        return ("reject",)
    if t == "quantity":
        if value is None or isinstance(value, (list, dict, bool, int, float)):
            return ("reject",)
        dim = DIM[node["unit"]]
        try:
            x = ref.q(value, dim)
        except (AttributeError, KeyError, ValueError):
            return ("reject",)
        return ("ok", value) if x is not False else ("reject",)
    if t in ("str", "filepath"):
        return ("ok", value) if isinstance(value, str) else None
    if t == "str_or_plain_dict":
        return ("ok", value) if isinstance(value, (str, dict)) else None
    if t == "list":
        if value is None:
            return ("ok", [])
        if not isinstance(value, list):
            return ("reject",)
        return _items([verdict(node["values"], v) if "values" in node else ("ok", v) for v in value])
    if t in ("dict", "datasource"):
        if value is None:
            return ("ok", {}) if t == "dict" else ("reject",)
        if not isinstance(value, dict):
            return ("reject",)
        if t == "datasource" and any(k not in value for k in SOURCE_KEYS):
            return ("reject",)
        ks = _items([verdict(node["keys"], k) if "keys" in node else ("ok", k) for k in value])
        vs = _items([verdict(node["values"], v) if "values" in node else ("ok", v) for v in value.values()])
        if ks is None or vs is None:
            return None
        if ks[0] == "reject" or vs[0] == "reject":
            return ("reject",)
        return ("ok", dict(zip(ks[1], vs[1])))
    raise AssertionError("type of setting not known to the reference: " + t)


def _items(vs):
    if any(v is None for v in vs):
        return None
    if any(v[0] == "reject" for v in vs):
        return ("reject",)
    return ("ok", [v[1] for v in vs])


def defaults(tree=None):
    """The complete default configuration, according to the declaration."""
    out = {}
    for path, node in leaves(tree):
        v = verdict(node, copy.deepcopy(node.get("default")))
        put(out, path, v[1] if v and v[0] == "ok" else copy.deepcopy(node.get("default")))
    return out


def put(d, path, value):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = value
    return d


def get(d, path):
    for k in path:
        d = d[k]
    return d


def nest(items):
    out = {}
    for path, v in items:
        put(out, path, copy.deepcopy(v))
    return out


_n = [0]


def load_file(cfg, folder):
    """load_params from a YAML file holding cfg -> ("ok", params) | ("reject", exception name)."""
    _n[0] += 1
    f = os.path.join(folder, f"cfg{os.getpid()}_{_n[0]}.yaml")
    with open(f, "w", encoding="utf8") as fh:
        yaml.dump(cfg, fh, Dumper=_Dumper, sort_keys=False, allow_unicode=True)
    try:
        with impl.quiet():
            return ("ok", impl.load_params(f))
    except Exception as exc:
        return ("reject", type(exc).__name__)
    finally:
        os.unlink(f)


class _Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def construct(cfg):
    """MIMOSA(cfg) -> ("ok", object) | ("reject", exception name)."""
    try:
        return ("ok", impl.build(cfg))
    except Exception as exc:
        return ("reject", type(exc).__name__)


SMALL = [(("time", "start"), 2020), (("time", "end"), 2030), (("time", "dt"), 5), (("regions",), {"CAN": {}, "BRA": {}})]


def small(items):
    """SMALL settings overridden by items."""
    d = nest(SMALL)
    for path, v in items:
        put(d, path, copy.deepcopy(v))
    return d
