"""What a concrete model *is*: sets, parameters, limits, equations (evaluated at
deterministic probe points), objective.  Used to compare models built in
different histories."""
import hashlib
import math

import pyomo.environ as pyo
from pyomo.core.base.objective import minimize


def _num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return repr(x)


def _probe(name, k):
    h = int.from_bytes(hashlib.md5(f"{name}|{k}".encode()).digest()[:4], "big") / 2 ** 32
    return 0.2 + 0.7 * h


def _ev(e):
    try:
        return _num(pyo.value(e, exception=False))
    except Exception as exc:
        return "error " + type(exc).__name__


def signature(m, probes=1, rename=None, equations=True):
    """{label: number/text}.  `rename`: optional map of index -> index."""
    out = {}
    for s in m.component_objects(pyo.Set, descend_into=True):
        try:
            out[f"set {s.name}"] = repr(sorted(map(str, s)))
        except TypeError:
            pass
    for p in m.component_objects(pyo.Param, descend_into=True):
        for k, v in p.extract_values().items():
            out[f"param {p.name}[{k}]"] = _num(v)
    variables = list(m.component_data_objects(pyo.Var, descend_into=True))
    for v in variables:
        out[f"bounds {v.name}"] = (_num(v.lb), _num(v.ub), bool(v.fixed))
    if not equations:
        return out
    saved = [(v, v.value) for v in variables]
    cons = list(m.component_data_objects(pyo.Constraint, descend_into=True))
    objs = list(m.component_data_objects(pyo.Objective, descend_into=True))
    try:
        for v in variables:
            out[f"value {v.name}"] = _num(v.value)
        for c in cons:
            out[f"active {c.name}"] = bool(c.active)
        for o in objs:
            out[f"objective {o.name}"] = ("min" if o.sense == minimize else "max", bool(o.active))
        for k in range(probes):
            for v in variables:
                if not v.fixed:
                    v.set_value(_probe(v.name, k), skip_validation=True)
            for c in cons:
                if c.active:
                    out[f"eq {c.name}@{k}"] = (_ev(c.lower) if c.lower is not None else None, _ev(c.body), _ev(c.upper) if c.upper is not None else None)
            for o in objs:
                out[f"objective {o.name}@{k}"] = _ev(o.expr)
    finally:
        for v, x in saved:
            v.set_value(x, skip_validation=True)
    return out


def close(a, b, rtol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or (rtol > 0 and math.isclose(a, b, rel_tol=rtol, abs_tol=rtol * 1e-3))
    return a == b


def difference(a, b, rtol=0.0):
    """First difference (text) or None."""
    for k in a:
        if k not in b:
            return f"{k} only in the first model"
        if not close(a[k], b[k], rtol):
            return f"{k}: {a[k]!r} != {b[k]!r}"
    for k in b:
        if k not in a:
            return f"{k} only in the second model"
    return None


def digest(sig):
    return hashlib.sha256(repr(sorted(sig.items())).encode()).hexdigest()
