"""Turns a concrete Pyomo model into vectorised numpy functions.

The equations are read from the model object the implementation built, so the
compiled system *is* the implementation's; `validate_against_pyomo` replays
traces through Pyomo's own evaluator to confirm it.
"""
import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr import identify_variables
from pyomo.core.expr.calculus.derivatives import differentiate, Modes

FUN = {"exp": "np.exp", "log": "np.log", "log10": "np.log10", "atan": "np.arctan",
       "sqrt": "np.sqrt", "tanh": "np.tanh", "sin": "np.sin", "cos": "np.cos",
       "tan": "np.tan", "sinh": "np.sinh", "cosh": "np.cosh", "asin": "np.arcsin",
       "acos": "np.arccos"}


class Unsupported(Exception):
    pass


def num(x):
    x = float(pyo.value(x))
    if x != x or x in (float("inf"), float("-inf")):
        return f"float('{x}')"
    r = repr(x)
    return f"({r})" if x < 0 else r


def src(node, idx):
    """Python source of a Pyomo expression over X[i]."""
    if not hasattr(node, "is_potentially_variable"):
        return num(node)
    if not node.is_potentially_variable():
        return num(node)
    if node.is_variable_type():
        return f"X[{idx[id(node)]}]"
    if node.is_named_expression_type():
        return src(node.args[0], idx)
    cls = type(node).__name__
    a = node.args
    if "Monomial" in cls or "Product" in cls:
        return f"({src(a[0], idx)}*{src(a[1], idx)})"
    if "Division" in cls:
        return f"({src(a[0], idx)}/{src(a[1], idx)})"
    if "Reciprocal" in cls:
        return f"(1.0/{src(a[0], idx)})"
    if "Pow" in cls:
        return f"({src(a[0], idx)}**{src(a[1], idx)})"
    if "Negation" in cls:
        return f"(-{src(a[0], idx)})"
    if "Abs" in cls:
        return f"np.abs({src(a[0], idx)})"
    if "UnaryFunction" in cls:
        return f"{FUN[node.getname()]}({src(a[0], idx)})"
    if "Sum" in cls or "Linear" in cls:
        return "(" + "+".join(src(x, idx) for x in a) + ")"
    if "Expr_if" in cls:
        raise Unsupported(cls)
    raise Unsupported(cls)


def _constant(node):
    return not hasattr(node, "is_potentially_variable") or not node.is_potentially_variable()


def _split(node, factor, idx, lin, other):
    if _constant(node):
        return
    if node.is_variable_type():
        i = idx[id(node)]
        lin[i] = lin.get(i, 0.0) + factor
        return
    if node.is_named_expression_type():
        return _split(node.args[0], factor, idx, lin, other)
    cls, a = type(node).__name__, node.args
    if "Monomial" in cls or "Product" in cls:
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            if _constant(x):
                return _split(y, factor * float(pyo.value(x)), idx, lin, other)
    elif "Division" in cls and _constant(a[1]):
        return _split(a[0], factor / float(pyo.value(a[1])), idx, lin, other)
    elif "Negation" in cls:
        return _split(a[0], -factor, idx, lin, other)
    elif "Sum" in cls or "Linear" in cls:
        for x in a:
            _split(x, factor, idx, lin, other)
        return
    other.update(idx[id(v)] for v in identify_variables(node, include_fixed=True))


def split_name(v):
    """(component name, index tuple)"""
    comp = v.parent_component()
    ix = v.index()
    if ix is None:
        ix = ()
    elif not isinstance(ix, tuple):
        ix = (ix,)
    return comp.local_name, ix


class Compiled:
    def __init__(self, m):
        self.m = m
        self.vars = list(m.component_data_objects(pyo.Var, active=None, descend_into=True))
        self.idx = {id(v): i for i, v in enumerate(self.vars)}
        self.keys = [split_name(v) for v in self.vars]
        self.key2i = {k: i for i, k in enumerate(self.keys)}
        self.n = len(self.vars)
        self.lb = np.array([(-np.inf if v.lb is None else v.lb) for v in self.vars], float)
        self.ub = np.array([(np.inf if v.ub is None else v.ub) for v in self.vars], float)
        self.init = np.array([(np.nan if v.value is None else float(v.value)) for v in self.vars])
        self.fixed = np.array([v.fixed for v in self.vars], bool)
        self.t = list(m.t)
        self.regions = list(m.regions)
        self.con = []      # dicts: name, eq, lo, up, vars, body(expr)
        lines = []
        for c in m.component_data_objects(pyo.Constraint, active=True, descend_into=True):
            body = c.body
            vs = []
            if hasattr(body, "is_potentially_variable") and body.is_potentially_variable():
                seen = set()
                for v in identify_variables(body, include_fixed=True):
                    i = self.idx.get(id(v))
                    if i is None:
                        raise Unsupported(f"unknown variable {v.name} in {c.name}")
                    if i not in seen:
                        seen.add(i)
                        vs.append(i)
            lo = None if c.lower is None else float(pyo.value(c.lower))
            up = None if c.upper is None else float(pyo.value(c.upper))
            eq = bool(c.equality) or (lo is not None and up is not None and lo == up)
            self.con.append({"name": c.name, "eq": eq, "lo": lo, "up": up, "vars": vs, "body": body, "data": c})
            lines.append(src(body, self.idx))
        text = "F=[\n" + "\n".join(f"lambda X: {l}," for l in lines) + "\n]"
        ns = {"np": np}
        exec(compile(text, "<model>", "exec"), ns)
        for c, f in zip(self.con, ns["F"]):
            c["f"] = f
        objs = list(m.component_data_objects(pyo.Objective, active=True))
        self.objs = []
        for o in objs:
            f = eval("lambda X: " + src(o.expr, self.idx), {"np": np})
            self.objs.append({"f": f, "sense": int(o.sense)})
        self.eqs = [i for i, c in enumerate(self.con) if c["eq"]]
        self.ineqs = [i for i, c in enumerate(self.con) if not c["eq"]]

    def linear_parts(self):
        """Per equation: the variables which stand in it with a constant non-zero factor only."""
        if getattr(self, "_lin", None) is None:
            self._lin = {}
            for ci in self.eqs:
                lin, other = {}, set()
                _split(self.con[ci]["body"], 1.0, self.idx, lin, other)
                self._lin[ci] = {v for v, c in lin.items() if c != 0 and v not in other}
        return self._lin

    # -- access ----------------------------------------------------------
    def var_names(self):
        return sorted({k[0] for k in self.keys})

    def has_var(self, name):
        return any(k[0] == name for k in self.keys)

    def derivs(self, ci, wrt):
        """Compiled d body/d X[j] for j in wrt."""
        c = self.con[ci]
        cache = c.setdefault("d", {})
        todo = [j for j in wrt if j not in cache]
        if todo:
            ds = differentiate(c["body"], wrt_list=[self.vars[j] for j in todo],
                               mode=Modes.reverse_symbolic)
            lines = [src(d, self.idx) for d in ds]
            ns = {"np": np}
            exec("F=[" + ",".join(f"(lambda X: {l})" for l in lines) + "]", ns)
            for j, f in zip(todo, ns["F"]):
                cache[j] = f
        return [cache[j] for j in wrt]

    def eval_bodies(self, X, which=None):
        B = X.shape[1]
        which = range(len(self.con)) if which is None else which
        out = np.empty((len(which), B))
        with np.errstate(all="ignore"):
            for k, ci in enumerate(which):
                out[k] = self.con[ci]["f"](X)
        return out

    def scales(self, X, which):
        """Magnitude of the variables in each constraint (for tolerances)."""
        out = np.ones((len(which), X.shape[1]))
        A = np.abs(X)
        for k, ci in enumerate(which):
            vs = self.con[ci]["vars"]
            if vs:
                out[k] = np.maximum(1.0, A[vs].max(axis=0))
        return out
