"""Policy-path exploration shared by the dynamics properties.

A job spec is JSON: {"set": [[path, value], ...], "regions": [...],
"time": [start, end, dt], "paths": {...}}.  `run` builds the real model for
that configuration, enumerates every policy path of the spec and evaluates it
with the model's own equations.
"""
import itertools
import numpy as np

from mc import impl, ref
from mc.compilem import Compiled
from mc import forward as fw

TABLES = ref.Tables(impl.PKG)


def spec(regions=("USA", "INDIA"), time=(2020, 2040, 5), set=(), paths=None, **kw):
    return {"regions": list(regions), "time": list(time), "set": [list(map(_l, s)) for s in set],
            "paths": paths or {"kind": "full", "alphabet": [0.0, 0.4, 1.1]}, **kw}


def _l(x):
    return list(x) if isinstance(x, tuple) else x


def params_of(sp):
    ov = [(("regions",), impl.regions_dict(sp["regions"]))]
    ov += [(("time", k), v) for k, v in zip(("start", "end", "dt"), sp["time"])]
    ov += [(tuple(p), v) for p, v in sp["set"]]
    return impl.params_from(ov)


def build(sp, raw=True):
    p = params_of(sp)
    mo = impl.build(p, raw=raw)
    return p, mo, mo.concrete_model


class Ctx:
    """Configuration facts used by the references (not taken from the model)."""

    def __init__(self, params, sp):
        self.p = params
        self.sp = sp
        s, e, dt = (float(x) for x in sp["time"])
        n = int(np.ceil(round((e - s) / dt, 9)))
        self.years = s + dt * np.arange(n + 1)
        self.T = n + 1
        self.start, self.dt = s, dt
        self.regions = list(sp["regions"])
        self.R = len(self.regions)
        self._b = {}

    def base(self, var):
        """Reference (T, R) scenario data."""
        if var not in self._b:
            v = self.p["input"]["variables"][var]
            scen = v["scenario"].replace("{SSP}", self.p["SSP"])
            self._b[var] = np.array([TABLES.baseline(v["file"], scen, r, v["variable"], self.years)
                                     for r in self.regions]).T
        return self._b[var]


# -- enumerating paths -------------------------------------------------------
def switching(levels, T, k):
    """All piecewise constant sequences over `levels` with at most k switches."""
    out = []
    for j in range(0, k + 1):
        for where in itertools.combinations(range(1, T), j):
            for vals in itertools.product(range(len(levels)), repeat=j + 1):
                if any(vals[i] == vals[i + 1] for i in range(j)):
                    continue
                seq, cuts = [], list(where) + [T]
                pos = 0
                for v, c in zip(vals, cuts):
                    seq += [v] * (c - pos)
                    pos = c
                out.append(seq)
    return np.array(out, int)                     # (B, T)


def _action_sequences(ps, n_act, T):
    """(B, T) action indices."""
    if T == 0:
        return np.zeros((1, 0), int)
    if ps["kind"] == "full":
        depth = min(ps.get("depth", T), T)
        seqs = np.array(list(itertools.product(range(n_act), repeat=depth)), int)
        if depth < T:                             # hold the last action to the horizon
            seqs = np.concatenate([seqs, np.repeat(seqs[:, -1:], T - depth, axis=1)], axis=1)
        return seqs
    if ps["kind"] == "switch":
        return switching(list(range(n_act)), T, ps.get("k", 2))
    raise ValueError(ps)


def actions_for(ps, R, controls):
    """Joint per-step actions: dict name -> array (n_act, columns)."""
    a = ps["alphabet"]
    if ps.get("joint", "product") == "product":
        ab = list(itertools.product(a, repeat=R))
    elif ps["joint"] == "diagonal":               # same level everywhere + one region deviating
        ab = [tuple([x] * R) for x in a]
        for x, y in itertools.permutations(a, 2):
            for r in range(min(R, ps.get("deviants", 1))):
                row = [x] * R
                row[r] = y
                ab.append(tuple(row))
    else:                                         # rotated profile
        ab = [tuple(a[(i + k) % len(a)] for i in range(R)) for k in range(len(a))]
    cols = {"relative_abatement": ab}
    extra = []
    for name in controls:
        if name == "relative_abatement":
            continue
        vals = ps.get(name, [0.0])
        n = 1 if name == "effort_sharing_common_level" else R if name + "_all" in ps else max(0, R - 1)
        if ps.get(name + "_joint") == "same":
            opts = [tuple([v] * n) for v in vals]
        else:
            opts = list(itertools.product(vals, repeat=n))
        extra.append((name, opts))
    joint = [dict(relative_abatement=x) for x in ab]
    for name, opts in extra:
        joint = [dict(j, **{name: o}) for j in joint for o in opts]
    return joint


def controls_of(C, ps=()):
    """Control variables of a model: names with the regions they cover (one
    region follows from the zero sums, unless "<name>_all" is asked for)."""
    R = C.regions
    out = {"relative_abatement": R}
    if C.has_var("import_export_mitigation_cost_balance"):
        out["import_export_mitigation_cost_balance"] = R if "import_export_mitigation_cost_balance_all" in ps else R[:-1]
    if C.has_var("financial_transfer"):
        out["financial_transfer"] = R if "financial_transfer_all" in ps else R[:-1]
    if C.has_var("effort_sharing_common_level"):
        out["effort_sharing_common_level"] = None
    return out


def run_paths(C, ps, T=None):
    """Evaluate all paths of the path spec. First-step actions are zero
    (documented), unless ps["from0"] is set."""
    ctl = controls_of(C, ps)
    joint = actions_for(ps, len(C.regions), list(ctl))
    T = len(C.t)
    free = T if ps.get("from0") else T - 1
    S = _action_sequences(ps, len(joint), free)
    limit = ps.get("limit")
    if limit and len(S) > limit:
        raise ValueError(f"{len(S)} paths exceed the declared bound {limit}")
    B = S.shape[0]
    arrs = {}
    for name, regs in ctl.items():
        n = 1 if regs is None else len(regs)
        table = np.array([list(j[name]) for j in joint], float).reshape(len(joint), n)
        A = np.zeros((T, n, B))
        if free:
            A[T - free:] = np.transpose(table[S], (1, 2, 0))
        if name == "effort_sharing_common_level":
            A[0] = 0.0
            arrs[name] = A[:, 0, :]
        else:
            arrs[name] = (A, regs)
    # balances in money: scale the trade/transfer actions if requested
    res = fw.forward(C, {k: v for k, v in arrs.items() if not (isinstance(v, tuple) and len(v[1]) == 0)})
    res.S = S
    res.joint = joint
    return res


def account(out, res, validate=40):
    st, tr = fw.count_states(res, res.S)
    out.states += st
    out.transitions += tr
    out.cases += res.B
    out.tag("paths_evaluated", res.ok.sum())
    out.tag("paths_without_value", (~res.ok).sum())
    good = np.nonzero(res.ok)[0]
    step = max(1, len(good) // validate)
    which = [int(b) for b in good[::step][:validate]]
    out.validated += res.validate_against_pyomo(which)


def path_repr(res, b):
    return [res.joint[a] for a in res.S[b]]


# -- comparing ------------------------------------------------------------
def compare(out, res, name, lhs, rhs, rtol=1e-7, atol=1e-10, mask=None, where=None):
    """lhs == rhs on every evaluated path. Arrays broadcast to (..., B)."""
    lhs, rhs = np.broadcast_arrays(np.asarray(lhs, float), np.asarray(rhs, float))
    if lhs.size == 0:
        return True
    if lhs.shape[-1] != res.B:
        lhs = np.broadcast_to(lhs[..., None], lhs.shape + (res.B,))
        rhs = np.broadcast_to(rhs[..., None], rhs.shape + (res.B,))
    if not res.ok.any():
        out.violation(f"{name}:unevaluable", f"{name}: no policy path can be evaluated")
        return False
    L, Rr = lhs[..., res.ok], rhs[..., res.ok]
    fin = np.abs(Rr[np.isfinite(Rr)])
    scale = fin.max() if fin.size and fin.any() else 1.0
    tol = rtol * np.maximum(np.abs(L), np.abs(Rr)) + atol * max(scale, 1e-4)
    if mask is not None:
        mk = np.broadcast_to(mask, lhs.shape)[..., res.ok]
    else:
        mk = True
    bad = ~(np.abs(L - Rr) <= tol) & mk
    out.tag("relation_points", L.size)
    if bad.any():
        at = np.argwhere(bad)
        # prefer the earliest deviation
        at = at[np.argsort(at[:, 0], kind="stable")][0] if at.shape[1] > 1 else at[0]
        b = int(np.nonzero(res.ok)[0][at[-1]])
        C = res.C
        loc = list(map(int, at[:-1]))
        if where is not None:
            place = where(loc)
        else:
            place = {"step": loc[0] if loc else None,
                     "region": C.regions[loc[1]] if len(loc) > 1 and lhs.shape[1] == len(C.regions) else None}
        out.violation(f"{name}", f"{name} differs: model {L[tuple(at)]:.9g}, documented {Rr[tuple(at)]:.9g} at {place} "
                                 f"({int(bad.any(axis=tuple(range(bad.ndim - 1))).sum())} of {int(res.ok.sum())} paths)",
                      path=path_repr(res, b), place=place)
        return False
    return True


def consistent(out, res, owned, name="equations"):
    """Equations not needed to determine a variable must hold as well; reported
    for the variables a property owns. Paths where a foreign equation fails are
    not judged here."""
    left = [ci for ci in res.plan.leftover
            if any(res.C.keys[v][0] in owned for v in res.C.con[ci]["vars"])]
    if not left or not res.ok.any():
        return True
    bad, which = res.eq_violation(left)
    bad = bad[:, res.ok]
    if bad.any():
        k, b = np.argwhere(bad)[0]
        b = int(np.nonzero(res.ok)[0][b])
        out.violation(f"{name}:contradiction", f"contradictory equations: {res.C.con[which[k]]['name']} fails "
                                               f"although all other equations hold", path=path_repr(res, b))
        return False
    return True


def determined(out, res, names, first=1):
    """The named variables are determined for steps >= first."""
    C = res.C
    und = [C.vars[v].name for v in res.plan.undetermined
           if C.keys[v][0] in names and (C.keys[v][1] and C.keys[v][1][0] >= first)]
    if und:
        out.violation(f"undetermined:{und[0].split('[')[0]}", f"not determined by the policy: {und[:5]}")
        return False
    return True
