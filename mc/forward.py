"""Explicit-state forward exploration of a compiled model.

Given values of the control variables for a whole batch of policy paths, all
other variables are determined by the model's own equations: structural
matching + strongly connected components give an ordering in blocks, each
block is solved by a batched Newton iteration.  What is left over (equations
not used to determine a variable, inequalities, variable bounds) is evaluated
on every path and gives the path's admissibility verdict.
"""
import itertools
import heapq
import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

CONTROLS = ("relative_abatement", "import_export_mitigation_cost_balance",
            "financial_transfer", "effort_sharing_common_level", "mitigation_costs")


# quantities with a documented starting value: determined in preference to others where the equations leave a choice
PREFER = {"regional_emissions", "baseline", "global_emissions", "cumulative_emissions", "temperature", "capital_stock", "GDP_gross", "GDP_net",
          "investments", "consumption", "damage_costs", "mitigation_costs", "utility", "yearly_welfare", "NPV", "rel_mitigation_costs",
          "area_under_MAC", "carbonprice", "global_carbonprice"}


def match(C, unk):
    """{equation: variable it determines}, of maximum size, whatever the order in which equations and variables are listed: an equation
    in which a variable stands alone with a constant factor determines it in preference to one whose factor may vanish, and where
    the equations leave variables undetermined these are the last ones in a fixed order."""
    free = set(unk)
    lin = C.linear_parts()
    rows = {ci: [v for v in C.con[ci]["vars"] if v in free] for ci in C.eqs}
    cols = {}
    for ci, vs in rows.items():
        for v in vs:
            cols.setdefault(v, []).append(ci)
    pairs, owner = {}, {}
    count = {ci: len(vs) for ci, vs in rows.items()}
    work = [(0, C.con[ci]["name"], ci) for ci in rows if count[ci] == 1]
    heapq.heapify(work)
    while work:
        n, _, ci = heapq.heappop(work)
        v = next((v for v in rows[ci] if v not in owner), None)
        if v is None or v not in lin[ci]:
            continue
        pairs[ci], owner[v] = v, ci
        for cj in cols[v]:
            count[cj] -= 1
            if count[cj] == 1 and cj not in pairs:
                heapq.heappush(work, (n + 1, C.con[cj]["name"], cj))
    eqs = sorted((ci for ci in rows if ci not in pairs and any(v not in owner for v in rows[ci])), key=lambda ci: C.con[ci]["name"])
    rest = {ci: [v for v in rows[ci] if v not in owner] for ci in eqs}
    names = sorted({v for vs in rest.values() for v in vs}, key=lambda v: (C.keys[v][0] not in PREFER, C.vars[v].name))
    if not names:
        return pairs
    pos = {v: k for k, v in enumerate(names)}
    edges = [(k, pos[v]) for k, ci in enumerate(eqs) for v in rest[ci] if v in lin[ci]]
    G = csr_matrix((np.ones(len(edges)), ([e[0] for e in edges], [e[1] for e in edges])), shape=(len(eqs), len(names)))
    first = maximum_bipartite_matching(G, perm_type="column") if edges else -np.ones(len(eqs), int)
    mr = {eqs[k]: names[first[k]] for k in range(len(eqs)) if first[k] >= 0}      # equation -> variable
    mc = {v: ci for ci, v in mr.items()}
    near = {}
    for ci in eqs:
        for v in rest[ci]:
            near.setdefault(v, []).append(ci)
        rest[ci].sort(key=lambda v: (v not in lin[ci], pos[v]))
    for ci in eqs:                                   # augment with the remaining edges
        if ci in mr:
            continue
        back, queue, end = {}, [ci], None
        while queue and end is None:
            r = queue.pop(0)
            for v in rest[r]:
                if v not in back:
                    back[v] = r
                    if v not in mc:
                        end = v
                        break
                    queue.append(mc[v])
        while end is not None:
            r = back[end]
            nxt = mr.get(r)
            mr[r], mc[end] = end, r
            end = nxt if r != ci else None
    for v in names:                                  # undetermined: the last ones that can be
        if v in mc:
            continue
        back, queue, seen = {}, [v], {v}
        while queue:
            w = queue.pop(0)
            for ci in near[w]:
                u = mr.get(ci)
                if u is not None and u not in seen:
                    seen.add(u)
                    back[u] = (w, ci)
                    queue.append(u)
        worst = max(seen, key=pos.get)
        while worst != v:
            w, ci = back[worst]
            mr[ci], mc[w] = w, ci
            mc.pop(worst, None) if mc.get(worst) == ci else None
            worst = w
    pairs.update(mr)
    return pairs


class Plan:
    """Block ordering for one compiled model and one set of control variables."""

    def __init__(self, C, control_ids):
        self.C = C
        self.control = sorted(set(control_ids) | set(np.nonzero(C.fixed)[0].tolist()))
        cset = set(self.control)
        unk = [i for i in range(C.n) if i not in cset]
        self.pairs = match(C, unk)
        self.leftover = [ci for ci in C.eqs if ci not in self.pairs]
        determined = set(self.pairs.values())
        self.undetermined = [v for v in unk if v not in determined]
        self.blocks = self._sccs()

    def _sccs(self):
        C = self.C
        owner = {v: ci for ci, v in self.pairs.items()}
        adj = {ci: [owner[v] for v in C.con[ci]["vars"] if v in owner and owner[v] != ci]
               for ci in self.pairs}
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = 0
        for root in self.pairs:
            if root in index:
                continue
            work = [(root, 0)]
            while work:
                node, k = work.pop()
                if k == 0:
                    index[node] = low[node] = cnt
                    cnt += 1
                    st.append(node)
                    onst.add(node)
                rec = False
                nb = adj[node]
                while k < len(nb):
                    w = nb[k]
                    k += 1
                    if w not in index:
                        work.append((node, k))
                        work.append((w, 0))
                        rec = True
                        break
                    if w in onst:
                        low[node] = min(low[node], index[w])
                if rec:
                    continue
                if low[node] == index[node]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == node:
                            break
                    out.append(comp)
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[node])
        return [([ci for ci in comp], [self.pairs[ci] for ci in comp]) for comp in out]


class Result:
    def __init__(self, C, plan, X, ok):
        self.C, self.plan, self.X, self.ok = C, plan, X, ok
        self.B = X.shape[1]

    def get(self, name):
        """(T, B) or (T, R, B) array of a variable or parameter of that name."""
        C = self.C
        T, R = len(C.t), len(C.regions)
        comp = getattr(C.m, name)
        kind = "var" if C.has_var(name) else "param"
        keys = list(comp.keys())
        if keys and isinstance(keys[0], tuple):
            out = np.full((T, R, self.B), np.nan)
            for ti, t in enumerate(C.t):
                for ri, r in enumerate(C.regions):
                    if kind == "var":
                        out[ti, ri] = self.X[C.key2i[(name, (t, r))]]
                    else:
                        out[ti, ri] = _pv(comp[t, r])
            return out
        out = np.full((T, self.B), np.nan)
        for ti, t in enumerate(C.t):
            if kind == "var":
                out[ti] = self.X[C.key2i[(name, (t,))]]
            else:
                out[ti] = _pv(comp[t])
        return out

    def has(self, name):
        return getattr(self.C.m, name, None) is not None

    # -- verdicts ---------------------------------------------------------
    def eq_violation(self, which=None, tol=1e-7):
        """(names, bool array) of equalities not satisfied on a path."""
        which = self.C.eqs if which is None else which
        if not which:
            return np.zeros((0, self.B), bool), which
        body = self.C.eval_bodies(self.X, which)
        rhs = np.array([self.C.con[ci]["up"] if self.C.con[ci]["up"] is not None else self.C.con[ci]["lo"] for ci in which])
        sc = self.C.scales(self.X, which)
        bad = ~(np.abs(body - rhs[:, None]) <= tol * sc)
        return bad, which

    def ineq_margin(self, which=None):
        """Margins (>=0 satisfied) of all inequalities and variable bounds,
        in units of the constraint's own scale. Returns names, margins."""
        C = self.C
        which = C.ineqs if which is None else which
        names, rows = [], []
        if which:
            body = C.eval_bodies(self.X, which)
            for k, ci in enumerate(which):
                c = C.con[ci]
                if c["lo"] is not None:
                    names.append(c["name"] + ":lo")
                    rows.append(body[k] - c["lo"])
                if c["up"] is not None:
                    names.append(c["name"] + ":up")
                    rows.append(c["up"] - body[k])
        und = set(self.plan.undetermined)
        for i in range(C.n):
            if i in und:
                continue
            if np.isfinite(C.lb[i]):
                names.append(f"bound {C.vars[i].name}:lo")
                rows.append(self.X[i] - C.lb[i])
            if np.isfinite(C.ub[i]):
                names.append(f"bound {C.vars[i].name}:up")
                rows.append(C.ub[i] - self.X[i])
        if not rows:
            return [], np.zeros((0, self.B))
        return names, np.array(rows)

    def admissible(self, tie=1e-7):
        """(verdict, tie) arrays: all equalities, inequalities and bounds.
        tie: the worst margin is too close to zero to be judged."""
        bad, _ = self.eq_violation()
        eq_ok = ~bad.any(axis=0)
        _, marg = self.ineq_margin()
        if len(marg):
            worst = np.where(np.isnan(marg), -np.inf, marg).min(axis=0)
        else:
            worst = np.full(self.B, np.inf)
        # binding by construction (0 == 0) is fine; strictly negative beyond tie is not
        return eq_ok & (worst >= -tie) & self.ok, worst

    def violated(self, b, tie=1e-7, limit=6):
        out = []
        bad, which = self.eq_violation()
        for k, ci in enumerate(which):
            if bad[k, b]:
                out.append(self.C.con[ci]["name"])
        names, marg = self.ineq_margin()
        for k in range(len(names)):
            if not marg[k, b] >= -tie:
                out.append(f"{names[k]} margin {marg[k, b]:.3g}")
        return out[:limit]

    def objective(self):
        o = self.C.objs[0]
        with np.errstate(all="ignore"):
            v = o["f"](self.X)
        return np.broadcast_to(np.asarray(v, float), (self.B,)), o["sense"]

    def validate_against_pyomo(self, which):
        """Load traces into the real model and let Pyomo evaluate every active
        constraint; returns the number of traces compared, raises on mismatch."""
        import pyomo.environ as pyo
        C = self.C
        bodies = C.eval_bodies(self.X[:, which])
        n = 0
        for k, b in enumerate(which):
            for i, v in enumerate(C.vars):
                v.set_value(float(self.X[i, b]), skip_validation=True)
            for ci, c in enumerate(C.con):
                try:
                    ref = float(pyo.value(c["data"].body))
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    continue
                got = bodies[ci, k]
                if not (abs(ref - got) <= 1e-9 * max(1.0, abs(ref)) or (ref != ref and got != got)):
                    raise AssertionError(f"compiled {c['name']}: {got} but Pyomo evaluates {ref}")
            n += 1
        return n


def _pv(x):
    import pyomo.environ as pyo
    v = pyo.value(x)
    try:
        return float(v)
    except (TypeError, ValueError):
        return np.nan


def solve(plan, X, max_iter=60):
    """Fill all determined rows of X (n, B) in place. Returns ok mask."""
    C = plan.C
    B = X.shape[1]
    ok = np.ones(B, bool)
    dead = np.zeros(B, bool)          # paths without a value so far
    done = np.zeros(C.n, bool)
    done[plan.control] = True
    for v in plan.undetermined:
        done[v] = True
    prev = {}
    for i, (nm, ix) in enumerate(C.keys):
        if ix and isinstance(ix[0], (int, np.integer)):
            j = C.key2i.get((nm, (ix[0] - 1,) + ix[1:]))
            if j is not None:
                prev[i] = j
    und = set(plan.undetermined)
    with np.errstate(all="ignore"):
        for rows, cols in plan.blocks:
            # initial guess
            for v in cols:
                j = prev.get(v)
                if j is not None and done[j] and j not in und:
                    X[v] = np.where(np.isfinite(X[j]), X[j], 1.0)
                else:
                    x0 = C.init[v]
                    X[v] = x0 if np.isfinite(x0) else 1.0
            k = len(rows)
            rhs = np.array([C.con[ci]["up"] if C.con[ci]["up"] is not None else C.con[ci]["lo"] for ci in rows])
            D = []
            for a, ci in enumerate(rows):
                inb = [b for b, v in enumerate(cols) if v in set(C.con[ci]["vars"])]
                D.append((inb, C.derivs(ci, [cols[b] for b in inb])))
            active = ~dead
            last = None
            for it in range(max_iter):
                idx = np.nonzero(active)[0]
                if not len(idx):
                    break
                Xa = X[:, idx] if len(idx) < B else X
                Fv = np.array([np.broadcast_to(C.con[ci]["f"](Xa), (len(idx),)) for ci in rows]) - rhs[:, None]
                J = np.zeros((len(idx), k, k))
                for a, (inb, fs) in enumerate(D):
                    for b, f in zip(inb, fs):
                        J[:, a, b] = f(Xa)
                if k == 1:
                    dx = (Fv[0] / J[:, 0, 0])[:, None]
                else:
                    try:
                        dx = np.linalg.solve(J, Fv.T[:, :, None])[:, :, 0]
                    except np.linalg.LinAlgError:
                        dx = np.full((len(idx), k), np.nan)
                        for q in range(len(idx)):
                            try:
                                dx[q] = np.linalg.solve(J[q], Fv[:, q])
                            except np.linalg.LinAlgError:
                                pass
                bad = ~np.isfinite(dx).all(axis=1)
                if bad.any():
                    # an exactly satisfied equation with a zero derivative is solved
                    z = bad & (np.abs(Fv).max(axis=0) <= 1e-300)
                    dx[z] = 0.0
                    bad &= ~z
                    ok[idx[bad]] = False
                    dx[bad] = 0.0
                xv = X[np.ix_(cols, idx)]
                X[np.ix_(cols, idx)] = xv - dx.T
                rel = (np.abs(dx) / (1e-12 + np.abs(xv.T))).max(axis=1)
                ab = np.abs(dx).max(axis=1)
                conv = bad | (rel < 1e-12) | (ab < 1e-15)
                if it >= 6:
                    conv |= (rel < 1e-10)
                if it >= 25:
                    conv |= (rel < 1e-7) | (ab < 1e-9)
                active[idx[conv]] = False
            failed = active | ~ok
            retry = np.nonzero(failed & ~dead)[0]
            if len(retry):
                good = _damped(C, X, rows, cols, rhs, D, retry, [prev.get(v) if prev.get(v) is not None and done[prev[v]]
                                                               and prev[v] not in und else None for v in cols])
                ok[retry] = good
                dead[retry[~good]] = True
            ok[dead] = False
            done[cols] = True
    ok &= np.isfinite(X[[i for i in range(C.n) if i not in und]]).all(axis=0)
    return ok


def _damped(C, X, rows, cols, rhs, D, idx, prevs):
    """Newton with step-length control from several starting points, for the
    paths on which the plain iteration did not settle."""
    k, n = len(rows), len(idx)
    left = np.arange(n)
    good = np.zeros(n, bool)
    for start in range(3):
        if not len(left):
            break
        W = X[:, idx[left]].copy()
        for v, j in zip(cols, prevs):
            x0 = C.init[v] if np.isfinite(C.init[v]) else 1.0
            if start != 1 and j is not None:
                x0 = W[j]
            W[v] = np.where(np.isfinite(x0), x0, 1.0) * (1.0, 1.0, 2.0)[start]

        def resid(Z):
            return np.array([np.broadcast_to(C.con[ci]["f"](Z), (Z.shape[1],)) for ci in rows]) - rhs[:, None]

        F = resid(W)
        act = np.isfinite(F).all(axis=0)
        fine = np.zeros(len(left), bool)
        for it in range(120):
            a = np.nonzero(act)[0]
            if not len(a):
                break
            Z = W[:, a]
            J = np.zeros((len(a), k, k))
            for r, (inb, fs) in enumerate(D):
                for b, f in zip(inb, fs):
                    J[:, r, b] = f(Z)
            dx = np.full((len(a), k), np.nan)
            for q in range(len(a)):
                try:
                    dx[q] = np.linalg.solve(J[q], F[:, a[q]])
                except np.linalg.LinAlgError:
                    pass
            bad = ~np.isfinite(dx).all(axis=1)
            act[a[bad]] = False
            dx[bad] = 0.0
            base = Z[cols]
            rel = (np.abs(dx.T) / (1e-12 + np.abs(base))).max(axis=0)
            conv = ~bad & ((rel < 1e-11) | (np.abs(dx).max(axis=1) < 1e-15))
            scale = 1.0 / (1e-300 + np.abs(J).max(axis=2).T)
            best, bx, bF = np.full(len(a), np.inf), base.copy(), F[:, a].copy()
            for lam in (1.0, 0.5, 0.2, 0.05, 0.01):
                Y = Z.copy()
                Y[cols] = base - lam * dx.T
                FY = resid(Y)
                m = np.nan_to_num(np.abs(FY * scale).max(axis=0), nan=np.inf, posinf=np.inf)
                take = m < best
                best = np.where(take, m, best)
                bx = np.where(take, Y[cols], bx)
                bF = np.where(take, FY, bF)
            W[np.ix_(cols, a)] = bx
            F[:, a] = bF
            fine[a[conv]] = True
            act[a[conv]] = False
            act[a[~np.isfinite(best)]] = False
        X[np.ix_(cols, idx[left])] = W[cols]
        good[left[fine]] = True
        left = left[~fine]
    return good


def forward(C, controls, plan_cache=None):
    """controls: {name: array broadcastable to (T, B) or (T, R', B) with the
    R' regions given as (array, regions)}; every listed entry is fixed."""
    ids, vals = [], []
    B = 1
    for name, spec in controls.items():
        arr, regs = spec if isinstance(spec, tuple) else (spec, None)
        arr = np.asarray(arr, float)
        B = max(B, arr.shape[-1])
    for name, spec in controls.items():
        arr, regs = spec if isinstance(spec, tuple) else (spec, None)
        arr = np.asarray(arr, float)
        if regs is None:
            for ti, t in enumerate(C.t):
                ids.append(C.key2i[(name, (t,))])
                vals.append(np.broadcast_to(arr[ti], (B,)))
        else:
            for ti, t in enumerate(C.t):
                for ri, r in enumerate(regs):
                    ids.append(C.key2i[(name, (t, r))])
                    vals.append(np.broadcast_to(arr[ti, ri], (B,)))
    key = tuple(sorted(ids))
    cache = C.__dict__.setdefault("_plans", {})
    plan = cache.get(key)
    if plan is None:
        plan = cache[key] = Plan(C, ids)
    X = np.zeros((C.n, B))
    for i in np.nonzero(C.fixed)[0]:
        X[i] = C.init[i]
    for i, v in zip(ids, vals):
        X[i] = v
    ok = solve(plan, X)
    return Result(C, plan, X, ok)


# -- enumeration ----------------------------------------------------------
def sequences(alphabet, T):
    """All action sequences of length T: array (T, len(action), B)."""
    al = [tuple(np.atleast_1d(a)) for a in alphabet]
    seqs = list(itertools.product(range(len(al)), repeat=T))
    A = np.array(al, float)
    S = np.array(seqs, int)                       # (B, T)
    return np.transpose(A[S], (1, 2, 0)), S       # (T, k, B), (B, T)


def count_states(res, S):
    """(#distinct states, #transitions): states are the distinct rounded
    vectors of all time-t quantities, transitions the distinct action prefixes."""
    C = res.C
    bytime = {}
    for i, (nm, ix) in enumerate(C.keys):
        if ix and isinstance(ix[0], (int, np.integer)):
            bytime.setdefault(ix[0], []).append(i)
    states = set()
    for t, ids in bytime.items():
        M = res.X[ids]
        with np.errstate(all="ignore"):
            R = np.where(np.isfinite(M), M, 0.0)
            R = np.round(R / np.maximum(1e-30, 10.0 ** np.floor(np.log10(np.abs(R) + 1e-30)) * 1e-9)).astype(np.int64)
        for h in {R[:, b].tobytes() for b in range(R.shape[1])}:
            states.add((t, hash(h)))
    trans = 0
    for k in range(1, S.shape[1] + 1):
        trans += len({S[b, :k].tobytes() for b in range(S.shape[0])})
    return len(states), trans
