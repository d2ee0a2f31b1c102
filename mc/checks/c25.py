"""C25: pre- and postprocessing change neither the problem nor the reported results."""
import itertools

import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr import identify_variables

from mc import explore as ex, forward as fw, impl, rules, solverstub
from mc.checks.c24 import BASES, COVER, FLAGS, M, MODULES, leaf_values, valid

PROPERTY = "C25"
BOUNDS = {
    "quick": "all module/regime combinations, one and two regions in turn, pairwise-covering flags and limits; in each model all policies with up to one switch over "
             "{0,0.4,1.1} (x trade, transfer, common level), every single-variable deviation from an admissible policy, and two solves in "
             "a row whose answers are two different policies (the answer is loaded through the real solver interface)",
    "thorough": "as quick with one, two, three and 26 regions, all 8 flag rows and two switches",
}
ASSUMPTIONS = ["the solver returns a point which satisfies the problem it was given"]
REQUIRED_TAGS = ["admitted by both", "rejected by both", "deviation rejected by both", "restored solutions", "second solutions", "fixed beforehand", "eliminated variables",
                 "one region", "several regions"]
TIE = 1e-7
REGS = [["USA", "INDIA"], ["BRA"], ["WEU", "OCE", "CHN"]]
LIMITS = [[], [(("emissions", "carbonbudget"), "700 GtCO2"), (("temperature", "target"), "2.2 delta_degC")],
          [(("emissions", "inertia", "global"), -0.03), (("emissions", "regional min level"), "0 GtCO2/yr")], rules.OFF_LIMITS]
# a savings rate of 0 or 1 makes variables equal, which preprocessing then merges
SR = [0.21, 0, 1]
GRIDS = [(2020, 2060, 10), (2030, 2110, 20), (2015, 2035, 5)]


def extremes():
    return [(p, v) for p, v in leaf_values() if p[0] != "time" and not isinstance(v, bool) and (isinstance(v, (int, float)) or (v[:1] in "-0123456789" and " " in v))]


def jobs(tier):
    J, n = [], 0
    deep = tier == "thorough"
    for combo in itertools.product(*[v for _, v in MODULES]):
        sel = [(p, v) for (p, _), v in zip(MODULES, combo)]
        if not valid(sel):
            continue
        n += 1
        for k in range(8 if deep else 2):
            row = COVER[(n + 4 * k) % 8] if not deep else COVER[k]
            flags = [(p, v[b]) for (p, v), b in zip(FLAGS, row) if p[0] != "temperature" and p[-1] != "carbonbudget"]
            R = REGS[(n // 3 + k) % 2] if not deep else REGS[(n + k) % 3]
            J.append({"sel": [[list(p), v] for p, v in sel + flags + LIMITS[(n + k) % 4] + [(("economics", "GDP", "savings rate"), SR[(n + k) % 3])]], "regions": R, "time": list(GRIDS[(n + k) % 3]),
                      "k": 2 if deep else 1, "cost": 2})
    # narrow and wide ranges: every boundary and extreme value of every number
    for i, (path, v) in enumerate(extremes()):
        for b in range(3 if deep else 2):
            base = [x for x in BASES[b] if x[0] != path]
            J.append({"sel": [[list(p), w] for p, w in base + [(path, v)]], "regions": REGS[0], "time": list(GRIDS[(i + b) % 3]), "k": 1, "cost": 2,
                      "bare": True})
    if deep:
        from mc.checks.c24 import all_regions
        for b in BASES:
            J.append({"sel": [[list(p), v] for p, v in b], "regions": all_regions(), "time": [2020, 2100, 20], "k": 1, "cost": 60})
    return J


def run_job(job, out):
    R = len(job["regions"])
    paths = {"kind": "switch", "k": job["k"], "alphabet": [0.0, 0.4, 1.1], "joint": "rotate", "import_export_mitigation_cost_balance": [0.0, 0.01],
             "import_export_mitigation_cost_balance_joint": "same", "financial_transfer": [0.0, -0.01], "financial_transfer_joint": "same",
             "effort_sharing_common_level": [0.0, 0.02]}
    sp = ex.spec(job["regions"], job["time"], [(tuple(p), v) for p, v in job["sel"]], paths)
    _, _, m1 = ex.build(sp)
    C1 = ex.Compiled(m1)
    r1 = ex.run_paths(C1, paths)
    ex.account(out, r1, 3)
    _, mo, m2 = ex.build(sp, raw=False)
    C2 = ex.Compiled(m2)
    out.tag("one region" if R == 1 else "several regions")
    und = {C1.vars[v].name for v in r1.plan.undetermined}
    name2i = {v.name: i for i, v in enumerate(C2.vars)}
    gone = [v.name for v in C1.vars if v.name not in name2i]
    if gone:
        out.violation("variable disappears", f"{gone[:3]} missing from the prepared model", config=job["sel"])
        return
    links = linked(m2, C2)                      # auxiliary variable index -> names it replaces
    known = {v.name for v in C1.vars}
    used = {i for c in C1.con for i in c["vars"]}
    used |= {C1.idx[id(v)] for o in m1.component_data_objects(pyo.Objective, active=True) for v in identify_variables(o.expr)}
    out.tag("eliminated variables", sum(len(x) for x in links.values()))
    aux = [v.name for i, v in enumerate(C2.vars) if v.name not in known and i not in links]
    if aux:
        out.violation("unknown auxiliary variable", f"the prepared model has variables {aux[:3]} without a counterpart", config=job["sel"])
        return
    i1 = {v.name: i for i, v in enumerate(C1.vars)}

    def transfer(X):
        """Raw points -> prepared points, and whether the prepared model can represent them."""
        Y = np.empty((C2.n, X.shape[1]))
        can = np.ones(X.shape[1], bool)
        for n_, i in i1.items():
            Y[name2i[n_]] = X[i]
        for z, names in links.items():
            vals = np.array([X[i1[n_]] for n_ in names])
            Y[z] = vals[0]
            can &= np.ptp(vals, axis=0) <= 1e-9 * np.maximum(1.0, np.abs(vals).max(axis=0))
        for i, v in enumerate(C2.vars):
            if v.fixed:
                if v.name not in und:
                    can &= np.abs(Y[i] - v.value) <= 1e-6 * max(1.0, abs(v.value))
                    out.tag("fixed beforehand")
                Y[i] = v.value
        return Y, can

    skip2 = {name2i[n_] for n_ in und}

    def verdict(C, X, skip, can):
        """(+1 admitted, -1 rejected, 0 too close) per point."""
        p = fw.Result(C, _P(skip), X, np.ones(X.shape[1], bool))
        bad, _ = p.eq_violation()
        _, mg = p.ineq_margin()
        worst = np.where(np.isnan(mg), -np.inf, mg).min(axis=0) if len(mg) else np.full(X.shape[1], np.inf)
        eq = ~bad.any(axis=0) & can
        v = np.where(eq & (worst >= -TIE), 1, -1)
        v[eq & (np.abs(worst) < 10 * TIE) & (worst < 0)] = 0
        return v

    ok = r1.ok
    X1 = r1.X[:, ok]
    which = np.nonzero(ok)[0]
    if not len(which):
        if job.get("bare"):            # extreme numbers on a coarse grid may leave the equations without a solution
            out.tag("extreme value without evaluable policy")
            return
        out.violation("no policy can be evaluated", str(job["sel"]), config=job["sel"])
        return
    Y, can = transfer(X1)
    v1 = verdict(C1, X1, set(r1.plan.undetermined), np.ones(X1.shape[1], bool))
    v2 = verdict(C2, Y, skip2, can)
    out.tag("admitted by both", ((v1 == 1) & (v2 == 1)).sum())
    out.tag("rejected by both", ((v1 == -1) & (v2 == -1)).sum())
    d = np.nonzero((v1 * v2) == -1)[0]
    if len(d):
        b = int(d[0])
        out.violation("admissibility changes", f"the prepared problem {'rejects' if v1[b] > 0 else 'admits'} a policy which the model equations and limits "
                      f"{'admit' if v1[b] > 0 else 'reject'} ({len(d)} of {len(v1)} policies)", path=ex.path_repr(r1, int(which[b])), config=job["sel"],
                      raw=r1.violated(int(which[b])))
    if len(C2.objs) != 1 or C2.objs[0]["sense"] != C1.objs[0]["sense"]:
        out.violation("objective changes", "number or direction of objectives differs", config=job["sel"])
    else:
        with np.errstate(all="ignore"):
            o1 = np.broadcast_to(C1.objs[0]["f"](X1), (X1.shape[1],))
            o2 = np.broadcast_to(C2.objs[0]["f"](Y), (X1.shape[1],))
        if not np.allclose(o1[can], o2[can], rtol=1e-9, atol=1e-12):
            out.violation("objective changes", "the prepared objective has another value", config=job["sel"])
    # every single-variable deviation from admissible policies
    adm = np.nonzero(v1 == 1)[0]
    bases = [int(adm[0]), int(adm[-1])] if len(adm) else []
    for b in dict.fromkeys(bases):
        out.tag("admissible bases")
        idx = [i for i in range(C1.n) if i not in set(r1.plan.undetermined)]
        for sign in (1, -1):
            D = np.repeat(X1[:, [b]], len(idx), axis=1)
            D[idx, range(len(idx))] += sign * np.maximum(0.02, 0.02 * np.abs(X1[idx, b]))
            Yd, cd = transfer(D)
            w1 = verdict(C1, D, set(r1.plan.undetermined), np.ones(len(idx), bool))
            w2 = verdict(C2, Yd, skip2, cd)
            out.states += len(idx)
            out.transitions += len(idx)
            out.tag("deviation rejected by both", ((w1 == -1) & (w2 == -1)).sum())
            out.tag("deviation admitted by both", ((w1 == 1) & (w2 == 1)).sum())
            e = np.nonzero((w1 * w2) == -1)[0]
            if len(e):
                i = idx[int(e[0])]
                out.violation("admissibility changes", f"changing only {C1.vars[i].name} is {'rejected' if w1[e[0]] > 0 else 'admitted'} by the prepared problem but "
                              f"not by the model equations", config=job["sel"])
                break
    # reported results after a solve (and after another one)
    sols = list(dict.fromkeys(bases)) or [0]
    if len(sols) == 1:
        sols = sols + [(sols[0] + 1) % X1.shape[1]]
    names = [C1.vars[i].name for i in range(C1.n)]
    with solverstub.Local() as s:
        plans = []
        for b in sols:
            vals = {n_: float(X1[i, b]) for i, n_ in enumerate(names) if np.isfinite(X1[i, b])}
            vals.update({C2.vars[z].name: float(Y[z, b]) for z in links})
            plans.append({"do": "ok", "values": vals})
        s.plan(plans)
        for k, b in enumerate(sols):
            if not can[b]:
                break
            try:
                with impl.quiet():
                    mo.solve(verbose=False)
            except Exception as exc:
                out.violation("solve fails", f"a successful solver answer is not accepted: {type(exc).__name__}: {exc}"[:300], config=job["sel"])
                return
            m = mo.concrete_model
            for v in m.component_data_objects(pyo.Var):
                i = i1.get(v.name)
                if i is None or v.name in und or i not in used:
                    continue
                want = X1[i, b]
                if v.value is None or not abs(v.value - want) <= 1e-7 * max(1.0, abs(want)):
                    out.violation("result not restored", f"after solve {k + 1} {v.name} reads {v.value}, the solution implies {want:.9g}"
                                  f"{' (fixed beforehand)' if v.fixed else ''}", config=job["sel"])
                    return
            out.tag("restored solutions" if k == 0 else "second solutions")
            out.cases += 1
            out.validated += 1
    out.sample(config=[str(x) for x in job["sel"][:6]], regions=job["regions"][:3], policies=int(ok.sum()), admitted=int((v1 == 1).sum()),
               fixed=sum(v.fixed for v in C2.vars), linked=len(links))


class _P:
    def __init__(self, skip):
        self.undetermined = skip


def linked(m, C):
    info = getattr(m, "_var_aggregator_info", None)
    if info is None:
        return {}
    idx = {id(v): i for i, v in enumerate(C.vars)}
    return {idx[id(z)]: [v.name for v in info.z_to_vars[z]] for z in info.z.values() if id(z) in idx}
