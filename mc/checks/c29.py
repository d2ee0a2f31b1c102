"""C29: the solver starts where every equation can be evaluated."""
import itertools
import os

import numpy as np
import pyomo.environ as pyo

from mc import explore as ex, impl, nl, rules, solverstub
from mc.checks.c21 import sim
from mc.checks.c24 import BASES, COVER, FLAGS, M, MODULES, REGS, all_regions, choices, leaf_values, valid
from mc.checks.c25 import linked

PROPERTY = "C29"
BOUNDS = {
    "quick": "all module/regime combinations x 2 rows of the pairwise flag cover, one, two, three and 26 regions, every choice and every boundary, extreme and off value of every setting "
             "x 2 module selections, horizons and steps, simulation runs pinned at the least, middle and full abatement; the problem file of the first solve and of a solve "
             "after an accepted answer (least, rotating and full abatement)",
    "thorough": "as quick with all 8 rows, 3 selections, and every pair of choices of two settings",
}
ASSUMPTIONS = ["an interior point solver begins at the start written to the problem file, moved into the limits by ipopt's documented rule (bound_push = bound_frac = 0.01)",
               "a row can be evaluated when each of its operations has a finite value and finite first and second derivatives there"]
REQUIRED_TAGS = ["first starts", "restarts", "regions 1", "regions 2", "regions 3", "regions 26", "simulation", "setting values", "rows", "rows confirmed by an answer"]
GRIDS = [(2020, 2100, 20), (2015, 2110, 15), (2040, 2200, 20), (2020, 2030, 2.5)]
PATHS = {"kind": "switch", "k": 0, "alphabet": [0.0, 0.3, 1.0], "joint": "rotate", "import_export_mitigation_cost_balance": [0.0, 0.01],
         "import_export_mitigation_cost_balance_joint": "same", "financial_transfer": [0.0, -0.01], "financial_transfer_joint": "same",
         "effort_sharing_common_level": [0.0, 0.02]}


def jobs(tier):
    J, n = [], 0
    deep = tier == "thorough"
    group = []
    for combo in itertools.product(*[v for _, v in MODULES]):
        sel = [(p, v) for (p, _), v in zip(MODULES, combo)]
        if not valid(sel):
            continue
        n += 1
        for k in range(8) if deep else (n % 8, (n + 3) % 8):
            flags = [(p, v[b]) for (p, v), b in zip(FLAGS, COVER[k])]
            group.append({"sel": pack(sel + flags), "regions": REGS[(n + k) % 3], "time": list(GRIDS[(n + k) % 4 if n % 5 == 0 else (n + k) % 3]), "again": k % 2 == n % 2})
    vals = leaf_values()
    for b in range(3 if deep else 2):
        for i, (p, v) in enumerate(vals):
            if p[0] == "time":
                continue
            sel = [x for x in BASES[b] if x[0] != p] + [(p, v)]
            if not valid(sel):
                sel = [x for x in sel if x[0] != ("effort sharing", "regime") or x[0] == p]
                sel = sel if valid(sel) else sel + [(M("emissiontrade"), "emissiontrade")]
            group.append({"sel": pack(sel), "regions": REGS[i % 3], "time": list(GRIDS[i % 2]), "again": False, "value": True})
    for b, base in enumerate(BASES):
        J.append({"cases": [{"sel": pack(base), "regions": all_regions(), "time": list(GRIDS[b]), "again": True}], "cost": 30})
        for a in (0.0, 0.4, 1.0):
            for k, g in enumerate(GRIDS):
                for off in ([], rules.OFF_LIMITS):
                    group.append({"sel": pack(base + off), "regions": REGS[k % 3], "time": list(g), "again": False, "pin": a})
    if deep:
        ch = choices()
        for x, y in itertools.combinations(ch, 2):
            if x[0] != y[0] and valid([x, y]) and not ({x[0], y[0]} & {("time", "start")}):
                group.append({"sel": pack([x, y]), "regions": REGS[0], "time": list(GRIDS[0]), "again": False, "value": True})
    size = 12
    J += [{"cases": group[k:k + size], "cost": size} for k in range(0, len(group), size)]
    return J


def pack(sel):
    return [[list(p), v] for p, v in sel]


def run_job(job, out):
    for case in job["cases"]:
        judge(case, out)


def judge(case, out):
    sel = [(tuple(p), v) for p, v in case["sel"]]
    if "pin" in case:
        s, e, dt = case["time"]
        years = [s + dt * k for k in range(int(np.ceil((e - s) / dt)) + 1)]
        # the first year is not a choice
        table = {y: {r: (0.0 if i == 0 else case["pin"]) for r in case["regions"]} for i, y in enumerate(years)}
        sel = sel + sim({"relative_abatement": table})
    sp = ex.spec(case["regions"], case["time"], sel, PATHS)
    try:
        _, mo, m = ex.build(sp, raw=False)
    except Exception:
        out.tag("not built")       # judged by C24
        return
    out.cases += 1
    out.tag(f"regions {len(case['regions'])}")
    out.tag("simulation" if "pin" in case else "setting values" if case.get("value") else "module combinations")
    answers = [None]
    if case["again"]:
        answers += policies(sp, m)
    with solverstub.Local() as s:
        plan = []
        for k in range(len(answers)):
            nxt = answers[k + 1] if k + 1 < len(answers) else None
            plan.append({"do": "ok", "values": nxt, "keep": f"{k}.nl"} if nxt else {"do": "crash", "keep": f"{k}.nl"})
        s.plan(plan)
        for k in range(len(answers)):
            exc = None
            try:
                with impl.quiet():
                    mo.solve(verbose=False)
            except Exception as e:
                exc = e
            path = os.path.join(s.dir, f"{k}.nl")
            if not os.path.exists(path):
                out.violation("no problem", f"no problem reaches the solver for {case}: {type(exc).__name__}: {exc}"[:400], case=case)
                return
            P = nl.Problem(path)
            x = P.start()
            faults = P.faults(x)
            out.states += 1
            out.transitions += P.ncon + P.nobj
            out.tag("rows", P.ncon + P.nobj)
            out.tag("first starts" if k == 0 else "restarts")
            if k and not faults:
                # conformance of the evaluation: an accepted answer solves the equations of the file it is written back to
                good, bad = P.confirmed(P.x0)
                out.tag("rows confirmed by an answer", good)
                out.tag("rows not confirmed", bad)
                out.validated += good
            if faults:
                with open(path + ".row") as fh:
                    rows = [l.strip() for l in fh]
                what, i, why = faults[0]
                name = rows[i] if what == "row" else "objective"
                out.violation(f"cannot be evaluated: {name.split('[')[0]}", f"{name}: {why} where solve {k + 1} starts ({len(faults)} rows) in {case}"[:500], case=case)
                return


def policies(sp, m):
    """Accepted answers: what the model equations make of a few policies."""
    _, _, m1 = ex.build(sp)
    C1 = ex.Compiled(m1)
    res = ex.run_paths(C1, PATHS)
    C2 = ex.Compiled(m)
    names = [v.name for v in C1.vars]
    pos = {n: i for i, n in enumerate(names)}
    ok = [b for b in range(res.B) if res.ok[b]]
    found = []
    for b in dict.fromkeys(ok[:1] + ok[len(ok) // 2:len(ok) // 2 + 1] + ok[-1:]):
        vals = {n: float(res.X[i, b]) for n, i in pos.items() if np.isfinite(res.X[i, b])}
        vals.update({C2.vars[z].name: vals[ns[0]] for z, ns in linked(m, C2).items() if ns[0] in vals})
        found.append(vals)
    return found
