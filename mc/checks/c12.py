"""C12: inertia, emission floors and post-2100 limits admit exactly compliant paths."""
import numpy as np
from mc import cross, explore as ex, rules

PROPERTY = "C12"
BOUNDS = {
    "quick": "all abatement sequences over 3-4 levels for 4-6 steps (1-2 regions); every limit off / at 3 levels between reached "
             "values; all limits at once; grids before, across and after 2100",
    "thorough": "as quick with 7 levels per limit, more grids and 3 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["paths closer than 1e-4 (internal units) to a limit are not judged",
               "controls outside the alphabet are not explored"]
REQUIRED_TAGS = ["admitted_paths", "rejected_paths", "rejected only by regional inertia", "rejected only by global inertia",
                 "rejected only by regional min level", "rejected only by global min level",
                 "rejected only by non-increasing after 2100"]
E = "emissions"
IR, IG = (E, "inertia", "regional"), (E, "inertia", "global")
RM, GM, NI = (E, "regional min level"), (E, "global min level"), (E, "non increasing emissions after 2100")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    grids = [(2020, 2045, 5), (2020, 2023, 0.5), (2020, 2060, 10), (2090, 2120, 5), (2083, 2125, 7), (2100, 2150, 10),
             (2098, 2103, 1), (2095, 2115, 5)]
    if deep:
        grids += [(2020, 2120, 20), (2099, 2102, 0.5), (2022, 2040, 3)]
    for i, g in enumerate(grids):
        n = int(np.ceil((g[1] - g[0]) / g[2]))
        for regs in (("RUS",), ("USA", "INDIA")) + ((("JAP", "ME", "WEU"),) if deep else ()):
            if len(regs) == 1:
                ps = {"kind": "full", "alphabet": [0.0, 0.25, 0.8, 1.2]}
            else:
                ps = {"kind": "full", "alphabet": [0.0, 0.3, 1.25], "joint": "rotate" if len(regs) == 2 else "diagonal"}
                if len(regs) == 2 and n <= 4:
                    ps["joint"] = "product"
            if n > 6:
                ps = dict(ps, kind="switch", k=2)
            J.append(ex.spec(regs, g, rules.OFF_LIMITS + [
                (("SSP",), f"SSP{i % 5 + 1}"), (("emissions", "baseline carbon intensity"), bool((i + 1) % 2))],
                ps, levels=6 if deep else 3, cost=4 ** min(n, 6)))
    J += cross.specs(3)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C0 = ex.Compiled(m)
    c0 = ex.Ctx(p, sp)
    r0 = ex.run_paths(C0, sp["paths"])
    ex.account(out, r0, 10)
    rules.judge(out, r0, c0, ex)
    if sp.get("cross"):
        return
    e, Eg = r0.get("regional_emissions"), r0.get("global_emissions")
    be0 = c0.base("emissions")[0]
    k = sp["levels"]
    B = r0.B
    dr = ((e[1:] - e[:-1]) / be0[None, :, None] / c0.dt).reshape(-1, B).min(axis=0)
    dg = ((Eg[1:] - Eg[:-1]) / be0.sum() / c0.dt).reshape(-1, B).min(axis=0)
    variants = []
    for v in [x for x in rules.thresholds(dr, k) if x <= 0]:
        variants.append([(IR, v)])
    for v in [x for x in rules.thresholds(dg, k) if x <= 0]:
        variants.append([(IG, v)])
    for v in rules.thresholds(e.reshape(-1, B).min(axis=0), k):
        variants.append([(RM, f"{v:.9f} GtCO2/yr")])
    for v in rules.thresholds(Eg.min(axis=0), k):
        variants.append([(GM, f"{v * 1000:.6f} MtCO2/yr")])
    variants.append([(NI, True)])
    variants += [[(RM, "0 GtCO2/yr"), (NI, True)], [(GM, "0 GtCO2/yr")], [(GM, "0 MtCO2/yr"), (IG, -0.2)]]
    variants.append('defaults')
    both = (rules.thresholds(dr, 3), rules.thresholds(dg, 3), rules.thresholds(e.reshape(-1, B).min(axis=0), 3),
            rules.thresholds(Eg.min(axis=0), 3))
    if all(len(b) == 3 for b in both):
        variants.append([(IR, min(0, both[0][0])), (IG, min(0, both[1][0])), (RM, f"{both[2][0]:.9f} GtCO2/yr"),
                         (GM, f"{both[3][0]:.9f} GtCO2/yr"), (NI, True)])
    for v in variants:
        s = dict(sp, set=sp["set"] + [[list(a), b] for a, b in v]) if v != "defaults" else \
            dict(sp, set=[x for x in sp["set"] if x[0][0] == "SSP" or x[0][-1] == "baseline carbon intensity"])
        p1, _, m1 = ex.build(s)
        C1 = ex.Compiled(m1)
        c1 = ex.Ctx(p1, s)
        r1 = ex.run_paths(C1, sp["paths"])
        ex.account(out, r1, 4)
        rules.judge(out, r1, c1, ex)
        rules.same_dynamics(out, r0, r1, v)
    out.sample(time=sp["time"], regions=sp["regions"], variants=[[[list(a), b] for a, b in v] for v in variants[:2]])
