"""C11: carbon budget, net-zero rule and temperature target admit only compliant paths."""
import numpy as np
from mc import cross, explore as ex, rules

PROPERTY = "C11"
BOUNDS = {
    "quick": "all abatement sequences over {0,0.5,0.9,1.05}^(1 region) / {0,0.6,1.1} rotated (2 regions) for 4-7 steps around 2100; "
             "budgets and targets at 3-4 levels between reached values; grids hitting, straddling and exceeding 2100",
    "thorough": "as quick with finer alphabets, 7 levels and more grids",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["paths closer than 1e-4 (internal units) to a limit are not judged",
               "controls outside the alphabet are not explored"]
REQUIRED_TAGS = ["admitted_paths", "rejected_paths", "rejected only by carbon budget", "rejected only by net zero after 2100",
                 "rejected only by temperature target", "rejected only by cumulative emissions not negative"]
BUD, NZ, TG = ("emissions", "carbonbudget"), ("emissions", "not positive after budget year"), ("temperature", "target")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    grids = [(2080, 2110, 5), (2083, 2115, 7), (2060, 2120, 20), (2095, 2098, 0.5), (2070, 2100, 10), (2100, 2120, 5),
             (2020, 2140, 20), (2075, 2095, 5), (2085, 2107, 4)]
    if deep:
        grids += [(2097, 2103, 1), (2050, 2150, 20), (2065, 2112, 9), (2090, 2110, 2.5)]
    for i, g in enumerate(grids):
        n = int(np.ceil((g[1] - g[0]) / g[2]))
        for regs in (("WEU",), ("CHN", "BRA")):
            if len(regs) == 1:
                al = [0.0, 0.5, 0.9, 1.05] if n <= 6 else [0.0, 0.6, 1.05]
                ps = {"kind": "full", "alphabet": al}
            else:
                ps = {"kind": "full", "alphabet": [0.0, 0.6, 1.3], "joint": "rotate"}
            if n > 7:
                ps = dict(ps, kind="switch", k=2)
            J.append(ex.spec(regs, g, rules.OFF_LIMITS + [
                (("SSP",), f"SSP{i % 5 + 1}"), (("emissions", "baseline carbon intensity"), bool(i % 2)),
                (("emissions", "cumulative_emissions_trapz"), bool(i % 3))], ps, levels=7 if deep else 3, cost=4 ** min(n, 6)))
    J += cross.specs(2)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C0 = ex.Compiled(m)
    c0 = ex.Ctx(p, sp)
    r0 = ex.run_paths(C0, sp["paths"])
    ex.account(out, r0, 10)
    rules.judge(out, r0, c0, ex)
    if sp.get("cross"):
        return
    late = c0.years >= 2100
    cum, temp = r0.get("cumulative_emissions"), r0.get("temperature")
    base = [(tuple(k), v) for k, v in sp["set"]]
    variants = []
    k = sp["levels"]
    if late.any():
        for b in rules.thresholds(cum[late][-1], k, lo=0.0) + rules.thresholds(cum[late].max(axis=0), 1, lo=0.0):
            variants += [[(BUD, f"{b:.9f} GtCO2")]]
        bmid = rules.thresholds(cum[late][-1], 3, lo=0.0)
        if bmid:
            variants += [[(BUD, f"{bmid[-1] * 2 + 100:.6f} GtCO2"), (NZ, True)], [(BUD, f"{bmid[1 % len(bmid)] / 1000:.12f} TtCO2"), (NZ, True)]]
            variants += [[(BUD, "0 GtCO2")], [(TG, "0 delta_degC")]]
        for T in rules.thresholds(temp[late].max(axis=0), k):
            variants += [[(TG, f"{T:.9f} delta_degC")]]
        variants += [[(TG, f"{t:.9f} kelvin"), (BUD, f"{b:.6f} GtCO2"), (NZ, True)]
                     for t, b in zip(rules.thresholds(temp[late].max(axis=0), 2), rules.thresholds(cum[late][-1], 2, lo=0.0))]
    else:
        variants += [[(BUD, "0.001 GtCO2"), (NZ, True)], [(TG, "0.5 delta_degC")]]
    variants += [[(NZ, True)]]
    for v in variants:
        s = dict(sp, set=[[list(a), b] for a, b in base + v])
        p1, _, m1 = ex.build(s)
        C1 = ex.Compiled(m1)
        c1 = ex.Ctx(p1, s)
        r1 = ex.run_paths(C1, sp["paths"])
        ex.account(out, r1, 4)
        rules.judge(out, r1, c1, ex)
        rules.same_dynamics(out, r0, r1, v)
    out.sample(time=sp["time"], regions=sp["regions"], variants=len(variants), last_variant=[[list(a), b] for a, b in variants[-2:][0]])
