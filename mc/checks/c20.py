"""C20: the objective is the discounted sum of the selected welfare or cost measure."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C20"
BOUNDS = {
    "quick": "abatement {0,0.5,1.1}^regions (x trade x transfers), all sequences over 3-4 steps; 3 welfare x 2 objective modules x elasticity, "
             "inequality aversion and discount rate at and inside their bounds (except the poles at one), 9 grids, ignored damages",
    "thorough": "as quick with the full product of parameters, deeper sequences and 26 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["controls outside the alphabet are not explored",
               "the soft minimum guarding per-capita consumption (exact to 1e-3 relative near zero) is part of the utility function"]
REQUIRED_TAGS = ["welfare welfare_loss_minimising", "welfare cost_minimising", "welfare inequal_aversion_general",
                 "objective utility", "objective globalcosts"]
OWNED = {"utility", "yearly_welfare", "NPV"}
W, O = ("model", "welfare module"), ("model", "objective module")
EL, IA, PR = ("economics", "elasmu"), ("economics", "inequal_aversion"), ("economics", "PRTP")
TRADE, FIN = ("model", "emissiontrade module"), ("model", "financialtransfer module")
IGN = ("economics", "damages", "ignore damages")
GRIDS = [(2020, 2035, 5), (2020, 2022, 0.5), (2015, 2019, 1), (2025, 2055, 10), (2020, 2080, 20), (2030, 2044, 7), (2020, 2027, 2.5), (2010, 2022, 3), (2020, 2060, 10)]
REGS = [["USA", "INDIA"], ["BRA"], ["WEU", "OCE"], ["CHN", "EAF", "JAP"]]


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    for w in ("welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"):
        for o in ("utility", "globalcosts"):
            for el in (1.001, 0.1, 0.999, 2, 10, 1.45):
                for ia in ((0.5, 0.0, 1.2, 3) if w == "inequal_aversion_general" or deep else (0.5,)):
                    for pr in ((0.015, 0.0, 0.2, 0.001) if deep else ((0.015, 0.0, 0.2, 0.001)[n % 4],)):
                        n += 1
                        J.append(ex.spec(REGS[n % 4], GRIDS[n % len(GRIDS)],
                                         [(W, w), (O, o), (EL, el), (IA, ia), (PR, pr), (IGN, bool(n % 2)), (("SSP",), f"SSP{n % 5 + 1}")] + rules.OFF_LIMITS,
                                         {"kind": "full", "depth": 4 if deep else 3, "alphabet": [0.0, 0.5, 1.1], "joint": "rotate" if n % 3 else "product",
                                          **({"joint": "rotate"} if len(REGS[n % 4]) > 2 else {})}))
            for tr, fi in (("emissiontrade", "globaldamagepool"), ("globalcostpool", "notransfer"), ("notrade", "globaldamagepool")):
                n += 1
                J.append(ex.spec(("USA", "INDIA"), (2020, 2050, 10), [(W, w), (O, o), (TRADE, tr), (FIN, fi), (EL, 1.6), (PR, 0.03)] + rules.OFF_LIMITS,
                                 {"kind": "full", "depth": 2, "alphabet": [0.1, 0.7], "joint": "rotate", "import_export_mitigation_cost_balance": [-0.05, 0.0, 0.04],
                                  "financial_transfer": [-0.06, 0.0, 0.03]}, cost=2))
            J.append(ex.spec(("USA", "INDIA"), (2020, 2150, 5), [(W, w), (O, o), (("model", "damage module"), ("nodamage", "COACCH")[n % 2])],
                             {"kind": "switch", "k": 1, "alphabet": [0.0, 0.5, 1.1], "joint": "rotate"}, cost=4))
    if deep:
        allr = sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]} - {"World"})
        for w in ("welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"):
            J.append(ex.spec(allr, (2020, 2050, 10), [(W, w)], {"kind": "switch", "k": 1, "alphabet": [0.0, 0.5, 1.2], "joint": "rotate"}, cost=30))
    J += cross.specs(10)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res, 12)
    relations(out, res, c)


def relations(out, res, c):
    g = res.get
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    e = float(c.p["economics"]["elasmu"])
    ia = float(c.p["economics"]["inequal_aversion"])
    rho = float(c.p["economics"]["PRTP"])
    w, o = c.p["model"]["welfare module"], c.p["model"]["objective module"]
    out.tag("welfare " + w)
    out.tag("objective " + o)
    L = c.base("population")[:, :, None]
    cons = g("consumption")
    util = lambda x, y: (ref.soft_min(x / y) ** (1 - e) - 1) / (1 - e)
    # a power of a small base amplifies the accuracy of the path: 1e-6 relative
    kw = dict(rtol=1e-6, atol=1e-9)
    with np.errstate(all="ignore"):
        if w == "welfare_loss_minimising":
            U = util(cons, L)
            Wy = (L * U).sum(1)
        elif w == "cost_minimising":
            U = cons / L
            Wy = L.sum(1) * util(cons.sum(1), L.sum(1))
        else:
            U = L * ref.soft_min(cons / L) ** (1 - ia)
            Wy = L.sum(1) * ref.soft_min(U.sum(1) / L.sum(1)) ** ((1 - e) / (1 - ia)) / (1 - e)
    cmp("regional utility", g("utility"), U, **kw)
    cmp("yearly welfare", g("yearly_welfare"), Wy, **kw)
    flow = Wy if o == "utility" else g("mitigation_costs").sum(1) + (g("damage_costs") * g("GDP_gross")).sum(1)
    disc = np.exp(-rho * (c.years - c.years[0]))[:, None]
    npv = np.concatenate([0 * flow[:1], np.cumsum(c.dt * disc[1:] * flow[1:], axis=0)])
    cmp("discounted total", g("NPV"), npv, **kw)
    vals, sense = res.objective()
    cmp("objective value", np.asarray(vals)[None], npv[-1:], **kw)
    want = "maximize" if o == "utility" else "minimize"
    if (int(sense) < 0) != (o == "utility"):
        out.violation("objective sense", f"the objective module {o} does not {want}")
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=0)
    b = res.B // 2
    out.sample(config=c.sp["set"][:5], regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, b), npv=npv[-1, b])
