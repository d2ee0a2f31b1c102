"""C13: abatement costs follow the marginal abatement cost curve and learning."""
import numpy as np
from mc import cross, explore as ex, impl, ref, rules

PROPERTY = "C13"
BOUNDS = {
    "quick": "abatement {0,0.3,0.8,1.2}^regions x trade {-0.05,0,0.08} T$ for 3-5 steps; beta, gamma, LBD, LOT, 8 scaling columns, "
             "cost floors, 3 trade modules, 1-3 regions",
    "thorough": "as quick, all 30 scaling columns, deeper sequences, 26 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["soft minimum of the implementation (exact to 1e-3 relative near zero) is part of the documented formula"]
REQUIRED_TAGS = ["admitted_paths", "rejected only by relative cost floor"]
OWNED = {"carbonprice", "mitigation_costs", "area_under_MAC", "rel_mitigation_costs", "global_rel_mitigation_costs",
         "global_emission_reduction_per_cost_unit", "global_cost_per_emission_reduction_unit", "LBD_factor", "LOT_factor",
         "learning_factor"}
M = ("economics", "MAC")
TRADE = ("model", "emissiontrade module")


def columns():
    return impl.default_tree()["economics"]["MAC"]["regional calibration factor"]["values"]


def jobs(tier):
    J = []
    deep = tier == "thorough"
    cols = columns()
    pars = []
    for beta in (0.5, 1, 2, 3, 4.5):
        pars.append([(M + ("beta",), beta)])
    for lbd, sc in ((0.65, "40 GtCO2"), (1, "40 GtCO2"), (0.1, "400 GtCO2"), (0.9, "0.02 TtCO2")):
        pars.append([(M + ("LBD_rate",), lbd), (M + ("LBD_scaling",), sc)])
    for lot in (0.01, 0.3):
        pars.append([(M + ("LOT_rate",), lot)])
    for g in ("1000 USD2005/tCO2", "3 trillion USD2005/GtCO2"):
        pars.append([(M + ("gamma",), g)])
    for c in (cols if deep else cols[::4]):
        pars.append([(M + ("regional calibration factor",), c)])
    for i, ps in enumerate(pars):
        J.append(ex.spec((["USA", "INDIA"], ["BRA", "CHN"], ["RUS", "OCE"])[i % 3], ((2020, 2040, 5), (2025, 2055, 10), (2020, 2022, 0.5))[i % 3],
                         ps + rules.OFF_LIMITS, {"kind": "full", "depth": 4 if deep else 3, "alphabet": [0.0, 0.3, 1.2]}))
    for i, t in enumerate(("notrade", "emissiontrade", "globalcostpool")):
        for j, lvl in enumerate((0, -0.004, -2)):
            for ci in (True, False):
                J.append(ex.spec(("USA", "INDIA"), (2020, 2035, 5),
                                 [(TRADE, t), (M + ("rel_mitigation_costs_min_level",), lvl), (M + ("LOT_rate",), 0.02),
                                  (("emissions", "baseline carbon intensity"), ci)] + rules.OFF_LIMITS,
                                 {"kind": "full", "alphabet": [0.0, 0.8] if t != "notrade" else [0.0, 0.3, 0.8],
                                  "import_export_mitigation_cost_balance": [-0.08, 0.0, 0.03]}, cost=5))
        J.append(ex.spec(("WEU", "SEAS", "ME"), (2020, 2035, 5), [(TRADE, t), (M + ("rel_mitigation_costs_min_level",), -0.5)] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.2, 0.9], "joint": "diagonal", "import_export_mitigation_cost_balance": [-0.06, 0.06]}, cost=8))
        J.append(ex.spec(("KOR",), (2020, 2035, 5), [(TRADE, t)] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.0, 0.2, 0.9, 1.2, 1.7]}))
        # trade already in the first year: only the cost floor may object
        J.append(ex.spec(("USA", "INDIA"), (2020, 2030, 5), [(TRADE, t), (M + ("rel_mitigation_costs_min_level",), -1)] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.0] if t != "notrade" else [0.0], "from0": True,
                          "import_export_mitigation_cost_balance": [-0.08, 0.0, 0.03]}))
    J.append(ex.spec(("USA", "INDIA"), (2020, 2150, 5), rules.OFF_LIMITS, {"kind": "switch", "k": 2, "alphabet": [0.0, 0.5, 1.1], "joint": "rotate"}, cost=8))
    if deep:
        allr = sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]})
        for t in ("notrade", "globalcostpool", "emissiontrade"):
            J.append(ex.spec(allr, (2020, 2050, 5), [(TRADE, t)], {"kind": "switch", "k": 1, "alphabet": [0.0, 0.5, 1.1], "joint": "rotate"}, cost=30))
    J += cross.specs(4)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res)
    relations(out, res, c)
    if len(c.regions) <= 3:
        rules.judge(out, res, c, ex)


def relations(out, res, c):
    g = res.get
    mac = c.p["economics"]["MAC"]
    a, base = g("relative_abatement"), g("baseline")
    beta = float(mac["beta"])
    gamma = ref.q(mac["gamma"], "price")
    k = np.array([ex.TABLES.regional("inputdata/regionalparams/mac.csv", mac["regional calibration factor"], r) for r in c.regions])
    cum = g("cumulative_emissions")
    be = c.base("emissions").sum(1)
    cb = np.concatenate([[0.0], np.cumsum(c.dt * (be[1:] + be[:-1]) / 2)])
    lbd = ref.soft_min((cb[:, None] - cum) / ref.q(mac["LBD_scaling"], "emissions") + 1) ** np.log2(float(mac["LBD_rate"]))
    lot = 1 / (1 + float(mac["LOT_rate"])) ** np.arange(c.T)[:, None]
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    cmp("learning by doing factor", g("LBD_factor"), lbd)
    cmp("learning over time factor", g("LOT_factor"), lot + 0 * lbd)
    cmp("learning factor", g("learning_factor"), lbd * lot)
    lf = (lbd * lot)[:, None, :] * k[None, :, None]
    price = lf * gamma * a ** beta
    cmp("carbon price", g("carbonprice"), price)
    cmp("carbon price in the first year", g("carbonprice")[0], 0 * price[0])
    area = lf * gamma * a ** (beta + 1) / (beta + 1) * base
    cmp("area under the curve", g("area_under_MAC"), area)
    bal = g("import_export_mitigation_cost_balance")
    mc = g("mitigation_costs")
    cmp("mitigation costs", mc, area + bal, atol=1e-9)
    gg = g("GDP_gross")
    cmp("relative mitigation costs", g("rel_mitigation_costs"), mc / gg, atol=1e-9)
    cmp("global relative mitigation costs", g("global_rel_mitigation_costs"), mc.sum(1) / gg.sum(1), atol=1e-9)
    red = g("regional_emission_reduction").sum(1)[1:]
    tot = mc.sum(1)[1:]
    cmp("global reduction per cost", g("global_emission_reduction_per_cost_unit")[1:], red / ref.soft_min(tot), atol=1e-8)
    cmp("global cost per reduction", g("global_cost_per_emission_reduction_unit")[1:], tot / ref.soft_min(red), atol=1e-8)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=1)
    b = res.B // 2
    out.sample(config=c.sp["set"][:4], regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, b),
               carbonprice_last=g("carbonprice")[-1, :, b].tolist())
