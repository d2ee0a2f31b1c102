"""C17: emission trading redistributes abatement cost without creating or losing any."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C17"
BOUNDS = {
    "quick": "abatement levels^regions x cost balances {-0.08,0,0.05} T$ for R-1 regions, all sequences over 2-4 steps incl. trade in the "
             "first year; 3 trade modules x 2 transfer modules x carbon-intensity flag, 1-3 regions",
    "thorough": "as quick with one more step/level, 4 regions, 26 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["controls outside the alphabet are not explored",
               "the soft minimum guarding the divisions (exact to 1e-3 relative near zero) is part of the documented formula"]
REQUIRED_TAGS = ["module notrade", "module emissiontrade", "module globalcostpool", "traded points"]
OWNED = {"global_carbonprice", "paid_for_emission_reductions", "regional_emission_allowances",
         "import_export_emission_reduction_balance", "import_export_mitigation_cost_balance", "mitigation_costs", "area_under_MAC"}
TRADE, FIN = ("model", "emissiontrade module"), ("model", "financialtransfer module")
BAL = "import_export_mitigation_cost_balance"


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    for tr in ("notrade", "emissiontrade", "globalcostpool"):
        for fi in ("notransfer", "globaldamagepool"):
            for ci in (True, False):
                n += 1
                st = [(TRADE, tr), (FIN, fi), (("emissions", "baseline carbon intensity"), ci), (("SSP",), f"SSP{n % 5 + 1}")] + rules.OFF_LIMITS
                J.append(ex.spec(("USA", "INDIA"), ((2020, 2035, 5), (2020, 2050, 10), (2020, 2022, 0.5), (2025, 2046, 7))[n % 4], st,
                                 {"kind": "full", "depth": 3, "alphabet": [0.1, 0.7] + ([1.1] if deep else []), BAL: [-0.08, 0.0, 0.05],
                                  "financial_transfer": [0.0], "joint": "product" if deep else "rotate"}, cost=3))
                J.append(ex.spec(("WEU", "RSAF", "ME"), (2020, 2030, 5), st,
                                 {"kind": "full", "alphabet": [0.2, 0.9], "joint": "rotate", BAL: [-0.06, 0.0, 0.03],
                                  "financial_transfer": [0.0]}, cost=4))
                J.append(ex.spec(("CHN", "BRA"), (2020, 2030, 5), st,
                                 {"kind": "full", "from0": True, "alphabet": [0.0, 0.5], "joint": "rotate", BAL: [-0.06, 0.0, 0.03],
                                  "financial_transfer": [0.0]}, cost=2))
                J.append(ex.spec(("KOR",), (2020, 2035, 5), st, {"kind": "full", "alphabet": [0.0, 0.3, 0.8, 1.2]}))
                # no abatement at all: payments cannot appear from nowhere
                J.append(ex.spec(("USA", "INDIA"), (2020, 2035, 5), st, {"kind": "full", "alphabet": [0.0], BAL: [-0.01, 0.0, 0.02],
                                                                         "financial_transfer": [0.0]}))
    for tr in ("emissiontrade", "globalcostpool"):
        J.append(ex.spec(("USA", "INDIA"), (2020, 2150, 5), [(TRADE, tr)] + rules.OFF_LIMITS,
                         {"kind": "switch", "k": 1, "alphabet": [0.1, 0.7], "joint": "rotate", BAL: [-0.08, 0.0, 0.05]}, cost=5))
        if deep:
            allr = sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]} - {"World"})
            J.append(ex.spec(allr, (2020, 2050, 5), [(TRADE, tr)] + rules.OFF_LIMITS,
                             {"kind": "switch", "k": 1, "alphabet": [0.1, 0.7], "joint": "rotate", BAL: [-0.01, 0.0, 0.01],
                              BAL + "_joint": "same"}, cost=30))
    J += cross.specs(8)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res, 12)
    relations(out, res, c)


def relations(out, res, c):
    g = res.get
    tr = c.p["model"]["emissiontrade module"]
    out.tag("module " + tr)
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    bal, mc, area = g(BAL), g("mitigation_costs"), g("area_under_MAC")
    red, base = g("regional_emission_reduction"), g("baseline")
    cmp("balance is payment minus own abatement cost", bal, mc - area, atol=1e-9)
    cmp("payments of all regions add up to the area under the curves", mc.sum(1), area.sum(1), atol=1e-9)
    cmp("cost balances sum to zero", bal.sum(1), 0 * bal.sum(1), atol=1e-9)
    # the area under the curves itself (so that cost is not lost with it)
    price = g("carbonprice")
    a, beta = g("relative_abatement"), float(c.p["economics"]["MAC"]["beta"])
    s = 1 if c.sp["paths"].get("from0") else 0         # the first year's price is zero by definition, whatever the abatement in it
    cmp("abatement cost is the area under the price curve", area[s:], (price * a / (beta + 1) * base)[s:], atol=1e-9)
    out.tag("traded points", (np.abs(bal) > 1e-6).sum())
    pop = c.base("population")
    if tr == "notrade":
        cmp("no cost balance", bal, 0 * mc)
        cmp("no reduction balance", g("import_export_emission_reduction_balance"), 0 * mc)
        cmp("payment is own area", mc, area)
    elif tr == "emissiontrade":
        w = pop / pop.sum(1, keepdims=True)
        gp = (price * w[:, :, None]).sum(1)
        cmp("global carbon price", g("global_carbonprice"), gp)
        rb = g("import_export_emission_reduction_balance")
        cmp("traded reductions", rb[1:], bal[1:] / ref.soft_min(gp[1:])[:, None, :], atol=1e-8)
        paid = g("paid_for_emission_reductions")
        cmp("paid-for reductions", paid[1:], red[1:] + rb[1:], atol=1e-9)
        cmp("allowances", g("regional_emission_allowances")[1:], base[1:] - paid[1:], atol=1e-9)
    else:
        paid, rb = g("paid_for_emission_reductions"), g("import_export_emission_reduction_balance")
        cmp("reductions attributed to payment", paid[1:], mc[1:] * (red[1:].sum(1) / ref.soft_min(mc[1:].sum(1)))[:, None, :], atol=1e-8)
        cmp("reduction balance", rb[1:], paid[1:] - red[1:], atol=1e-8)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=1)
    b = res.B // 2
    out.sample(module=tr, regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, b), costs_last=mc[-1, :, b].tolist())
