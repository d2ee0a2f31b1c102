"""C16: GDP, investment, consumption and capital balance in every region and year."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C16"
BOUNDS = {
    "quick": "abatement {0,0.5,1.2} x trade balance x transfers, all sequences over 3-4 steps; alpha, savings, depreciation at and "
             "inside their bounds, ignore-damages on/off, 5 scenarios, 10 step lengths, 1-3 regions",
    "thorough": "as quick with one more step, all parameter pairs, 26 regions",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["controls outside the alphabet are not explored",
               "the soft floor on capital (scale 10) is part of the documented production function"]
REQUIRED_TAGS = ["relation_points", "damages matter", "transfers matter"]
OWNED = {"GDP_gross", "GDP_net", "investments", "consumption", "capital_stock"}
G = ("economics", "GDP")
IGN = ("economics", "damages", "ignore damages")
AL, DK, SR = G + ("alpha",), G + ("depreciation of capital",), G + ("savings rate",)
TRADE, FIN = ("model", "emissiontrade module"), ("model", "financialtransfer module")
GRIDS = [(2020, 2035, 5), (2020, 2022, 0.5), (2015, 2019, 1), (2025, 2055, 10), (2020, 2120, 20), (2030, 2044, 7), (2020, 2027, 2.5), (2010, 2022, 3)]


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    for al in (0.3, 0.0, 1.0, 0.6):
        for dk in (0.05, 0.0, 0.2):
            for sr in (0.21, 0.0, 0.4):
                n += 1
                if al == 1.0 and sr == 0.0 and dk == 0.2:
                    pass
                J.append(ex.spec((["USA", "INDIA"], ["BRA"], ["WEU", "OCE"], ["CHN", "TUR"])[n % 4], GRIDS[n % len(GRIDS)],
                                 [(AL, al), (DK, dk), (SR, sr), (IGN, bool(n % 2)), (("SSP",), f"SSP{n % 5 + 1}"),
                                  (("emissions", "baseline carbon intensity"), bool(n % 3))] + rules.OFF_LIMITS,
                                 {"kind": "full", "alphabet": [0.0, 0.5, 1.2], "depth": 4 if deep else 3, "joint": "rotate" if n % 2 else "product"}))
    for i, (tr, fi) in enumerate([(a, b) for a in ("notrade", "emissiontrade", "globalcostpool") for b in ("notransfer", "globaldamagepool")]):
        for ign in (True, False):
            for dm in ("COACCH", "nodamage"):
                J.append(ex.spec(("USA", "INDIA"), (2020, 2080, 20), [(TRADE, tr), (FIN, fi), (IGN, ign), (("model", "damage module"), dm),
                                 (("economics", "damages", "quantile"), 0.95), (("SSP",), f"SSP{i % 5 + 1}")] + rules.OFF_LIMITS,
                                 {"kind": "full", "alphabet": [0.1, 0.8] if deep or tr == "notrade" else [0.6], "import_export_mitigation_cost_balance": [-0.07, 0.0, 0.04],
                                  "financial_transfer": [-0.09, 0.0, 0.05], "depth": 3 if deep else 2, "joint": "diagonal"}, cost=4))
        J.append(ex.spec(("USA", "INDIA", "MEX"), (2020, 2030, 5), [(TRADE, tr), (FIN, fi)] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.3], "import_export_mitigation_cost_balance": [-0.07, 0.04],
                          "financial_transfer": [-0.09, 0.05]}, cost=2))
    J.append(ex.spec(("USA", "INDIA"), (2020, 2150, 5), [(("economics", "damages", "quantile"), 0.95)] + rules.OFF_LIMITS,
                     {"kind": "switch", "k": 2, "alphabet": [0.0, 0.5, 1.2], "joint": "rotate"}, cost=8))
    if deep:
        allr = sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]} - {"World"})
        for ign in (True, False):
            J.append(ex.spec(allr, (2020, 2060, 10), [(IGN, ign)], {"kind": "switch", "k": 1, "alphabet": [0.0, 0.5, 1.2], "joint": "rotate"}, cost=30))
    J += cross.specs(7)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res, 12)
    relations(out, res, c)


def tfp(c):
    """Productivity that makes a cost-free economy investing its baseline
    savings reproduce baseline GDP."""
    e = c.p["economics"]["GDP"]
    al, dk, sr = float(e["alpha"]), float(e["depreciation of capital"]), float(e["savings rate"])
    y, pop = c.base("GDP"), c.base("population")
    f = np.array([ex.TABLES.regional(ref.REGPAR + "economics.csv", "init_capital_factor", r) for r in c.regions])
    K = f * y[0]
    out, Ks = [], [K]
    for s in range(c.T):
        if s:
            K = K + (((1 - dk) ** c.dt - 1) * K + c.dt * sr * y[s - 1])
            Ks.append(K)
        out.append(y[s] / (pop[s] ** (1 - al) * K ** al))
    return np.array(out), f * y[0]


def relations(out, res, c):
    g = res.get
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    e = c.p["economics"]["GDP"]
    al, dk, sr = float(e["alpha"]), float(e["depreciation of capital"]), float(e["savings rate"])
    A, K0 = tfp(c)
    y, pop = c.base("GDP"), c.base("population")
    K, gg, gn, I, Cn = g("capital_stock"), g("GDP_gross"), g("GDP_net"), g("investments"), g("consumption")
    dam, mc, ft = g("damage_costs"), g("mitigation_costs"), g("financial_transfer")
    cmp("initial capital", K[0], K0[:, None] + 0 * K[0])
    cmp("gross GDP in the first year", gg[0], y[0][:, None] + 0 * gg[0])
    if c.T > 1:
        cmp("capital step", K[1:], K[:-1] + ((1 - dk) ** c.dt - 1) * K[1:] + c.dt * I[1:])
        with np.errstate(all="ignore"):
            cmp("gross GDP", gg[1:], A[1:, :, None] * pop[1:, :, None] ** (1 - al) * ref.soft_min(K[1:], 10) ** al, rtol=1e-6)
    ign = c.p["economics"]["damages"]["ignore damages"]
    if not ign and c.p["model"]["damage module"] != "nodamage":
        out.tag("damages matter")
    if np.abs(ft).max() > 0:
        out.tag("transfers matter")
    cmp("net GDP", gn, gg * (1 - (0 if ign else dam)) - mc - ft)
    cmp("investment", I, sr * gn)
    cmp("consumption", Cn, (1 - sr) * gn)
    cmp("net GDP split", I + Cn, gn)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=0)
    b = res.B // 2
    out.sample(config=c.sp["set"][:5], regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, b), GDP_net_last=gn[-1, :, b].tolist())
