"""C15: damages follow the selected damage functions and vanish in the first year."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C15"
BOUNDS = {
    "quick": "abatement {0,0.7,1.3} rotated/joint, 4-6 steps; 11 quantiles x adaptation x combined x scale x ignore flag, all 26 regions "
             "in groups of 2-3, initial temperature 0.3-2.5 C, nodamage module",
    "thorough": "as quick with every region group for every quantile and horizons to 2200",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["controls outside the alphabet are not explored",
               "the overflow guard of the logistic exponent is part of the function"]
REQUIRED_TAGS = ["form Linear", "form Quadratic", "form Logistic", "combined", "nodamage", "damage nonzero"]
OWNED = {"damage_costs", "damage_costs_non_slr", "damage_costs_slr", "mortality_oldest", "mortality_older", "mortality_young",
         "mortality_cost_oldest", "damage_costs_absolute", "damage_relative_global"}
D = ("economics", "damages")
QS = [0.025, 0.05, 0.16, 0.25, 0.33, 0.5, 0.67, 0.75, 0.84, 0.95, 0.975]


def all_regions():
    return sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]} - {"World"})


def jobs(tier):
    J = []
    deep = tier == "thorough"
    R = all_regions()
    groups = [R[i:i + 3] for i in range(0, len(R), 3)]
    n = 0
    for q in QS:
        for adapt in (True, False):
            for comb in (True, False):
                n += 1
                for gi in (range(len(groups)) if deep else (n % len(groups), (n * 5 + 3) % len(groups))):
                    J.append(ex.spec(groups[gi], ((2020, 2050, 10), (2020, 2140, 20), (2015, 2035, 5), (2020, 2022, 0.5))[(n + gi) % 4],
                                     [(D + ("quantile",), q), (D + ("coacch_slr_withadapt",), adapt), (D + ("coacch_combined_slr_nonslr_damages",), comb),
                                      (D + ("scale factor",), (1, 0.5, 1.7, 0)[n % 4 if n % 8 else 3]),
                                      (D + ("ignore damages",), bool(n % 3 == 0)),
                                      (("SSP",), f"SSP{n % 5 + 1}")] + rules.OFF_LIMITS,
                                     {"kind": "full", "depth": 5 if deep else 4, "alphabet": [0.0, 0.7, 1.3], "joint": "rotate"}))
    for i, (ti, g) in enumerate((("0.3 delta_degC", (2020, 2100, 20)), ("2.5 kelvin", (2020, 2060, 10)), ("0.6 delta_degC", (2020, 2200, 20)),
                                 ("0 delta_degC", (2015, 2195, 20)))):
        for gi, gr in enumerate(groups):
            if not deep and (gi + i) % 3:
                continue
            J.append(ex.spec(gr, g, [(("temperature", "initial"), ti), (("temperature", "TCRE"), "0.00095 delta_degC/GtCO2"),
                                     (D + ("quantile",), QS[(gi * 3 + i) % 11]), (D + ("coacch_slr_withadapt",), bool(gi % 2))] + rules.OFF_LIMITS,
                             {"kind": "full", "depth": 4, "alphabet": [0.0, 0.7, 1.3], "joint": "rotate"}))
    for adapt in (True, False):
        J.append(ex.spec(["USA", "INDIA"], (2020, 2100, 20), [(D + ("coacch_slr_withadapt",), adapt)] + rules.OFF_LIMITS,
                         {"kind": "full", "alphabet": [0.0, 0.7, 1.3]}))
        for comb in (True, False):
            J.append(ex.spec(["USA", "RSAF"], (2020, 2060, 10), [(("model", "damage module"), "nodamage"), (D + ("coacch_combined_slr_nonslr_damages",), comb),
                             (D + ("coacch_slr_withadapt",), adapt)] + rules.OFF_LIMITS,
                             {"kind": "full", "alphabet": [0.0, 0.7, 1.3], "joint": "rotate"}))
    if deep:
        J.append(ex.spec(R, (2020, 2060, 10), [], {"kind": "switch", "k": 1, "alphabet": [0.0, 0.7, 1.3], "joint": "rotate"}, cost=30))
    J += cross.specs(6)
    return J


def form(name, a, b1, b2, b3, x):
    if "Linear" in name:
        return a * b1 * x / 100
    if "Quadratic" in name:
        return a * (b1 * x + b2 * x * x) / 100
    if "Logistic" in name:
        e = ref.soft_max(-b3 * x, 10, scale=0.1)
        return a * (b1 / (1 + b2 * np.exp(e)) - b1 / (1 + b2)) / 100
    raise AssertionError(name)


def coacch(col, r):
    return ex.TABLES.regional(ref.REGPAR + "COACCH.csv", col, r, ref.COACCH_MAP)


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res, 12)
    relations(out, res, c)


def relations(out, res, c, cat=None):
    g = res.get
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    d = c.p["economics"]["damages"]
    dam = g("damage_costs")
    if c.p["model"]["damage module"] == "nodamage":
        cmp("damages without damage module", dam, 0 * dam)
        out.tag("nodamage")
        ex.consistent(out, res, OWNED)
        return
    temp, slr = g("temperature"), g("total_SLR")
    T0 = ref.q(c.p["temperature"]["initial"], "temperature")
    q = d["quantile"]
    ad = "Ad" if d["coacch_slr_withadapt"] else "NoAd"
    scale = float(d["scale factor"])
    non, sl = [], []
    for r in c.regions:
        x, x0 = temp - 0.6, T0 - 0.6
        if d["coacch_combined_slr_nonslr_damages"]:
            b1, b2 = (coacch(f"{k}_{ad}-q{q}", r) for k in ("combined_b1", "combined_b2"))
            f = lambda y: form("Quadratic", 1.0, b1, b2, None, y)
            non.append(f(x) - f(x0))
            sl.append(0 * slr)
            out.tag("combined")
        else:
            nm = coacch("NoSLR_form", r)
            cs = [coacch(f"NoSLR_{k}", r) for k in (f"a (q={q})", "b1", "b2", "b3")]
            non.append(form(nm, *cs, x) - form(nm, *cs, x0))
            ns = coacch(f"SLR-{ad}_form", r)
            cs = [coacch(f"SLR-{ad}_{k}", r) for k in (f"a (q={q})", "b1", "b2", "b3")]
            sl.append(form(ns, *cs, slr) - form(ns, *cs, slr[0]))
            for k in ("Linear", "Quadratic", "Logistic"):
                out.tag("form " + k, (k in nm) + (k in ns))
    non = scale * np.array(non).transpose(1, 0, 2)
    sl = scale * np.array(sl).transpose(1, 0, 2)
    cmp("temperature-dependent damages", g("damage_costs_non_slr"), non, rtol=1e-6, atol=1e-8)
    if d["coacch_combined_slr_nonslr_damages"] and not res.has("damage_costs_slr"):
        pass
    else:
        cmp("sea-level rise damages", g("damage_costs_slr"), sl, rtol=1e-6, atol=1e-8)
    cmp("total damages", dam, non + sl, rtol=1e-6, atol=1e-8)
    cmp("damages in the first year", dam[0], 0 * dam[0], atol=1e-12)
    out.tag("damage nonzero", (np.abs(dam[-1]) > 1e-6).sum())
    mort = ex.TABLES.table(ref.REGPAR + "mortality.csv")
    pop = c.base("population")
    for k in ("oldest", "older", "young"):
        cf = np.array([[mort[r][f"{k}_{x}"] for r in c.regions] for x in "abc"])
        ref_m = cf[0][None, :, None] + cf[1][None, :, None] * temp[:, None, :] + cf[2][None, :, None] * temp[:, None, :] ** 2
        cmp("heat mortality " + k, g("mortality_" + k), ref_m)
        if k == "oldest":
            cmp("heat mortality cost", g("mortality_cost_oldest"), ref_m * pop[:, :, None] * 1e4 * 1.3)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=0)
    b = res.B // 2
    out.sample(config=c.sp["set"][:4], regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, b), damages_last=dam[-1, :, b].tolist())
