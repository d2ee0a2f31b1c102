"""C10: emissions, cumulative emissions and temperature account for each other."""
import numpy as np
from mc import cross, explore as ex, ref

PROPERTY = "C10"
BOUNDS = {
    "quick": "abatement alphabet {0,0.4,1,1.3}^regions, all sequences over 4 steps (2 regions), 5-6 steps (1 region), "
             "piecewise-constant paths with <=2 switches to 2150; flags 2x2, 5 scenarios, steps 0.5..20",
    "thorough": "as quick with one more step, 3 regions, 26 regions and <=3 switches",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["abatement values outside the alphabet are not explored",
               "Newton solution of each equation block is taken as the path's value (validated through Pyomo's evaluator)"]
OWNED = {"regional_emissions", "baseline", "regional_emission_reduction", "global_emissions", "cumulative_emissions",
         "emission_relative_cumulative", "temperature"}
CI = ("emissions", "baseline carbon intensity")
TZ = ("emissions", "cumulative_emissions_trapz")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    flags = [(a, b) for a in (True, False) for b in (True, False)]
    for i, (ci, tz) in enumerate(flags):
        f = [(CI, ci), (TZ, tz)]
        J.append(ex.spec(("USA", "INDIA"), (2020, 2045 if deep else 2040, 5), f + [(("SSP",), f"SSP{i + 1}")],
                         {"kind": "full", "alphabet": [0.0, 0.4, 1.3]}, cost=8))
        J.append(ex.spec(("WEU",), (2020, 2050, 5), f, {"kind": "full", "alphabet": [0.0, 0.4, 1.0, 1.3]}, cost=5))
        J.append(ex.spec(("CHN", "BRA", "RUS"), (2020, 2040 if deep else 2030, 5), f + [(("SSP",), "SSP5")],
                         {"kind": "full", "alphabet": [0.0, 0.7] if deep else [0.0, 0.4, 1.3]}, cost=5))
        J.append(ex.spec(("USA", "INDIA"), (2020, 2150, 5), f,
                         {"kind": "switch", "k": 3 if deep else 2, "alphabet": [0.0, 0.5, 1.2], "joint": "rotate"}, cost=9))
        for j, tm in enumerate([(2015, 2019, 0.5), (2020, 2026, 1), (2025, 2040, 2.5), (2020, 2051, 7), (2030, 2110, 20),
                                (2020, 2100, 10), (2010, 2060, 10), (2020, 2033, 5), (2020, 2025, 5), (2022, 2043, 3)]):
            J.append(ex.spec(("MEX", "JAP"), tm, f + [(("SSP",), f"SSP{(i + j) % 5 + 1}")],
                             {"kind": "full", "depth": 4 if deep else 3, "alphabet": [0.0, 0.6, 1.2]}))
        for t0, tcre in (("0.9 delta_degC", "0.45 delta_degC/TtCO2"), ("1.3 kelvin", "0.8 delta_degC/(1000 GtCO2)")):
            if "1000" in tcre:
                tcre = "0.0008 delta_degC/GtCO2"
            J.append(ex.spec(("SEAS", "ME"), (2020, 2035, 5),
                             f + [(("temperature", "initial"), t0), (("temperature", "TCRE"), tcre)],
                             {"kind": "full", "alphabet": [0.0, 0.6, 1.2]}))
        J.append(ex.spec(("USA", "INDIA"), (2020, 2035, 5),
                         f + [(("economics", "damages", "ignore damages"), True), (("model", "emissiontrade module"), "emissiontrade"),
                              (("model", "financialtransfer module"), "globaldamagepool"),
                              (("input", "variables", "emissions", "file"), "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv")],
                         {"kind": "full", "alphabet": [0.0, 0.6, 1.2], "import_export_mitigation_cost_balance": [0.0, 0.05],
                          "financial_transfer": [0.0]}, cost=3))
    if deep:
        from mc.explore import TABLES
        allr = sorted({r[2] for r in ref.read_csv(TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]})
        for ci, tz in flags:
            J.append(ex.spec(allr, (2020, 2060, 5), [(CI, ci), (TZ, tz)],
                             {"kind": "switch", "k": 1, "alphabet": [0.0, 0.5, 1.2], "joint": "rotate"}, cost=40))
    J += cross.specs(1)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res)
    relations(out, res, c)


def relations(out, res, c):
    g = res.get
    be = c.base("emissions")
    gdp0 = c.base("GDP")
    a, base, e = g("relative_abatement"), g("baseline"), g("regional_emissions")
    E, cum, temp = g("global_emissions"), g("cumulative_emissions"), g("temperature")
    ci = c.p["emissions"]["baseline carbon intensity"]
    tz = c.p["emissions"]["cumulative_emissions_trapz"]
    cmp = lambda n, l, r, **k: ex.compare(out, res, n, l, r, **k)
    if ci:
        cmp("baseline emissions from carbon intensity", base, (be / gdp0)[:, :, None] * g("GDP_net"))
    else:
        cmp("baseline emissions from scenario", base, be[:, :, None] + 0 * base)
    cmp("regional emissions after abatement", e[1:], (1 - a[1:]) * base[1:])
    cmp("regional emissions in the first year", e[0], be[0][:, None] + 0 * e[0])
    cmp("reported emission reduction", g("regional_emission_reduction"), base - e,
        atol=1e-9)
    cmp("global emissions", E, e.sum(axis=1))
    cmp("cumulative emissions start", cum[0], 0 * cum[0])
    if c.T > 1:
        inc = c.dt * ((E[1:] + E[:-1]) / 2 if tz else E[1:])
        cmp("cumulative emissions step", cum[1:], cum[:-1] + inc)
    base_cum = np.concatenate([[0.0], np.cumsum(c.dt * (be.sum(1)[1:] + be.sum(1)[:-1]) / 2)])
    rel = g("emission_relative_cumulative")
    cmp("relative cumulative emissions start", rel[0], 1 + 0 * rel[0])
    if c.T > 1:
        cmp("relative cumulative emissions", rel[1:] * base_cum[1:, None], cum[1:])
    T0 = ref.q(c.p["temperature"]["initial"], "temperature")
    tcre = ref.q(c.p["temperature"]["TCRE"], "tcre")
    cmp("temperature", temp, T0 + tcre * cum)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=0)
    out.sample(config=c.sp["set"], regions=c.regions, time=c.sp["time"], path=ex.path_repr(res, res.B // 2),
               temperature_last=float(temp[-1, res.B // 2]), cumulative_last=float(cum[-1, res.B // 2]))
