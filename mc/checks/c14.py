"""C14: sea-level rise follows its documented components and lags temperature."""
import numpy as np
from mc import cross, explore as ex, ref, rules

PROPERTY = "C14"
BOUNDS = {
    "quick": "all abatement sequences over {0,0.6,1.3} for 4-7 steps; 9 step lengths; initial temperature 0.5-3 C; TCRE 0.1-1.5; "
             "pairs of paths sharing a prefix compared for the lag",
    "thorough": "as quick with 8-9 steps and piecewise constant paths to 2300",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["controls outside the alphabet are not explored"]
REQUIRED_TAGS = ["lag_pairs", "sea_level_differs_later"]
OWNED = {"slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"}
TI, TC = ("temperature", "initial"), ("temperature", "TCRE")


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    for g in ((2020, 2050, 5), (2020, 2023, 0.5), (2020, 2026, 1), (2030, 2100, 10), (2020, 2140, 20), (2015, 2030, 2.5), (2020, 2055, 7)):
        for ti, tc in (("1.16 delta_degC", "0.62 delta_degC/(TtCO2)"), ("0.5 kelvin", "0.1 delta_degC/(TtCO2)"),
                       ("3 delta_degC", "1.5 delta_degC/(TtCO2)"), ("0 delta_degC", "0.001 kelvin/GtCO2")):
            n += 1
            J.append(ex.spec((["CHN"], ["USA", "INDIA"])[n % 2], g, [(TI, ti), (TC, tc), (("SSP",), f"SSP{n % 5 + 1}"),
                             (("model", "damage module"), ("COACCH", "nodamage")[n % 3 == 0])],
                             {"kind": "full", "depth": 8 if deep else 6, "alphabet": [0.0, 0.6, 1.3], "joint": "rotate"}))
    for g in ((2020, 2150, 5), (2020, 2200, 10)):
        J.append(ex.spec(["USA", "WEU"], g, [], {"kind": "switch", "k": 3 if deep else 2, "alphabet": [0.0, 0.6, 1.3], "joint": "rotate"}, cost=8))
    J += cross.specs(5)
    return J


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    res = ex.run_paths(C, sp["paths"])
    ex.account(out, res)
    g = res.get
    temp = g("temperature")
    th, gs, gi, tot = g("slr_thermal"), g("slr_cumgsic"), g("slr_cumgis"), g("total_SLR")
    T0 = ref.q(p["temperature"]["initial"], "temperature")
    dt = c.dt
    cmp = lambda n, l, r, **kw: ex.compare(out, res, n, l, r, **kw)
    A = 0.024076141150722
    I0 = 0.0920666936642
    z = 0 * tot[0]
    # documented constants are rounded in the text; digits beyond are those of the implementation's table
    cmp("initial thermal expansion", th[0], I0 + A * (T0 * 0.5 - I0) + z, rtol=1e-5)
    cmp("initial glaciers", gs[0], 0.015 + z)
    cmp("initial Greenland", gi[0], 0.006 + z)
    cmp("thermal expansion step", th[1:], th[:-1] * (1 - A) ** (dt / 10) + A * (dt / 10) * 0.5 * temp[:-1], rtol=1e-6)
    cmp("glacier step", gs[1:], gs[:-1] + 0.0008 * dt * (0.26 - gs[:-1]) / 0.26 * (temp[:-1] + 1))
    cmp("Greenland step", gi[1:], gi[:-1] + dt / 1000 * (1.11860082 * temp[:-1] + 0.6) * (1 - gi[:-1] / 7.3), rtol=1e-6)
    cmp("total sea-level rise", tot, th + gs + gi)
    ex.consistent(out, res, OWNED)
    ex.determined(out, res, OWNED, first=0)
    # lag: paths that agree up to step t-1 have the same sea level at step t
    S = res.S
    T = c.T
    off = T - S.shape[1]
    order = np.lexsort(S.T[::-1])
    for a, b in zip(order[:-1], order[1:]):
        if not (res.ok[a] and res.ok[b]):
            continue
        d = np.nonzero(S[a] != S[b])[0]
        if not len(d):
            continue
        t = d[0] + off                    # first step with a different action
        if not np.allclose(tot[:t + 1, a], tot[:t + 1, b], rtol=1e-10, atol=0):
            out.violation("sea level reacts without lag", f"sea level in step {t} depends on the action of step {t} or later",
                          path=[ex.path_repr(res, a), ex.path_repr(res, b)])
            break
        out.tag("lag_pairs")
        if t + 1 < T:
            out.tag("sea_level_differs_later", int(abs(tot[t + 1, a] - tot[t + 1, b]) > 0))
    out.sample(config=sp["set"], time=sp["time"], path=ex.path_repr(res, res.B // 2), slr_last=float(tot[-1, res.B // 2]))
