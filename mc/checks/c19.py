"""C19: effort-sharing regimes admit exactly the paths that share effort as documented."""
import itertools
import numpy as np
from mc import cross, explore as ex, forward as fw, ref, rules

PROPERTY = "C19"
BOUNDS = {
    "quick": "common level {0.5%,2%} (mitigation) / {4%,6%} (total) per step x every assignment of deviations inside/outside the band to "
             "2 regions (3 regions: one deviant) at one or all steps; allowances off by {0,+-0.0008,+-0.0012}; 9 convergence years; "
             "3 trade and 2 transfer modules; grids up to, across and after 2100",
    "thorough": "as quick with more grids, scenarios and 3-region products",
}
BOUNDS = {k: v + cross.TEXT for k, v in BOUNDS.items()}
ASSUMPTIONS = ["non-negative common levels only (the documented band is empty for negative ones)",
               "values are steered to the band by fixed-point iteration on the real equations; the reached value, not the intended one, is judged"]
REQUIRED_TAGS = ["admitted equal_mitigation_costs", "admitted equal_total_costs", "admitted per_cap_convergence", "admitted noregime",
                 "rejected only by common level band", "rejected only by allowance band", "shares compared", "band free after 2100"]
TRADE, FIN = ("model", "emissiontrade module"), ("model", "financialtransfer module")
REG, YR = ("effort sharing", "regime"), ("effort sharing", "percapconv_year")
LVL = ("economics", "MAC", "rel_mitigation_costs_min_level")
DEV = [0.0, 0.004, -0.004, 0.007, -0.007]
ADEV = [0.0, 0.0008, -0.0008, 0.0012, -0.0012]
YEARS = [2050, 2020, 2025, 2037.5, 2100, 2200, False, 2022, 2090]


def jobs(tier):
    J = []
    deep = tier == "thorough"
    n = 0
    grids = [(2020, 2035, 5), (2020, 2050, 10), (2080, 2120, 10), (2098, 2101.5, 0.5), (2090, 2115, 5), (2030, 2060, 20)]
    grids = [(a, int(np.ceil(b)), c) for a, b, c in grids]
    if deep:
        grids += [(2095, 2110, 2.5), (2020, 2041, 7), (2060, 2120, 20), (2100, 2110, 5)]
    for reg in ("equal_mitigation_costs", "equal_total_costs"):
        for tr in ("notrade", "emissiontrade", "globalcostpool"):
            for fi in ("notransfer", "globaldamagepool"):
                gs = grids if deep else [grids[n % len(grids)], grids[(n + 2) % len(grids)]]
                n += 1
                for g in gs:
                    for regs in ((("USA", "INDIA"),), (("CHN", "BRA"), ("USA", "WEU", "OCE")))[n % 2]:
                        J.append(ex.spec(regs, g, [(TRADE, tr), (FIN, fi), (REG, reg), (("SSP",), f"SSP{n % 5 + 1}"), (LVL, -1)] + rules.OFF_LIMITS,
                                         {"kind": "band"}, mode="band", deep=deep, cost=4))
    for i, y in enumerate(YEARS):
        for fi in ("notransfer", "globaldamagepool")[i % 2:i % 2 + 1]:
            for regs in (("USA", "INDIA"), ("CHN", "BRA", "ME"))[:2 if deep or i % 3 == 0 else 1]:
                for g in ((2020, 2035, 5), (2020, 2060, 20), (2030, 2100, 35), (2020, 2022, 0.5))[i % 4:i % 4 + 1] if not deep else \
                        ((2020, 2035, 5), (2020, 2060, 20), (2030, 2060, 10), (2020, 2022, 0.5)):
                    g = (g[0], g[1], min(g[2], 20))
                    J.append(ex.spec(regs, g, [(TRADE, "emissiontrade"), (FIN, fi), (REG, "per_cap_convergence"), (YR, y), (LVL, -2),
                                               (("SSP",), f"SSP{i % 5 + 1}")] + rules.OFF_LIMITS, {"kind": "allow"}, mode="allow", cost=5))
    for i, y in enumerate(YEARS):
        for regs, g in ((("USA", "INDIA", "JAP"), (2020, 2150, 5)), (("RUS", "WAF"), (2040, 2110, 7)), (("USA", "INDIA"), (2015, 2060, 2.5))):
            J.append(ex.spec(regs, g, [(TRADE, "emissiontrade"), (REG, ("per_cap_convergence", "noregime")[(i + len(regs)) % 2]), (YR, y),
                                       (("SSP",), f"SSP{i % 5 + 1}")], {"kind": "shares"}, mode="shares"))
    for tr in ("notrade", "emissiontrade", "globalcostpool"):
        J.append(ex.spec(("USA", "INDIA"), (2090, 2120, 10), [(TRADE, tr), (FIN, "globaldamagepool"), (REG, "noregime"), (LVL, -1)] + rules.OFF_LIMITS,
                         {"kind": "full", "depth": 2, "alphabet": [0.1, 0.7], "joint": "product", "import_export_mitigation_cost_balance": [0.0, 0.02],
                          "financial_transfer": [0.0], "effort_sharing_common_level": [-0.3, 0.0, 0.2]}, mode="free"))
    J += [dict(x, mode="free") for x in cross.specs(11)]
    return J


def check_shares(out, res, c, C):
    if not hasattr(C.m, "percapconv_share"):
        return
    sh = np.array([[fw._pv(C.m.percapconv_share[t, r]) for r in C.regions] for t in C.t])
    want = rules.shares(c)
    out.tag("shares compared", sh.size)
    if not np.allclose(sh, want, rtol=1e-7, atol=1e-10):
        k = np.argwhere(~np.isclose(sh, want, rtol=1e-7, atol=1e-10))[0]
        out.violation("convergence share", f"share of {c.regions[k[1]]} in {c.years[k[0]]} is {sh[tuple(k)]:.7g}, documented {want[tuple(k)]:.7g} "
                                           f"(convergence year {c.p['effort sharing']['percapconv_year']})")
    if not np.allclose(sh.sum(1), 1, atol=1e-9):
        out.violation("convergence share sum", "shares do not sum to one")


def run_job(sp, out):
    p, mo, m = ex.build(sp)
    C = ex.Compiled(m)
    c = ex.Ctx(p, sp)
    mode = sp["mode"]
    if mode == "shares":
        res = ex.run_paths(C, {"kind": "switch", "k": 1, "alphabet": [0.0, 0.4], "joint": "diagonal", "import_export_mitigation_cost_balance": [0.0]})
        ex.account(out, res, 2)
        check_shares(out, res, c, C)
        return
    if mode == "free":
        res = ex.run_paths(C, sp["paths"])
    elif mode == "band":
        res = band_paths(C, c, sp)
    else:
        res = allowance_paths(C, c, sp)
    ex.account(out, res, 12)
    check_shares(out, res, c, C)
    _, ok_doc, judged = rules.judge(out, res, c, ex)
    out.tag("admitted " + p["effort sharing"]["regime"], (ok_doc & judged).sum())
    if mode == "band" and (c.years > 2100).any() and p["effort sharing"]["regime"] == "equal_total_costs":
        late = c.years > 2100
        x = res.get("rel_mitigation_costs") + res.get("damage_costs") + res.get("rel_financial_transfer")
        cl = res.get("effort_sharing_common_level")[:, None]
        off = (np.abs(x[late] - cl[late]) > 0.006 * np.abs(cl[late])).any(axis=(0, 1))
        out.tag("band free after 2100", (off & ok_doc & judged).sum())
    out.tag("regime " + p["effort sharing"]["regime"])
    b = res.B // 2
    out.sample(config=sp["set"][:5], regions=c.regions, time=sp["time"], path=ex.path_repr(res, b), admitted=bool(ok_doc[b]))


def _plans(c, devs, levels, R, deep):
    """Enumerate (level sequence, deviation assignment, where)."""
    T = c.T
    if R == 2 or deep:
        assign = list(itertools.product(range(len(devs)), repeat=R))
    else:
        assign = [tuple(d if r == k else 0 for r in range(R)) for k in range(R) for d in range(len(devs))]
    places = ["all"] + list(range(1, T))
    lv = list(itertools.product(range(len(levels)), repeat=min(T - 1, 3)))
    lv = [list(x) + [x[-1]] * (T - 1 - len(x)) for x in lv]
    if not deep:
        lv = [x for x in lv if len(set(x)) == 1] + [x for x in lv if len(set(x)) > 1][:1]
    rows, S, joint, code = [], [], [], {}
    for l in lv:
        for a in assign:
            for w in places:
                if w != "all" and all(x == 0 for x in a):
                    continue
                d = np.zeros((T, R))
                seq = []
                for t in range(1, T):
                    on = w == "all" or w == t
                    if on:
                        d[t] = [devs[x] for x in a]
                    k = (levels[l[t - 1]], tuple(devs[x] for x in a) if on else (0.0,) * R)
                    if k not in code:
                        code[k] = len(joint)
                        joint.append({"level": k[0], "deviation": list(k[1])})
                    seq.append(code[k])
                rows.append((np.array([0.0] + [levels[i] for i in l]), d))
                S.append(seq)
    L = np.array([r[0] for r in rows]).T                       # (T, B)
    Dv = np.array([r[1] for r in rows]).transpose(1, 2, 0)      # (T, R, B)
    return L, Dv, np.array(S, int).reshape(len(rows), T - 1), joint


def band_paths(C, c, sp):
    reg = c.p["effort sharing"]["regime"]
    total = reg == "equal_total_costs"
    L, Dv, S, joint = _plans(c, DEV, [0.04, 0.06] if total else [0.005, 0.02], c.R, sp.get("deep"))
    B = L.shape[1]
    beta = float(c.p["economics"]["MAC"]["beta"])
    ctl = ex.controls_of(C)
    a = np.full((c.T, c.R, B), 0.4)
    a[0] = 0
    arrs = {}
    if c.R > 1:
        for n, v in (("import_export_mitigation_cost_balance", 0.003), ("financial_transfer", 0.004)):
            if n in ctl:
                A = np.zeros((c.T, c.R - 1, B))
                A[1:, 0] = v
                arrs[n] = (A, C.regions[:-1])
    want = L[:, None, :] * (1 + Dv)
    for it in range(60):
        res = fw.forward(C, dict(arrs, relative_abatement=(a, C.regions), effort_sharing_common_level=L))
        x = res.get("rel_mitigation_costs")
        extra = (res.get("damage_costs") + res.get("rel_financial_transfer")) if total else 0 * x
        own = res.get("area_under_MAC") / res.get("GDP_gross")
        goal = want - extra - (x - own)
        with np.errstate(all="ignore"):
            f = np.clip(goal[1:] / own[1:], 0.2, 5.0) ** (1 / (beta + 1))
        f = np.where(np.isfinite(f), f, 1.0)
        if np.abs(f - 1).max() < 1e-10:
            break
        a[1:] = np.clip(a[1:] * f, 1e-4, 2.4)
    res.S, res.joint = S, joint
    return res


def allowance_paths(C, c, sp):
    L, Dv, S, joint = _plans(c, ADEV, [0.3, 0.7], c.R, False)
    B = L.shape[1]
    a = np.zeros((c.T, c.R, B))
    a[1:] = L[1:, None, :] * np.linspace(1.0, 0.8, c.R)[None, :, None]
    sh = rules.shares(c)[:, :, None]
    bal = np.zeros((c.T, c.R - 1, B))
    arrs = {"relative_abatement": (a, C.regions), "effort_sharing_common_level": np.zeros((c.T, B))}
    if C.has_var("financial_transfer"):
        arrs["financial_transfer"] = (np.zeros((c.T, c.R - 1, B)), C.regions[:-1])
    for it in range(80):
        res = fw.forward(C, dict(arrs, import_export_mitigation_cost_balance=(bal, C.regions[:-1])))
        E, base, red = res.get("global_emissions"), res.get("baseline"), res.get("regional_emission_reduction")
        target = sh * E[:, None, :] + Dv
        new = ((base - red - target) * ref.soft_min(res.get("global_carbonprice"))[:, None, :])[:, :-1]
        new[0] = 0
        ch = np.nanmax(np.abs(new - bal))
        bal = np.where(np.isfinite(new), new, bal)
        if ch < 1e-11:
            break
    res.S, res.joint = S, joint
    return res
