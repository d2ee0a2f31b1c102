"""The documented limits of a configuration, evaluated on policy paths.

`margins(res, c)` returns {rule: margin array (B,)}; a path is documented as
admissible exactly when every margin is >= 0.  `judge` compares that with the
verdict of the model's own equations, inequalities and variable bounds.
"""
import numpy as np
from mc import ref

TIE = 1e-4      # |violation| below this (internal units) is not judged
OFF_LIMITS = [(("emissions", "global min level"), False), (("emissions", "regional min level"), False),
              (("emissions", "inertia", "regional"), False), (("emissions", "inertia", "global"), False),
              (("emissions", "not positive after budget year"), False),
              (("emissions", "non increasing emissions after 2100"), False)]


def _min(a, B):
    a = np.asarray(a, float)
    return a.reshape(-1, B).min(axis=0) if a.size else np.full(B, np.inf)


def margins(res, c):
    p, B = c.p, res.B
    g = res.get
    out = {}
    yr = c.years
    em = p["emissions"]
    e, E, cum, temp = g("regional_emissions"), g("global_emissions"), g("cumulative_emissions"), g("temperature")
    a = g("relative_abatement")
    out["cumulative emissions not negative"] = _min(cum, B)
    out["abatement range"] = np.minimum(_min(a, B), _min(2.5 - a, B))
    cp = g("carbonprice")
    gamma = ref.q(p["economics"]["MAC"]["gamma"], "price")
    out["carbon price range"] = np.minimum(_min(cp, B), _min(2 * gamma - cp, B))
    lvl = float(p["economics"]["MAC"]["rel_mitigation_costs_min_level"])
    rm = g("rel_mitigation_costs")
    out["relative cost floor"] = np.minimum(_min(rm[0], B), _min(rm[1:] - lvl, B))
    if p["model"]["damage module"] == "COACCH":
        d = g("damage_costs_slr")
        out["slr damage range"] = np.minimum(_min(d + 0.5, B), _min(0.7 - d, B))
    out["sea level range"] = _min([g("slr_thermal"), g("slr_cumgsic"), g("slr_cumgis"), g("total_SLR")], B)
    late = yr >= 2100 - 1e-9
    bud = ref.q(em["carbonbudget"], "emissions")
    if bud is not False:
        out["carbon budget"] = _min(bud - cum[late], B)
        if em["not positive after budget year"]:
            out["net zero after 2100"] = _min(-E[late], B)
    tgt = ref.q(p["temperature"]["target"], "temperature")
    if tgt is not False:
        out["temperature target"] = _min(tgt - temp[late], B)
    be0 = c.base("emissions")[0]
    ir, ig = em["inertia"]["regional"], em["inertia"]["global"]
    if ir is not False:
        out["regional inertia"] = _min(e[1:] - e[:-1] - c.dt * ir * be0[None, :, None], B)
    if ig is not False:
        out["global inertia"] = _min(E[1:] - E[:-1] - c.dt * ig * be0.sum(), B)
    gm, rl = ref.q(em["global min level"], "rate"), ref.q(em["regional min level"], "rate")
    if gm is not False:
        out["global min level"] = _min(E - gm, B)
    if rl is not False:
        out["regional min level"] = _min(e - rl, B)
    if em["non increasing emissions after 2100"]:
        k = [t for t in range(1, c.T) if yr[t - 1] > 2100 + 1e-9]
        out["non-increasing after 2100"] = _min([e[t - 1] - e[t] for t in k], B)
    if p["model"]["financialtransfer module"] == "globaldamagepool":
        ft, dc, gg = g("financial_transfer"), g("damage_costs"), g("GDP_gross")
        out["transfers zero-sum"] = -np.abs(ft[1:].sum(axis=1)).reshape(-1, B).max(axis=0) if c.T > 1 else np.zeros(B)
        out["no transfer in first year"] = -np.abs(ft[0]).max(axis=0)
        out["transfers capped by own damages"] = _min(ft + dc * gg, B)
    reg = p["effort sharing"]["regime"]
    if reg in ("equal_mitigation_costs", "equal_total_costs"):
        cl = g("effort_sharing_common_level")
        x = rm
        T = slice(None)
        if reg == "equal_total_costs":
            x = rm + g("damage_costs") + g("rel_financial_transfer")
            T = yr <= 2100 + 1e-9
        x, cl = x[T], cl[T][:, None, :]
        out["common level band"] = 100 * np.minimum(_min(1.005 * cl - x, B), _min(x - 0.995 * cl, B))
    if reg == "per_cap_convergence":
        al, sh = g("regional_emission_allowances"), shares(c)
        dev = np.abs(sh[1:, :, None] * E[1:, None, :] - al[1:])
        out["allowance band"] = _min(0.001 - dev, B)
    return out


def shares(c):
    """Documented per-capita convergence shares (T, R)."""
    be0 = c.base("emissions")[0]
    pop = c.base("population")
    gf = be0 / be0.sum()
    epc = pop / pop.sum(axis=1, keepdims=True)
    y = c.p["effort sharing"]["percapconv_year"]
    if y is False:
        return np.broadcast_to(gf, epc.shape).copy()
    y0 = c.years[0]
    if y <= y0:
        return epc
    x = np.clip((c.years - y0) / (y - y0), 0, 1)[:, None]
    return (1 - x) * gf + x * epc


def judge(out, res, c, ex, name="admissibility", tie=TIE, must=()):
    """Compare the model's verdict with the documented rules on every path."""
    M = margins(res, c)
    W = np.array(list(M.values()))
    names = list(M)
    worst = W.min(axis=0)
    verdict, _ = res.admissible()
    ok_doc = worst >= -1e-9
    clear_bad = worst < -tie
    judged = res.ok & (ok_doc | clear_bad)
    out.tag("admitted_paths", (judged & ok_doc).sum())
    out.tag("rejected_paths", (judged & clear_bad).sum())
    out.tag("near_tie_paths", (res.ok & ~judged).sum())
    for n, w in zip(names, W):
        others = np.delete(W, names.index(n), axis=0).min(axis=0)
        only = res.ok & (w < -tie) & (others >= -1e-9)
        if only.any():
            out.tag("rejected only by " + n, only.sum())
    bad = judged & (verdict != ok_doc)
    if bad.any():
        # name the rule that is not enforced / the model limit that is not documented
        for b in np.nonzero(bad)[0][:400:20]:
            b = int(b)
            if verdict[b]:
                rule = names[int(np.argmin(W[:, b]))]
                out.violation(f"{name}:not enforced:{rule}",
                              f"a path violating '{rule}' (margin {W[:, b].min():.4g}) is admitted by the model",
                              path=ex.path_repr(res, b) if hasattr(res, "S") else None, set=c.sp.get("set"))
            else:
                lim = res.violated(b)
                key = lim[0].split("[")[0].split(":")[0] if lim else "?"
                out.violation(f"{name}:over-restrictive:{key}",
                              f"a documented-admissible path is rejected by {lim[:3]}",
                              path=ex.path_repr(res, b) if hasattr(res, "S") else None, set=c.sp.get("set"))
    return verdict, ok_doc, judged


def thresholds(values, k, lo=None):
    """k values lying in the middle of gaps between reached values."""
    v = np.unique(np.round(np.asarray(values, float).ravel(), 9))
    v = v[np.isfinite(v)]
    if lo is not None:
        v = v[v > lo]
    if len(v) < 2:
        return []
    mids = (v[1:] + v[:-1]) / 2
    gaps = v[1:] - v[:-1]
    mids = mids[gaps > max(4 * TIE, 0.0)] if (gaps > 4 * TIE).any() else mids
    idx = np.unique(np.linspace(0, len(mids) - 1, k).astype(int))
    return [float(mids[i]) for i in idx]


def same_dynamics(out, r1, r2, what, rtol=1e-9):
    """Switching a limit must not change any quantity on any path."""
    C1, C2 = r1.C, r2.C
    both = r1.ok & r2.ok
    n = 0
    und = {C1.keys[v] for v in r1.plan.undetermined} | {C2.keys[v] for v in r2.plan.undetermined}
    for k, i in C1.key2i.items():
        j = C2.key2i.get(k)
        if j is None or k in und:
            continue
        a, b = r1.X[i][both], r2.X[j][both]
        n += 1
        if not np.allclose(a, b, rtol=1e-7, atol=1e-9 * max(1.0, np.abs(a).max() if a.size else 1.0)):
            out.violation("dynamics changed by a limit", f"{k[0]}{list(k[1])} changes when {what}")
            return
    out.tag("dynamics_compared", n)
