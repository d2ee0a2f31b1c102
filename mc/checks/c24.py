"""C24: every documented configuration builds a model which a policy fully determines."""
import itertools

import numpy as np

from mc import config as cf, explore as ex, impl, ref

PROPERTY = "C24"
BOUNDS = {
    "quick": "full product damage x trade x transfer x welfare x objective x regime modules, each with 4 rows covering every pair of flag values; every "
             "enum/bool/off value and every numeric bound (and one step inside it) of every setting x 3 module selections; every pair of choices "
             "(enum/bool/off values) of two settings; 1, 2, 3 and 26 regions; "
             "in every model all policies of a small alphabet",
    "thorough": "as quick with the full product of modules and flags, and every pair of boundary values of two settings",
}
ASSUMPTIONS = ["per-capita convergence is only combined with the allowance market",
               "horizons and region types are limited to those the shipped data cover (2010 to 2200, IMAGE26)",
               "uniqueness: every quantity is obtained from its own block of equations with a regular Jacobian (local uniqueness in non-linear blocks)"]
ASSUMPTIONS.append("finite values are not judged for capital elasticities above 0.9, where growth within one time step can exceed any number")
REQUIRED_TAGS = ["module combinations", "setting values", "no action consistent", "prepared models built", "regions 1", "regions 2", "regions 3", "regions 26", "pairs of choices"]
M = lambda k: ("model", k + " module")
MODULES = [(M("damage"), ["COACCH", "nodamage"]), (M("emissiontrade"), ["notrade", "emissiontrade", "globalcostpool"]),
           (M("financialtransfer"), ["notransfer", "globaldamagepool"]),
           (M("welfare"), ["welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"]),
           (M("objective"), ["utility", "globalcosts"]),
           (("effort sharing", "regime"), ["noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence"])]
D = ("economics", "damages")
FLAGS = [(D + ("coacch_combined_slr_nonslr_damages",), [False, True]), (D + ("coacch_slr_withadapt",), [True, False]),
         (D + ("ignore damages",), [False, True]), (("emissions", "cumulative_emissions_trapz"), [True, False]),
         (("emissions", "baseline carbon intensity"), [True, False]), (("emissions", "carbonbudget"), [False, "700 GtCO2"]),
         (("temperature", "target"), [False, "2 delta_degC"]), (("effort sharing", "percapconv_year"), [2050, False])]
# rows covering all pairs of the 8 flags: columns are the non-zero combinations of 4 bits (complemented too)
COVER = [[0] * 8, [0, 0, 0, 0, 1, 1, 1, 1], [0, 0, 1, 1, 0, 0, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1],
         [1, 1, 1, 1, 0, 0, 0, 0], [1, 1, 0, 0, 1, 1, 0, 0], [1, 0, 1, 0, 1, 0, 1, 0], [1] * 8]
REGS = [["USA", "INDIA"], ["BRA"], ["WEU", "OCE", "CHN"]]
GRIDS = [(2020, 2120, 20), (2015, 2110, 15), (2025, 2105, 10)]
BASES = [[], [(M("emissiontrade"), "emissiontrade"), (M("financialtransfer"), "globaldamagepool"), (M("welfare"), "inequal_aversion_general"),
              (("effort sharing", "regime"), "per_cap_convergence")],
         [(M("damage"), "nodamage"), (M("emissiontrade"), "globalcostpool"), (M("welfare"), "cost_minimising"), (M("objective"), "globalcosts"),
          (("effort sharing", "regime"), "equal_total_costs"), (("emissions", "carbonbudget"), "700 GtCO2")]]
PATHS = {"kind": "switch", "k": 0, "alphabet": [0.0, 0.3, 1.1], "joint": "rotate", "import_export_mitigation_cost_balance": [0.0, 0.01],
         "import_export_mitigation_cost_balance_joint": "same", "financial_transfer": [0.0, -0.01], "financial_transfer_joint": "same",
         "effort_sharing_common_level": [0.0, 0.02]}
MAX_END, MIN_START = 2200, 2010


def valid(sel):
    sel = {tuple(p): v for p, v in sel}
    return not (sel.get(("effort sharing", "regime")) == "per_cap_convergence" and sel.get(M("emissiontrade")) != "emissiontrade")


def leaf_values():
    """Every choice and every boundary value (and one step inside)."""
    out = []
    for path, node in cf.leaves():
        if path[0] in ("simulation", "regions", "regionstype") or path[:1] == ("input",):
            continue
        vals = []
        if node["type"] in ("int", "float"):
            step = 1 if node["type"] == "int" else 1e-3
            for k, s in (("min", step), ("max", -step)):
                if k in node:
                    vals += [node[k], node[k] + s]
            if path == ("time", "start"):
                vals = [MIN_START, MIN_START + 1, node["max"] - 1, node["max"]]
            elif path == ("time", "end"):
                vals = [MAX_END, MAX_END - 1]
        elif node["type"] == "enum":
            vals = list(node["values"])
        elif node["type"] == "bool":
            vals = [True, False]
        if node.get("can_be_false"):
            vals.append(False)
        out += [(path, v) for v in vals]
    return out + [(path, v) for path, vals in EXTREMES for v in vals]


# small, zero and large values of the settings without documented bounds
EXTREMES = [(("economics", "MAC", "gamma"), ["0.1 USD2005/tCO2", "20 USD2005/tCO2", "1e5 USD2005/tCO2"]),
            (("economics", "MAC", "LBD_scaling"), ["0.1 GtCO2", "1e5 GtCO2"]), (("economics", "MAC", "LOT_rate"), [0.001, 0.1, 1]),
            (("economics", "GDP", "depreciation of capital"), [0.3, 1]),
            (D + ("scale factor",), [0, 1e-3, 3]), (("emissions", "carbonbudget"), ["-100 GtCO2", "1 GtCO2", "1e5 GtCO2"]),
            (("emissions", "global min level"), ["0 GtCO2/yr", "-1e-3 GtCO2/yr", "-500 GtCO2/yr"]),
            (("emissions", "regional min level"), ["0 GtCO2/yr", "-1e-3 GtCO2/yr", "-500 GtCO2/yr"]),
            (("emissions", "inertia", "global"), [-1e-3, -0.5]), (("emissions", "inertia", "regional"), [-1e-3, -0.5]),
            (("temperature", "initial"), ["0 delta_degC", "1e-3 delta_degC", "2.9 delta_degC"]),
            (("temperature", "TCRE"), ["0.001 delta_degC/(TtCO2)", "1.5 delta_degC/(TtCO2)"]),
            (("temperature", "target"), ["1.2 delta_degC", "9 delta_degC"])]


def choices():
    """Every documented choice (of the 30 calibration columns, read by one lookup, three)."""
    out = []
    for path, node in cf.leaves():
        if path[0] in ("simulation", "regions", "regionstype", "input"):
            continue
        vals = list(node["values"]) if node["type"] == "enum" else [True, False] if node["type"] == "bool" else []
        if node.get("can_be_false"):
            vals.append(False)
        if len(vals) > 20:
            vals = [vals[0], vals[len(vals) // 2], vals[-1]]
        out += [(path, v) for v in vals]
    return out


def jobs(tier):
    J, n = [], 0
    deep = tier == "thorough"
    for combo in itertools.product(*[v for _, v in MODULES]):
        sel = [(p, v) for (p, _), v in zip(MODULES, combo)]
        if not valid(sel):
            continue
        n += 1
        rows = list(itertools.product((0, 1), repeat=len(FLAGS))) if deep else [COVER[(n + k) % 8] for k in (0, 4, 1, 6)]
        J.append({"mode": "modules", "sel": [[list(p), v] for p, v in sel], "rows": [list(r) for r in rows], "n": n, "cost": len(rows)})
    vals = leaf_values()
    for b in range(len(BASES)):
        for k in range(0, len(vals), 12):
            J.append({"mode": "values", "base": b, "lo": k, "hi": min(k + 12, len(vals)), "cost": 6})
        J.append({"mode": "allregions", "base": b, "cost": 30})
    ch = choices()
    for k in range(len(ch)):
        J.append({"mode": "choices", "at": k, "cost": (len(ch) - k) / 4})
    if deep:
        for k in range(len(vals)):
            J.append({"mode": "pairs", "at": k, "cost": 40})
    return J


def all_regions():
    return sorted({r[2] for r in ref.read_csv(ex.TABLES.path("inputdata/data/data_IMAGE_SSP.csv"))[1]} - {"World"})


def run_job(job, out):
    if job["mode"] == "modules":
        sel = [(tuple(p), v) for p, v in job["sel"]]
        for k, row in enumerate(job["rows"]):
            flags = [(p, v[b]) for (p, v), b in zip(FLAGS, row)]
            judge(out, REGS[(job["n"] + k) % 3], GRIDS[(job["n"] + k) % 3], sel + flags, prepare=k == 0)
            out.tag("module combinations")
    elif job["mode"] == "values":
        vals = leaf_values()
        for k in range(job["lo"], job["hi"]):
            one_value(out, job["base"], [vals[k]], k)
            out.tag("setting values")
    elif job["mode"] == "choices":
        vals = choices()
        for k in range(job["at"] + 1, len(vals)):
            if vals[k][0] != vals[job["at"]][0]:
                one_value(out, 0, [vals[job["at"]], vals[k]], k, False)
                out.tag("pairs of choices")
    elif job["mode"] == "pairs":
        vals = leaf_values()
        for k in range(job["at"] + 1, len(vals)):
            if vals[k][0] != vals[job["at"]][0]:
                one_value(out, (job["at"] + k) % 3, [vals[job["at"]], vals[k]], k, False)
                out.tag("setting value pairs")
    else:
        judge(out, all_regions(), (2020, 2110, 15), BASES[job["base"]], prepare=True)


def one_value(out, b, chosen, k, prepare=True):
    over = {tuple(p) for p, _ in chosen}
    sel = [(p, v) for p, v in BASES[b] if p not in over] + chosen
    d = dict(sel)
    if d.get(("effort sharing", "regime")) == "per_cap_convergence" and d.get(M("emissiontrade")) != "emissiontrade":
        if (M("emissiontrade")) in over and ("effort sharing", "regime") in over:
            return
        # keep the explored value, replace the other one
        if M("emissiontrade") in over:
            sel = [(p, v) for p, v in sel if p != ("effort sharing", "regime")]
        else:
            sel = [(p, v) for p, v in sel if p != M("emissiontrade")] + [(M("emissiontrade"), "emissiontrade")]
    s, e, dt = GRIDS[k % 3]
    s, e, dt = d.get(("time", "start"), s), d.get(("time", "end"), e), d.get(("time", "dt"), dt)
    if ("time", "dt") in d:
        e = s + 4 * dt if ("time", "end") not in d else e
        if dt < 1:
            if ("time", "start") in d or ("time", "end") in d:
                return                          # thousands of steps
            e = int(s + 2)
        e = int(round(e))
    if e <= s:
        e = s + 3 * int(max(dt, 1))
    sel = [(p, v) for p, v in sel if p[0] != "time"]
    judge(out, REGS[k % 2], (s, e, dt), sel, prepare=prepare)


def key_of(sel, time, exc):
    d = dict((tuple(p), v) for p, v in sel)
    if d.get(D + ("percentage reversible",), 1) < 1 and d.get(("emissions", "carbonbudget"), False) is not False and time[1] >= 2100 \
            and "overshoot" in str(exc):
        return "no model: percentage reversible below one together with a carbon budget"
    return "no model: " + type(exc).__name__


def judge(out, regions, time, sel, prepare):
    sp = ex.spec(regions, time, sel, PATHS)
    out.cases += 1
    try:
        p, mo, m = ex.build(sp)
    except Exception as exc:
        out.violation(key_of(sel, time, exc), f"no model for {sel} {regions} {time}: {type(exc).__name__}: {exc}"[:600], config=sel, time=time)
        return
    if prepare:
        try:
            ex.build(sp, raw=False)
            out.tag("prepared models built")
        except Exception as exc:
            out.violation("no prepared model: " + type(exc).__name__, f"preprocessing fails for {sel} {regions} {time}: {exc}"[:500], config=sel)
            return
    C = ex.Compiled(m)
    out.tag(f"regions {len(C.regions)}")
    res = ex.run_paths(C, PATHS)
    ex.account(out, res, 2)
    bad = [C.keys[v] for v in res.plan.undetermined if not (C.keys[v][1] and C.keys[v][1][0] == 0) and
           C.keys[v][0] != "effort_sharing_common_level"]
    if bad:
        out.violation(f"undetermined {bad[0][0]}", f"{bad[:3]} not determined by the policy in {sel} {regions} {time}", config=sel)
    start = {C.keys[v][0] for v in res.plan.undetermined if C.keys[v][1] and C.keys[v][1][0] == 0}
    core = start & CORE
    if core:
        out.violation(f"undetermined start {sorted(core)[0]}", f"{sorted(core)} not determined in the first year in {sel}", config=sel)
    explosive = float(p["economics"]["GDP"]["alpha"]) > 0.9
    if explosive and not res.ok.all():
        out.tag("explosive growth")
    elif not res.ok.all():
        b = int(np.nonzero(~res.ok)[0][0])
        x = [C.vars[i].name for i in range(C.n) if not np.isfinite(res.X[i, b])][:3]
        out.violation("no finite value", f"{x} has no finite value in {sel} {regions} {time}", config=sel, path=ex.path_repr(res, b))
    none = [b for b in range(res.B) if not any(any(v != 0 for v in np.ravel(list(a.values())[i])) for a in ex.path_repr(res, b) for i in range(len(a)))]
    fails, which = res.eq_violation(res.plan.leftover)
    for b in range(res.B):
        if not res.ok[b]:
            continue
        if b in none:
            out.tag("no action consistent")
        if len(which) and fails[:, b].any():
            name = C.con[which[int(np.argmax(fails[:, b]))]]["name"]
            out.violation("contradiction " + name.split("[")[0], f"{name} fails {'for no action' if b in none else ''} in {sel} {regions} {time}",
                          config=sel, path=ex.path_repr(res, b))
            return
    out.sample(config=sel[:8], regions=list(C.regions)[:3], time=time, variables=C.n, equations=len(C.eqs))


# quantities which have a documented starting value
CORE = {"regional_emissions", "baseline", "global_emissions", "cumulative_emissions", "temperature", "capital_stock", "GDP_gross", "GDP_net",
        "investments", "consumption", "damage_costs", "mitigation_costs", "utility", "yearly_welfare", "NPV", "rel_mitigation_costs",
        "area_under_MAC", "carbonprice", "global_carbonprice"}

