"""C21: simulation mode pins the given variables and frees exactly the named limits."""
import csv
import itertools
import os

import numpy as np
from scipy.interpolate import CubicSpline

from mc import explore as ex, impl, rules
from mc.checks import c24
from mc.compilem import Compiled
from mc.signature import difference, signature

PROPERTY = "C21"
BOUNDS = {
    "quick": "9 pinned variables x 7 data forms x 9 year layouts x pin tables taken from policy paths; a deviation of 0, +-0.9 or +-1.1 times the tolerance at "
             "every (year, region) cell; pairs of pinned variables; every subset of up to 2 (and all) of the limits; every named constraint of every module "
             "freed alone; all policy paths of 3 levels with up to 2 switches; entries with the mode off; every kind of faulty entry",
    "thorough": "as quick with all paths of full depth, all subsets of up to 3 limits, all pairs of named constraints and three pinned variables",
}
ASSUMPTIONS = ["values between supplied years follow the cubic interpolating spline through the supplied (and continued) values",
               "the continuation after the last supplied year is judged where the data end in or after 2100, or end without growth",
               "years before the first supplied year, beyond 2150 and tables with less than four points are not judged",
               "a deviation within one part in a thousand of the tolerance is not judged"]
REQUIRED_TAGS = ["admitted", "rejected by pin only", "rejected by limit only", "freed", "mode off", "faulty entries reported", "cell deviations",
                 "constraints freed one by one", "interpolated years", "continued years", "pairs pinned", "global pin", "own saved output", "blank cells"]
EPS = 1e-3
FREE = {"carbon_budget": "carbon budget", "net_zero_after_2100": "net zero after 2100", "temperature_target": "temperature target",
        "regional_inertia": "regional inertia", "global_inertia": "global inertia", "global_min_level": "global min level",
        "regional_min_level": "regional min level", "non_increasing_emissions_after_2100": "non-increasing after 2100",
        "rel_mitigation_costs_non_negative": "relative cost floor"}
# a configuration in which each limit rejects some path on its own
LIMITED = [(("emissions", "carbonbudget"), "1300 GtCO2"), (("temperature", "target"), "2.05 delta_degC"),
           (("emissions", "inertia", "regional"), -0.03), (("emissions", "inertia", "global"), -0.02),
           (("emissions", "global min level"), "-0.9 GtCO2/yr"), (("emissions", "regional min level"), "-0.5 GtCO2/yr"),
           (("economics", "MAC", "rel_mitigation_costs_min_level"), -0.0005)]
TRADE = [(("model", "emissiontrade module"), "emissiontrade")]
TPS = {"kind": "switch", "k": 1, "alphabet": [0.0, 0.45, 1.1], "import_export_mitigation_cost_balance": [0.0, 0.03, -0.03]}
GRID = (2020, 2120, 20)
PS = {"kind": "switch", "k": 2, "alphabet": [0.0, 0.45, 1.1], "joint": "product"}
FULL = dict(PS, kind="full")
M = c24.M
REGIONAL = ["relative_abatement", "regional_emissions", "carbonprice", "consumption", "GDP_gross", "mitigation_costs"]
GLOBAL = ["global_emissions", "temperature", "cumulative_emissions"]
FORMS = ["dict", "dict text years", "csv", "csv extra rows", "csv pattern", "csv no unit", "csv one file"]
LAYOUTS = ["model years", "every decade", "every 5 years", "irregular", "longer", "end 2100 growing", "end 2100 flat", "end 2060 flat", "fractional years"]


def sim(constraint_variables, free=None, on=True):
    return [(("simulation", "simulationmode"), on), (("simulation", "constraint_variables"), constraint_variables),
            (("simulation", "deactivated_constraints"), free)]


# -- pin tables --------------------------------------------------------------
def layout_years(layout, years):
    end = years[-1]
    return {"model years": list(years), "every decade": list(range(2020, 2151, 10)), "every 5 years": list(range(2020, 2126, 5)),
            "irregular": [2015, 2020, 2023, 2040, 2041, 2055, 2080, 2100, 2130, 2150], "longer": list(range(2010, 2201, 10)),
            "end 2100 growing": list(range(2020, 2101, 10)), "end 2100 flat": list(range(2020, 2101, 10)),
            "end 2060 flat": list(range(2020, 2061, 5)), "fractional years": [2020, 2032.5, 2045, 2057.5, 2070, 2082.5, 2095, 2107.5, 2120]}[layout]


def table_for(layout, years, series):
    """Supplied values of one region: the path values at the model years, linearly
    carried to the supplied years (any numbers will do; these are in range)."""
    ys = layout_years(layout, years)
    v = np.interp(ys, years, series)
    if layout.endswith("flat"):
        v[-1] = v[-2]
    return ys, v


def reference(ys, vs, years):
    """The value the variable has to have in each model year."""
    ys, vs = np.array(ys, float), np.array(vs, float)
    g = (vs[-1] - vs[-2]) / (ys[-1] - ys[-2])
    y, v = ys[-1], vs[-1]
    more = []
    while y + 5 <= 2150 + 1e-9:
        step = g * (1 - (y - 2100) / 50.0)
        step = max(0.0, step) if g > 0 else min(0.0, step)
        y, v = y + 5, v + 5 * step
        more.append((y, v))
    if more:
        ys, vs = np.concatenate([ys, [a for a, _ in more]]), np.concatenate([vs, [b for _, b in more]])
    return CubicSpline(ys, vs, bc_type="not-a-knot")(years)


def write_csv(path, tables, unit=True, noise=False, order=1):
    """tables: {variable: {region: (years, values)}} -> output-like file."""
    years = next(iter(next(iter(tables.values())).values()))[0]
    rows = []
    for var, regs in tables.items():
        for r, (_, v) in list(regs.items())[::order]:
            rows.append([var, r] + (["x"] if unit else []) + [repr(float(x)) for x in v])
    if noise:
        n = len(years)
        rows = ([["something_else", r, "x"] + ["7.5"] * n for r in ("USA", "INDIA", "Global")] + rows[::-1]
                + [[v, "EXTRA", "x"] + ["3"] * n for v in tables] + [["regional_emissions_2", "USA", "x"] + ["1"] * n])
    with open(path, "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Variable", "Region"] + (["Unit"] if unit else []) + ["{:g}".format(y) for y in years])
        w.writerows(rows)


def give(form, var, tab, d, n=0):
    """The settings entry that supplies the table {region: (years, values)}."""
    if form.startswith("dict"):
        ys = next(iter(tab.values()))[0]
        lab = (lambda y: "{:g}".format(y)) if "text" in form else (lambda y: y)
        return {lab(y): {r: float(v[k]) for r, (_, v) in tab.items()} for k, y in enumerate(ys)}
    path = os.path.join(d, f"pin {form} {n}.csv")
    write_csv(path, {var: tab}, unit=form != "csv no unit", noise=form == "csv extra rows", order=-1 if n % 2 else 1)
    return path.replace("pin csv", "p*csv") if form == "csv pattern" else path


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for k, var in enumerate(REGIONAL + GLOBAL):
        J.append({"mode": "forms", "var": var, "deep": deep, "cost": 40})
        J.append({"mode": "cells", "var": var, "cost": 30})
    lim = list(FREE)
    subsets = [()] + [c for k in ((1, 2, 3) if deep else (1, 2)) for c in itertools.combinations(lim, k)] + [tuple(lim)]
    n = 12
    for k in range(n):
        J.append({"mode": "free", "subsets": [list(s) for s in subsets[k::n]], "deep": deep, "cost": 30})
    for k in range(3):
        J.append({"mode": "pairs", "part": [k, 3], "deep": deep, "cost": 30})
    for k in range(8):
        J.append({"mode": "named", "part": [k, 8], "deep": deep, "cost": 30})
    J.append({"mode": "off", "cost": 15})
    J.append({"mode": "faulty", "cost": 40})
    J.append({"mode": "saved", "cost": 15})
    return J


# -- judging -----------------------------------------------------------------
class Base:
    """The model without simulation mode, with all its policy paths."""

    def __init__(self, sets=(), regions=("USA", "INDIA"), time=GRID, ps=PS):
        self.sets = list(sets)
        self.sp = ex.spec(list(regions), time, self.sets)
        p, mo, self.m = ex.build(self.sp)
        self.c = ex.Ctx(p, self.sp)
        self.C = Compiled(self.m)
        self.ps = ps
        self.res = ex.run_paths(self.C, ps)
        self.years = self.c.years

    def margin(self, freed=()):
        mg = rules.margins(self.res, self.c)
        gone = {FREE[f] for f in freed}
        out = np.min([v for k, v in mg.items() if k not in gone], axis=0)
        return out

    def series(self, var, b):
        v = self.res.get(var)[..., b]
        return {"Global": v} if v.ndim == 1 else {r: v[:, i] for i, r in enumerate(self.C.regions)}

    def pin_margin(self, var, want):
        """Room left in the band around the wanted values {region: [..]}, per path."""
        v = self.res.get(var)
        if v.ndim == 2:
            dev = np.abs(v - want["Global"][:, None])
            return EPS - dev.max(axis=0)
        dev = np.abs(v - np.array([want[r] for r in self.C.regions]).T[:, :, None])
        return EPS - dev.reshape(-1, v.shape[-1]).max(axis=0)

    def simulated(self, settings):
        sp = ex.spec(self.sp["regions"], self.sp["time"], self.sets + settings)
        _, _, m = ex.build(sp)
        C = Compiled(m)
        return ex.run_paths(C, self.ps)


def verdicts(out, base, res, mg, pin, label):
    """Model verdict in simulation mode == documented limits and bands."""
    out.states += res.B
    out.transitions += res.B * (len(base.years) - 1)
    out.cases += 1
    bad_lim, bad_pin = mg < -rules.TIE, pin < -1e-6
    ok = (mg >= -1e-9) & (pin >= 1e-6)
    judged = res.ok & base.res.ok & (ok | bad_lim | bad_pin)
    verdict, _ = res.admissible()
    out.tag("admitted", (judged & ok).sum())
    out.tag("rejected by pin only", (judged & bad_pin & (mg >= -1e-9)).sum())
    out.tag("rejected by limit only", (judged & bad_lim & (pin >= 1e-6)).sum())
    wrong = judged & (verdict != ok)
    if wrong.any():
        b = int(np.nonzero(wrong)[0][0])
        if verdict[b]:
            out.violation("not enforced:" + ("pin" if bad_pin[b] else "limit"),
                          f"a path off the {'supplied values' if bad_pin[b] else 'limits'} (by {-min(mg[b], pin[b]):.4g}) is admitted ({label})"[:400],
                          path=ex.path_repr(res, b), label=label)
        else:
            out.violation("over-restrictive", f"a path within all bands and limits is rejected by {res.violated(b)[:3]} ({label})"[:400],
                          path=ex.path_repr(res, b), label=label)
        return False
    out.validated += int(judged.sum())
    return True


def rep_paths(base, n=3):
    """Some evaluated paths, admissible ones first."""
    good = np.nonzero(base.res.ok & (base.margin() >= -1e-9))[0]
    return [int(good[i]) for i in np.linspace(0, len(good) - 1, n).astype(int)]


def run_job(job, out):
    with impl.scratch_dir() as d, impl.in_dir(d):
        globals()["do_" + job["mode"]](job, out, d)


def do_forms(job, out, d):
    base = Base(rules.OFF_LIMITS, ps=PS if job["deep"] else dict(PS, k=1))
    mg = base.margin()
    var = job["var"]
    n = 0
    for li, layout in enumerate(LAYOUTS):
        for fi, form in enumerate(FORMS):
            b = rep_paths(base, 9)[(li + fi) % 9]
            tab = {r: table_for(layout, base.years, s) for r, s in base.series(var, b).items()}
            want = {r: reference(ys, vs, base.years) for r, (ys, vs) in tab.items()}
            ys = next(iter(tab.values()))[0]
            n += 1
            if form == "csv one file":
                # the table of several variables; only one is pinned
                others = {v: {r: (ys, np.linspace(1, 5, len(ys))) for r in tab} for v in ("NPV", "utility", "regional_emission") if v != var}
                path = os.path.join(d, f"all {n}.csv")
                write_csv(path, {**others, var: tab})
                entry = path
            else:
                entry = give(form, var, tab, d, n)
            res = base.simulated(sim({var: entry}))
            verdicts(out, base, res, mg, base.pin_margin(var, want), f"{var}, {form}, {layout}")
            out.tag("interpolated years", sum(y not in ys for y in base.years if y <= ys[-1]))
            out.tag("continued years", sum(y > ys[-1] for y in base.years))
            if "Global" in tab:
                out.tag("global pin")
    out.sample(pinned=var, tables=n)


def do_cells(job, out, d):
    """The pin table deviates from a path in one cell."""
    base = Base(rules.OFF_LIMITS, time=(2020, 2100, 20), ps={"kind": "switch", "k": 1, "alphabet": [0.0, 0.45, 1.1]})
    mg = base.margin()
    var = job["var"]
    b = rep_paths(base, 5)[3]
    ser = base.series(var, b)
    for r in ser:
        for t in range(len(base.years)):
            for k in (-1.1, -0.9, 0.0, 0.9, 1.1):
                tab = {q: (list(base.years), np.array(s) + (k * EPS * (np.arange(len(s)) == t) if q == r else 0)) for q, s in ser.items()}
                want = {q: v for q, (_, v) in tab.items()}
                res = base.simulated(sim({var: give("dict", var, tab, d)}))
                pin = base.pin_margin(var, want)
                assert (pin[b] > 0) == (abs(k) < 1)
                if not verdicts(out, base, res, mg, pin, f"{var} deviating by {k} tolerances in {base.years[t]:g} for {r}"):
                    return
                out.tag("cell deviations")


def do_free(job, out, d):
    for trade in (False, True):
        base = Base(LIMITED + (TRADE if trade else []), time=(2020, 2120 if trade else 2140, 20),
                    ps=TPS if trade else FULL if job["deep"] else PS)
        plain = base.margin()
        for sub in job["subsets"]:
            mg = base.margin(sub)
            # without pinned variables
            res = base.simulated(sim({}, list(sub)))
            inf = np.full(res.B, 1.0)
            verdicts(out, base, res, mg, inf, f"freed {sub}")
            gain = base.res.ok & (mg >= -1e-9) & (plain < -rules.TIE)
            out.tag("freed", gain.sum())
            # with one pinned to a path that is only admissible because of the freed limits
            if gain.any():
                b = int(np.nonzero(gain)[0][len(sub) % gain.sum()])
                tab = {r: (list(base.years), s) for r, s in base.series("relative_abatement", b).items()}
                res = base.simulated(sim({"relative_abatement": give("csv", "relative_abatement", tab, d)}, list(sub)))
                verdicts(out, base, res, mg, base.pin_margin("relative_abatement", {r: v for r, (_, v) in tab.items()}), f"pinned, freed {sub}")
                res = base.simulated(sim({"relative_abatement": give("dict", "relative_abatement", tab, d)}, None))
                verdicts(out, base, res, plain, base.pin_margin("relative_abatement", {r: v for r, (_, v) in tab.items()}), f"pinned, nothing freed")


def do_pairs(job, out, d):
    base = Base(rules.OFF_LIMITS, ps=PS if job["deep"] else dict(PS, k=1))
    mg = base.margin()
    k0, n = job["part"]
    combos = list(itertools.combinations(REGIONAL + GLOBAL, 2))
    if job["deep"]:
        combos += list(itertools.combinations(REGIONAL + GLOBAL, 3))
    for i, vs in list(enumerate(combos))[k0::n]:
        reps = rep_paths(base, 7)
        for same in (True, False):
            entries, pin, tabs = {}, np.full(base.res.B, np.inf), {}
            for j, v in enumerate(vs):
                b = reps[i % 7] if same else reps[(i + j) % 7]
                tabs[v] = {r: table_for("every 5 years", base.years, s) for r, s in base.series(v, b).items()}
                want = {r: reference(ys, x, base.years) for r, (ys, x) in tabs[v].items()}
                pin = np.minimum(pin, base.pin_margin(v, want))
            if i % 3 == 0:              # one file
                write_csv("both.csv", tabs)
                entries = {v: os.path.join(d, "both.csv") for v in vs}
            elif i % 3 == 1:            # relative names, one file each
                for j, v in enumerate(vs):
                    write_csv(f"f{j}.csv", {v: tabs[v], vs[j - 1]: {r: (t[0], np.array(t[1]) + 1) for r, t in tabs[vs[j - 1]].items()}})
                    entries[v] = f"f{j}.csv"
            else:
                entries = {v: give(("dict", "csv")[j % 2], v, tabs[v], d, j) for j, v in enumerate(vs)}
            res = base.simulated(sim(entries))
            verdicts(out, base, res, mg, pin, f"{vs} pinned to {'one path' if same else 'different paths'}")
            out.tag("pairs pinned")


def do_named(job, out, d):
    """Every named constraint of every module selection, freed: exactly it is gone."""
    k0, n = job["part"]
    confs = [LIMITED, c24.BASES[1] + LIMITED, c24.BASES[2], [(M("financialtransfer"), "globaldamagepool"), (("effort sharing", "regime"), "equal_mitigation_costs")],
             [(("effort sharing", "regime"), "equal_total_costs"), (("economics", "damages", "coacch_combined_slr_nonslr_damages"), True),
              (M("emissiontrade"), "globalcostpool")],
             [(M("emissiontrade"), "emissiontrade"), (M("welfare"), "inequal_aversion_general"), (M("damage"), "nodamage")],
             [(M("welfare"), "cost_minimising"), (M("objective"), "globalcosts"), (("economics", "MAC", "LOT_rate"), 0.01)]]
    for ci, sets in enumerate(confs):
        sp = ex.spec(["USA", "INDIA"], (2020, 2140, 20), sets)
        m = ex.build(sp)[2]
        B = Compiled(m)
        comp = {}
        for con in B.con:
            comp.setdefault(con["data"].parent_component().local_name, []).append(con["name"])
        names = sorted(x[len("constraint_"):] for x in comp if x.startswith("constraint_"))
        todo = [(x,) for x in names]
        if job["deep"]:
            todo += list(itertools.combinations(names, 2))
        else:
            todo += [(names[i], names[(i * 7 + 3) % len(names)]) for i in range(len(names))] + [tuple(names)]
        want0 = {c["name"] for c in B.con}
        for sel in todo[k0::n]:
            ms = ex.build(ex.spec(["USA", "INDIA"], (2020, 2140, 20), sets + sim({}, list(sel))))[2]
            S = Compiled(ms)
            want = want0 - {x for s in sel for x in comp["constraint_" + s]}
            have = {c["name"] for c in S.con}
            out.states += 1
            out.cases += 1
            out.tag("constraints freed one by one")
            if have != want:
                out.violation("limits freed", f"freeing {list(sel)} leaves {sorted(have - want)[:3]} and removes {sorted(want - have)[:3]} (configuration {ci})"[:400],
                              freed=list(sel))
                continue
            # the rest is unchanged: residuals and ranges at probe states
            X = np.array([[0.2 + 0.6 * ((i * 37 + k * 11) % 101) / 101 for k in range(3)] for i in range(B.n)])
            if [v.name for v in B.vars] != [v.name for v in S.vars]:
                out.violation("limits freed", f"freeing {list(sel)} changes the variables", freed=list(sel))
                continue
            bi = {c["name"]: i for i, c in enumerate(B.con)}
            rest = [bi[c["name"]] for c in S.con]
            fb, fs = B.eval_bodies(X, rest), S.eval_bodies(X)
            lim = [(B.con[i]["lo"], B.con[i]["up"]) == (c["lo"], c["up"]) for i, c in zip(rest, S.con)]
            if not np.allclose(fb, fs, rtol=1e-12, atol=0, equal_nan=True) or not all(lim) or (B.lb != S.lb).any() or (B.ub != S.ub).any():
                out.violation("limits freed", f"freeing {list(sel)} changes other equations or bounds", freed=list(sel))


def do_off(job, out, d):
    """With the mode off nothing has an effect."""
    entries = [sim({"relative_abatement": {2020 + 10 * k: {"USA": 0.3, "INDIA": 0.1} for k in range(10)}}, None, False),
               sim({"no such variable": "no such file.csv"}, ["no_such_limit"], False), sim({}, ["carbon_budget", "regional_inertia"], False),
               sim({"temperature": "missing.csv", "GDP_gross": {2020: {"XYZ": 1}}}, ["global_min_level"], False),
               sim(None, None, False), sim(None, None, True), sim({}, [], True)]
    for sets in ([], LIMITED, c24.BASES[1], c24.BASES[2]):
        for raw in (True, False):
            mk = lambda s: signature(ex.build(ex.spec(["USA", "INDIA"], GRID, sets + s), raw=raw)[2])
            ref = mk([])
            for e in entries:
                diff = difference(ref, mk(e))
                out.states += 1
                out.cases += 1
                out.tag("mode off")
                if diff:
                    out.violation("mode off", f"entries without simulation mode change the model: {diff} ({e})"[:400])


def do_faulty(job, out, d):
    years = list(range(2020, 2121, 10))
    good = {y: {"USA": 0.3, "INDIA": 0.1} for y in years}
    tab = {r: (years, [0.1] * len(years)) for r in ("USA", "INDIA")}
    write_csv("ok.csv", {"relative_abatement": tab})
    write_csv("one region.csv", {"relative_abatement": {"USA": tab["USA"]}})
    write_csv("global row.csv", {"relative_abatement": {"Global": tab["USA"]}})
    write_csv("other variable.csv", {"carbonprice": tab})
    write_csv("regions for global.csv", {"temperature": tab})
    faults = {"unknown variable": (dict(nosuch=good), None), "unknown variable from a file": (dict(nosuch="ok.csv"), None),
              "unknown variable next to a known one": (dict(relative_abatement=good, nosuch="ok.csv"), None),
              "unknown limit": ({}, ["no_such_limit"]), "unknown limit after a known one": ({}, ["regional_inertia", "no_such_limit"]),
              "full component name as limit": ({}, ["constraint_regional_inertia"]), "misspelled limit": ({}, ["carbon budget"]),
              "limit of a switched-off setting": ({}, ["global_inertias"]), "empty limit name": ({}, [""]),
              "region without values": (dict(relative_abatement={y: {"USA": 0.3} for y in years}), None),
              "region without a row": (dict(relative_abatement="one region.csv"), None),
              "global row for a regional variable": (dict(relative_abatement="global row.csv"), None),
              "regional rows for a global variable": (dict(temperature="regions for global.csv"), None),
              "file without the variable": (dict(relative_abatement="other variable.csv"), None),
              "missing file": (dict(relative_abatement="missing.csv"), None), "pattern without match": (dict(relative_abatement="miss*.csv"), None),
              "second variable without values": (dict(relative_abatement="ok.csv", carbonprice="ok.csv"), None)}
    for sets in ([], c24.BASES[1], c24.BASES[2]):
        for what, (cv, lim) in faults.items():
            exc = None
            try:
                ex.build(ex.spec(["USA", "INDIA"], GRID, sets + sim(cv, lim)), raw=False)
            except Exception as e:
                exc = e
            out.states += 1
            out.cases += 1
            if exc is None:
                out.violation("not reported:" + what, f"{what} builds a model without error", entry=str(cv)[:100], limits=lim)
            else:
                out.tag("faulty entries reported")
        # one blank cell, at every place; in a region that is not modelled it does not matter
        for form, reg, k in itertools.product(("csv", "dict"), ("USA", "INDIA", "BRA"), range(len(years))):
            v = {r: [0.1 * (y % 40) / 40 for y in years] for r in ("BRA", "USA", "INDIA")}
            v[reg][k] = None
            if form == "csv":
                with open("blank.csv", "w", newline="") as fh:
                    csv.writer(fh).writerows([["Variable", "Region", "Unit", *years]] + [["relative_abatement", r, "x", *x] for r, x in v.items()])
                e = "blank.csv"
            else:
                e = {y: {r: x[j] for r, x in v.items() if x[j] is not None} for j, y in enumerate(years)}
            exc = None
            try:
                ex.build(ex.spec(["USA", "INDIA"], (2020, 2060, 20), sets + sim(dict(relative_abatement=e))), raw=False)
            except Exception as x:
                exc = x
            out.states += 1
            if (exc is None) != (reg == "BRA"):
                out.violation("not reported:blank cell" if exc is None else "blank cell elsewhere",
                              f"blank value of {reg} in {years[k]} ({form}): {exc!r}"[:300])
            else:
                out.tag("blank cells")
        ex.build(ex.spec(["USA", "INDIA"], GRID, sets + sim(dict(relative_abatement="ok.csv"), ["regional_inertia"])), raw=False)
        ex.build(ex.spec(["USA", "INDIA"], GRID, sets + sim(dict(relative_abatement=good), [])), raw=False)


def do_saved(job, out, d):
    """A saved output is pinned again: its own path is admitted, others are not."""
    base = Base(rules.OFF_LIMITS, time=(2020, 2150, 20), ps=dict(PS, k=1))
    mg = base.margin()
    mo = impl.build(ex.params_of(base.sp), raw=False)
    m = mo.concrete_model
    import pyomo.environ as pyo
    for n, b in enumerate(rep_paths(base, 6)):
        for v in m.component_data_objects(pyo.Var, descend_into=False):
            k = base.C.key2i.get((v.parent_component().local_name, v.index() if isinstance(v.index(), tuple) else (v.index(),)))
            if k is not None and np.isfinite(base.res.X[k][b]):
                v.set_value(float(base.res.X[k][b]), skip_validation=True)
        with impl.quiet():
            mo.save(f"run{n}", folder="out")
        for vs in (["relative_abatement"], ["carbonprice"], ["regional_emissions", "temperature"], ["global_emissions", "cumulative_emissions"]):
            digits = {v: {r: np.array([float(f"{x:.6g}") for x in y]) for r, y in base.series(v, b).items()} for v in vs}
            pin = np.min([base.pin_margin(v, digits[v]) for v in vs], axis=0)
            res = base.simulated(sim({v: f"out/run{n}.csv" for v in vs}))
            verdicts(out, base, res, mg, pin, f"own output, {vs}")
            out.tag("own saved output")
