"""C09: a model depends only on its parameters, not on earlier models in the process."""
import copy
import csv
import itertools
import os
import re

import pyomo.environ as pyo

from mc import config as cf, impl, signature as sg
from mc.checks.c03 import in_fork

PROPERTY = "C09"
FRESH = True
BOUNDS = {
    "quick": "all sequences of 3 operations (2 for preprocessed models) out of 13 (build of 8 different configurations, failing construction, failing data, use of an earlier model: "
             "save, solve crash, post-processing), each history in one process; every model built (before and after preprocessing) is compared with the "
             "same model built first in a fresh process, and all earlier models are compared with themselves after every operation; all sequences of 3 builds over 9 configurations that "
             "read other files (same names in other folders), rows, columns, units or mappings, each sequence in its own process",
    "thorough": "as quick with sequences of 4 (3 for preprocessed models) operations",
}
ASSUMPTIONS = ["data and parameter files do not change while the process runs"]
REQUIRED_TAGS = ["histories", "equal to fresh", "earlier models unchanged", "failed construction", "crashed solve", "saved", "file histories"]
GRID = [(("time", "start"), 2020), (("time", "end"), 2040), (("time", "dt"), 10)]


def R(*names, **manual):
    return [(("regions",), {n: copy.deepcopy(manual.get(n, {})) for n in names})]


CONF = {
    "base": GRID + R("CAN", "BRA"),
    "ssp": GRID + R("CAN", "BRA") + [(("SSP",), "SSP5")],
    "grid": [(("time", "start"), 2015), (("time", "end"), 2036), (("time", "dt"), 7)] + R("BRA", "CAN"),
    "trade": GRID + R("USA", "CAN") + [(("model", "emissiontrade module"), "globalcostpool"), (("model", "financialtransfer module"), "globaldamagepool"),
                                       (("effort sharing", "regime"), "equal_total_costs"), (("model", "welfare module"), "cost_minimising")],
    "single": GRID + R("BRA", BRA={"MAC": {"kappa_rel_abatement_0.75_2050": 2.0}}) + [(("economics", "damages", "quantile"), 0.95)],
    "file": GRID + R("CAN", "BRA") + [(("input", "variables", v), {"variable": n, "unit": u, "scenario": "SSP1-Ref-SPA0-V17", "model": "IMAGE",
                                                                   "file": "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"})
                                      for v, n, u in (("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"),
                                                      ("population", "Population", "population_unit"))]
            + [(("economics", "damages", "coacch_combined_slr_nonslr_damages"), True)],
    "simulation": GRID + R("CAN", "BRA") + [(("simulation", "simulationmode"), True), (("simulation", "deactivated_constraints"), ["emissiontrade_x"][:0]),
                                            (("simulation", "constraint_variables"), {"relative_abatement": {y: {"CAN": .1, "BRA": .2} for y in (2020, 2025, 2030, 2040)}}),
                                            (("simulation", "custom_mapping"), {"MAC_scaling_factor": {"CAN": 3.0, "BRA": 4.0}})],
    "nodamage": GRID + R("CAN", "BRA") + [(("model", "damage module"), "nodamage"), (("model", "objective module"), "globalcosts"),
                                          (("economics", "MAC", "regional calibration factor"), "kappa_carbonprice_200_2030"), (("emissions", "carbonbudget"), "700 GtCO2")],
}
OPS = list(CONF) + ["invalid", "baddata", "save", "solve", "post"]


def jobs(tier):
    d = 4 if tier == "thorough" else 3
    F = [{"mode": "files", "first": [a], "depth": d, "cost": 3} for a in FILES]
    return F + [{"mode": "history", "first": [a], "depth": d if raw else d - 1, "raw": raw, "cost": 10 if raw else 5} for a in OPS for raw in (True, False)]


FILES = ["base", "data copy", "data other folder", "data other rows", "data other unit", "table other folder", "table of other regions", "map other folder",
         "coefficient other column"]


def file_configs(d):
    """Configurations that differ in the files they read: same names in other folders, other rows of the same file, other units of the same row."""
    def table(src, dst, change):
        dst = os.path.join(d, dst, os.path.basename(src))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(os.path.join(impl.PKG, src), newline="", encoding="utf8") as fh:
            rows = list(csv.reader(fh))
        with open(dst, "w", newline="", encoding="utf8") as fh:
            csv.writer(fh).writerows([rows[0]] + [change(dict(zip(rows[0], r)), r) for r in rows[1:]])
        return dst

    def scale(k):
        def f(row, r):
            out = []
            for x in r:
                try:
                    out.append(repr(float(x) * k))
                except ValueError:
                    out.append(x)
            return out
        return f
    D = "inputdata/data/data_IMAGE_SSP.csv"
    dflt = cf.defaults()
    var = {"population": ("Population", "population_unit"), "GDP": ("GDP|PPP", "currency_unit"), "emissions": ("Emissions|CO2", "emissionsrate_unit")}

    def src(file, only=tuple(var), **over):
        return [(("input", "variables", v), dict({"variable": var[v][0], "unit": var[v][1], "scenario": "SSP2-Ref-SPA0-V17", "model": "IMAGE", "file": file}, **over))
                for v in only]
    base = GRID + R("CAN", "USA", "BRA")
    files = dflt["regional_parameter_files"]
    eco = files["economics"]
    coacch = [m for m in dflt["regionsmappings"] if "COACCH" in (m["regionstype1"], m["regionstype2"])][0]

    def swapped(row, r):
        sw = {"CAN": "USA", "USA": "CAN"}
        return [sw.get(v, v) if k == "IMAGE26" else v for k, v in row.items()]
    C = {"base": base,
         "data copy": base + src(table(D, "a", scale(1))),
         "data other folder": base + src(table(D, "b", scale(1.25))),
         "data other rows": base + src(D, ["GDP", "emissions"], scenario="SSP4-Ref-SPA0-V17"),
         "data other unit": base + src(D, ["GDP"], unit="currency_unit") + src(D, ["population"], unit="billion") + src(D, ["emissions"], unit="GtCO2/yr"),
         "table other folder": base + [(("regional_parameter_files",), dict(files, economics=dict(eco, filename=table(eco["filename"], "c", scale(1.5)))))],
         "table of other regions": base + [(("regional_parameter_files",),
                                            dict(files, economics=dict(eco, filename=table(eco["filename"], "e", lambda row, r: r), regionstype="ANY"))),
                                           (("regionsmappings",), dflt["regionsmappings"] + [
                                               {"regionstype1": "ANY", "regionstype2": "IMAGE26", "conversiontable": any_map(d)}])],
         "map other folder": base + [(("regionsmappings",), [dict(m, conversiontable=table(m["conversiontable"], "f", swapped)) if m == coacch else m
                                                             for m in dflt["regionsmappings"]])],
         "coefficient other column": base + [(("economics", "MAC", "regional calibration factor"), "kappa_carbonprice_500_2050")]}
    assert list(C) == FILES
    return C


def any_map(d):
    """A mapping table under which the three regions are rotated."""
    f = os.path.join(d, "any.csv")
    with open(f, "w", newline="", encoding="utf8") as fh:
        csv.writer(fh).writerows([("ANY", "IMAGE26"), ("CAN", "USA"), ("USA", "BRA"), ("BRA", "CAN")])
    return f


def run_files(spec, out):
    """All sequences of builds of configurations that read different files, rows or units."""
    with impl.scratch_dir() as d:
        C = file_configs(d)
        ref = {}
        for n in C:
            got = in_fork(lambda: observe(impl.build(cf.nest(C[n]))))
            if got[0] != "ok":
                out.violation("fresh build fails", f"{n}: {got[1]}")
                return
            ref[n] = got[1]
            if n not in ("base", "data copy", "data other unit") and sg.difference({k: v for k, v in ref[n].items() if k != "parameters"},
                                                                                   {k: v for k, v in ref["base"].items() if k != "parameters"}) is None:
                out.violation("fresh build equals base", f"{n}: reading other values gives the same model")
        for rest in itertools.product(FILES, repeat=spec["depth"] - 1):
            seq = tuple(spec["first"]) + rest

            def history(seq=seq):
                bad = []
                models = []
                for op in seq:
                    mo = impl.build(cf.nest(C[op]))
                    got = observe(mo)
                    df = sg.difference(got, ref[op])
                    if df:
                        bad.append(("model depends on history", f"model '{op}' after {seq}: {df}"[:400]))
                    models.append((op, mo, got))
                for op, mo, got in models:
                    df = sg.difference(observe(mo), got)
                    if df:
                        bad.append(("earlier model changed", f"model '{op}' changed in {seq}: {df}"[:400]))
                return bad
            res = in_fork(history)
            out.states += len(seq)
            out.transitions += len(seq)
            out.cases += 1
            if res[0] != "ok":
                out.violation("history fails", f"{seq}: {res[1]}"[:400], history=seq)
                continue
            for k, text in res[1]:
                out.violation(k, text, history=seq)
            out.validated += len(seq)
            out.tag("file histories")
        out.sample(history=seq, configurations=FILES)


def observe(mo):
    s = sg.signature(mo.concrete_model)
    s["parameters"] = repr(mo.params)
    # generated labels (temporary files etc.) do not belong to the model
    return s


def fresh(name, raw):
    return in_fork(lambda: observe(impl.build(cf.nest(CONF[name]), raw=raw)))


def values(m):
    return {v.name: v.value for v in m.component_data_objects(pyo.Var)}


def run_job(spec, out):
    if spec["mode"] == "files":
        return run_files(spec, out)
    raw = spec["raw"]
    ref = {}
    for n in CONF:
        got = fresh(n, raw)
        if got[0] != "ok":
            out.violation("fresh build fails", f"{n}: {got[1]}")
            return
        ref[n] = got[1]
    with impl.scratch_dir() as d:
        for rest in itertools.product(OPS, repeat=spec["depth"] - 1):
            seq = tuple(spec["first"]) + rest
            if seq[-1] not in CONF and not any(x in CONF for x in seq):
                continue
            models = []
            for op in seq:
                out.transitions += 1
                out.states += 1
                if op in CONF:
                    mo = impl.build(cf.nest(CONF[op]), raw=raw)
                    got = observe(mo)
                    df = sg.difference(got, ref[op])
                    if df:
                        out.violation("model depends on history", f"model '{op}' after {seq}: {df}"[:400], history=seq)
                    else:
                        out.tag("equal to fresh")
                        out.validated += 1
                    models.append([op, mo, got])
                elif op == "invalid":
                    cfg = cf.nest(CONF["trade"] + [(("economics", "elasmu"), 99), (("SSP",), "SSP3")])
                    failing(out, cfg)
                elif op == "baddata":
                    failing(out, cf.nest(CONF["ssp"] + [(("input", "variables", "population"), {
                        "variable": "Population", "unit": "population_unit", "scenario": "none", "model": "IMAGE", "file": "inputdata/data/data_IMAGE_SSP.csv"})]))
                elif models:
                    name, mo, got = models[0]
                    if op == "save":
                        m = mo.concrete_model
                        keep = [(v, v.value) for v in m.component_data_objects(pyo.Var)]
                        for v, x in keep:
                            v.set_value(0.5, skip_validation=True)
                        with impl.quiet():
                            mo.save("h", folder=d, hash_suffix=len(models) > 1)
                        for v, x in keep:
                            v.set_value(x, skip_validation=True)
                        out.tag("saved")
                    elif op == "solve":
                        # the local solver is not available: the attempt crashes
                        path = os.environ["PATH"]
                        os.environ["PATH"] = d
                        try:
                            with impl.quiet():
                                mo.solve(verbose=False)
                            out.tag("solve without solver")
                        except Exception:
                            out.tag("crashed solve")
                        finally:
                            os.environ["PATH"] = path
                    elif op == "post" and not raw:
                        models[0][2] = None      # its variables legitimately change
                        with impl.quiet():
                            mo.postprocessing()
                for name, mo, got in models:
                    if got is not None:
                        df = sg.difference(observe(mo), got)
                        if df:
                            out.violation("earlier model changed", f"model '{name}' changed by {op} in {seq}: {df}"[:400], history=seq)
                        else:
                            out.tag("earlier models unchanged")
            out.cases += 1
            out.tag("histories")
    out.sample(history=seq, preprocessed=not raw)


def failing(out, cfg):
    try:
        impl.build(cfg)
        out.violation("accepted", "invalid configuration accepted")
    except Exception:
        out.tag("failed construction")
