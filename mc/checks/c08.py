"""C08: the time grid covers the requested horizon and labels years correctly."""
import csv
import os
from fractions import Fraction as F

import numpy as np
import pyomo.environ as pyo

from mc import config as cf, impl, ref

PROPERTY = "C08"
BOUNDS = {
    "quick": "starts 2010-2100 (7) x horizons 1-190 years (16) x steps 0.5-20 (24, incl. fractional, not dividing, longer than the horizon), grids up to 40 "
             "steps: number of steps, index of every time-dependent quantity, baseline data of each year; for every grid up to 16 steps the exported "
             "table of a model whose variables hold the year number",
    "thorough": "as quick with grids up to 200 steps and 60 steps sizes",
}
ASSUMPTIONS = ["years whose label needs more than 6 significant digits are not judged for the export labels", "horizons inside 2010-2200"]
REQUIRED_TAGS = ["grids", "dividing", "not dividing", "fractional", "step longer than horizon", "export columns"]
STARTS = [2010, 2015, 2020, 2023, 2050, 2099, 2100]
SPANS = [1, 2, 3, 4, 5, 7, 10, 13, 20, 21, 33, 42, 50, 80, 100, 190]
DTS = ["0.5", "0.6", "0.7", "0.75", "0.8", "0.9", "1", "1.25", "1.4", "1.5", "2", "2.2", "2.5", "3", "3.5", "4", "5", "6.25", "7", "8", "10", "12.5", "15", "20"]
NAMES = {"population": "population", "baseline_GDP": "GDP", "baseline_emissions": "emissions"}


def jobs(tier):
    deep = tier == "thorough"
    dts = DTS if not deep else DTS + [str(x / 100) for x in range(52, 2000, 54)]
    return [{"start": s, "dt": d, "max": 200 if deep else 40, "cost": 20 / float(F(d))} for s in STARTS for d in dts]


def grid(start, end, dt):
    n, ys = 0, []
    while True:
        y = F(start) + n * F(dt)
        ys.append(y)
        if y >= end:
            return ys
        n += 1


def run_job(spec, out):
    tabs = ref.Tables(impl.PKG)
    dt = F(spec["dt"])
    regs = ["CAN", "BRA"] if spec["start"] % 2 == 0 else ["WEU"]
    for span in SPANS:
        end = spec["start"] + span
        ys = grid(spec["start"], end, dt)
        if end > 2200 or len(ys) > spec["max"] or end < 1901:
            continue
        T = len(ys)
        what = f"start {spec['start']} end {end} step {spec['dt']}"
        export = T <= 16
        value = float(dt) if dt.denominator > 1 or span % 2 else int(dt)
        mo = impl.build(cf.nest([(("time", "start"), spec["start"]), (("time", "end"), end), (("time", "dt"), value), (("regions",), {r: {} for r in regs})]),
                        raw=not export)
        m = mo.concrete_model
        out.states += T
        out.cases += 1
        out.tag("grids")
        out.tag("dividing" if span % dt == 0 else "not dividing")
        if dt.denominator > 1:
            out.tag("fractional")
        if dt > span:
            out.tag("step longer than horizon")
        n = len(getattr(m, "population").extract_values()) // len(regs)
        if n != T:
            out.violation("wrong number of steps", f"{what}: {n} years instead of {T} ({float(ys[0]):g}..{float(ys[-1]):g})")
            continue
        for comp in list(m.component_objects(pyo.Var)) + list(m.component_objects(pyo.Param)):
            if comp.is_indexed():
                idx = [k if isinstance(k, tuple) else (k,) for k in comp.index_set()]
                if idx and all(isinstance(k[0], (int, float)) and not isinstance(k[0], bool) for k in idx):
                    out.transitions += 1
                    ts = sorted({k[0] for k in idx})
                    if ts != list(range(T)):
                        out.violation("quantity off the grid", f"{what}: {comp.name} is defined for {len(ts)} of {T} years")
        yf = np.array([float(y) for y in ys])
        for name, var in NAMES.items():
            got = getattr(m, name).extract_values()
            for r in regs:
                w = tabs.baseline("inputdata/data/data_IMAGE_SSP.csv", "SSP2-Ref-SPA0-V17", r, ref.VARNAMES[var], yf)
                a = np.array([got[t, r] for t in range(T)], float)
                out.transitions += T
                if not np.allclose(a, w, rtol=1e-7, atol=1e-12):
                    i = int(np.argmax(~np.isclose(a, w, rtol=1e-7)))
                    out.violation("wrong year", f"{what}: {name}[{r}] of step {i} is not that of {yf[i]:g}")
        out.validated += 1
        if export:
            table(spec, out, mo, m, ys, what)
    out.sample(start=spec["start"], dt=spec["dt"], last_grid=[float(y) for y in ys[:3]] + [float(ys[-1])])


def table(spec, out, mo, m, ys, what):
    for v in m.component_data_objects(pyo.Var):
        k = v.index()
        t = k[0] if isinstance(k, tuple) else k
        v.set_value(float(ys[t]), skip_validation=True)
    with impl.scratch_dir() as d, impl.quiet():
        mo.save("x", folder=d)
        files = [f for f in os.listdir(d) if f.endswith(".csv")]
        with open(os.path.join(d, files[0]), newline="") as fh:
            rows = list(csv.reader(fh))
    head = rows[0]
    labels = []
    for h in head:
        try:
            labels.append((head.index(h), float(h)))
        except ValueError:
            pass
    fine = all((y * 100).denominator == 1 for y in ys)
    if not fine:
        out.tag("labels not judged")
        return
    out.tag("export columns", len(labels))
    if [y for _, y in labels] != [float(y) for y in ys]:
        out.violation("wrong labels", f"{what}: exported columns {[h for h in head][3:8]}.. instead of {[float(y) for y in ys][:5]}..")
        return
    names = {v.name for v in m.component_objects(pyo.Var)}
    seen = 0
    for r in rows[1:]:
        if r[0] in names:
            for i, y in labels:
                out.transitions += 1
                if float(r[i]) != y:
                    out.violation("wrong column", f"{what}: exported {r[0]} of {r[1]} in column {head[i]} is that of {r[i]}")
                    return
            seen += 1
    if not seen:
        out.violation("wrong labels", f"{what}: no variable exported")
