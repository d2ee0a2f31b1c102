"""C06: baseline population, GDP and emissions follow the chosen scenario data."""
import csv
import itertools
import os

import numpy as np

from mc import config as cf, impl, ref

PROPERTY = "C06"
FRESH = True
BOUNDS = {
    "quick": "5 scenarios x 2 shipped data files x 26 regions x 3 variables on 4 grids, 12 further grids (steps 0.5-20, starts 2010-2100, ends to 2200) "
             "on region subsets, each region alone and left out, every scenario/file mix of the 3 variables (2^3 files x 25), all sequences of 3 builds "
             "out of 7 data selections in one process, user data files (row orders, look-alike rows, missing and duplicate rows)",
    "thorough": "as quick with all grids on all regions and sequences of 4 builds",
}
ASSUMPTIONS = ["horizons inside 2010-2200, which the shipped data (2010-2100 and the documented fading) covers",
               "the smooth cubic interpolation is the not-a-knot cubic spline through the data and extrapolated decades"]
REQUIRED_TAGS = ["values compared", "values after last data year", "values at data years", "mixed sources", "build sequences", "user file", "bad file rejected"]
FILES = ["inputdata/data/data_IMAGE_SSP.csv", "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"]
SSPS = [f"SSP{i}" for i in range(1, 6)]
NAMES = {"GDP": "baseline_GDP", "emissions": "baseline_emissions", "population": "population"}
GRIDS = [(2020, 2150, 10), (2010, 2100, 10), (2013, 2200, 20), (2025, 2110, 7),
         (2020, 2150, 5), (2010, 2200, 1), (2095, 2120, 0.5), (2012, 2090, 2.5), (2099, 2101, 0.5), (2100, 2200, 20), (2090, 2200, 3), (2011, 2012, 0.5),
         (2020, 2100, 20), (2050, 2103, 8), (2015, 2199, 9.5), (2019, 2151, 12)]
SUB = [["CAN", "BRA"], ["WEU", "CHN", "RSAF"], ["INDIA"], ["USA", "ME", "OCE", "RUS"]]


def all_regions():
    return list(impl.default_tree()["regions"]["default"])


def jobs(tier):
    J = []
    R = all_regions()
    for i, s in enumerate(SSPS):
        for j, f in enumerate(FILES):
            for g in (GRIDS if tier == "thorough" else [GRIDS[(i + j) % 4], GRIDS[(i + j + 2) % 4]]):
                J.append({"mode": "grid", "builds": [[s, f, list(g), R]], "cost": 20})
            J.append({"mode": "grid", "builds": [[s, f, list(g), SUB[(k + i) % 4]] for k, g in enumerate(GRIDS[4:])], "cost": 15})
    for k in range(0, 26, 7):
        J.append({"mode": "grid", "builds": [[SSPS[n % 5], FILES[n % 2], [2020, 2120, 20], [R[n]]] for n in range(k, min(26, k + 7))], "cost": 4})
        J.append({"mode": "grid", "builds": [[SSPS[n % 5], FILES[n % 2], [2020, 2060, 20], [r for r in R if r != R[n]]]
                                             for n in range(k, min(26, k + 7), 3)], "cost": 9})
    J += [{"mode": "mix", "files": list(fs), "cost": 8} for fs in itertools.product((0, 1), repeat=3)]
    J += [{"mode": "sequence", "first": i, "depth": 4 if tier == "thorough" else 3, "cost": 12} for i in range(7)]
    J += [{"mode": "user"}, {"mode": "paths"}]
    return J


def source(var, file, scenario):
    d = dict(dict(cf.leaves())[("input", "variables", var)]["default"])
    d["file"] = file
    if scenario is not None:
        d["scenario"] = scenario
    return d


def years_of(g):
    n = int(np.ceil((g[1] - g[0]) / g[2])) + 1
    return g[0] + g[2] * np.arange(n)


def config(g, regs, ssp, srcs):
    return cf.nest([(("time", "start"), g[0]), (("time", "end"), g[1]), (("time", "dt"), g[2]), (("SSP",), ssp),
                    (("regions",), {r: {} for r in regs})] + [(("input", "variables", v), s) for v, s in srcs.items()])


def check(out, mo, g, regs, want, what):
    """want(var, region, years) -> values in internal units"""
    m = mo.concrete_model
    ys = years_of(g)
    for var, name in NAMES.items():
        got = {k: float(v) for k, v in getattr(m, name).extract_values().items()}
        ts = sorted({k[0] for k in got})
        out.transitions += len(got)
        if len(ts) != len(ys) or set(got) != {(t, r) for t in ts for r in regs}:
            out.violation("wrong index", f"{what}: {name} is given for {len(ts)} years and regions {sorted({k[1] for k in got})}"[:300])
            continue
        for r in regs:
            a = np.array([got[t, r] for t in ts])
            w = want(var, r, ys)
            out.tag("values compared", len(a))
            out.tag("values after last data year", int((ys > 2100).sum()))
            out.tag("values at data years", int(((ys % 10 == 0) & (ys <= 2100)).sum()))
            bad = ~(np.abs(a - w) <= 1e-8 * np.abs(w) + 1e-12)
            if bad.any():
                i = int(np.argmax(bad))
                where = "after the last data year" if ys[i] > 2100 else "at a data year" if ys[i] % 10 == 0 else "between data years"
                out.violation("baseline differs from data " + where, f"{what}: {name}[{r}, {ys[i]:g}] = {a[i]!r}, data give {w[i]!r}")
    out.states += 1
    out.cases += 1
    out.validated += 1


TAB = None


def tables():
    global TAB
    TAB = TAB or ref.Tables(impl.PKG)
    return TAB


def reference(srcs):
    memo = {}

    def want(var, r, ys):
        f, s = srcs[var]
        return tables().baseline(f, s, r, ref.VARNAMES[var], ys)
    return want


def run_job(spec, out):
    {"grid": grid, "mix": mix, "sequence": sequence, "user": user, "paths": paths}[spec["mode"]](spec, out)


def grid(spec, out):
    for ssp, f, g, regs in spec["builds"]:
        default = f == FILES[0]
        srcs = {} if default else {v: source(v, f, None) for v in NAMES}
        mo = impl.build(config(g, regs, ssp, srcs))
        check(out, mo, g, regs, reference({v: (f, f"{ssp}-Ref-SPA0-V17") for v in NAMES}), f"{ssp} {os.path.basename(f)} {g} {regs[:3]}")
    out.sample(scenario=ssp, file=f, grid=g, regions=len(regs))


def mix(spec, out):
    g, regs = (2015, 2125, 10), ["BRA", "KOR"]
    for a, b in itertools.product(range(5), repeat=2):
        sc = {"GDP": SSPS[a], "emissions": SSPS[b], "population": SSPS[(a + 2 * b + 1) % 5]}
        fl = dict(zip(NAMES, (FILES[i] for i in spec["files"])))
        srcs = {v: source(v, fl[v], sc[v] + "-Ref-SPA0-V17") for v in NAMES}
        mo = impl.build(config(g, regs, "SSP2", srcs))
        check(out, mo, g, regs, reference({v: (fl[v], sc[v] + "-Ref-SPA0-V17") for v in NAMES}), f"sources {sc} {spec['files']}")
        out.tag("mixed sources")


SEL = [("SSP1", 0, (2020, 2060, 10), ["CAN", "BRA"]), ("SSP1", 1, (2020, 2060, 10), ["CAN", "BRA"]), ("SSP3", 0, (2020, 2060, 10), ["BRA", "CAN"]),
       ("SSP3", 0, (2020, 2130, 10), ["BRA", "USA"]), ("SSP5", 1, (2015, 2055, 5), ["USA"]), ("SSP1", None, (2020, 2060, 10), ["CAN", "BRA"]),
       ("SSP4", 0, (2033, 2060, 3), ["CAN"])]


def write_file(path, edit=lambda r, ix, k0: r, rows=None):
    head, body = ref.read_csv(os.path.join(impl.PKG, FILES[0]))
    low = [h.lower() for h in head]
    ix = {k: low.index(k) for k in ("model", "scenario", "region", "variable", "unit")}
    k0 = low.index("2010")
    body = [edit(list(r), ix, k0) for r in (rows(body) if rows else body)]
    with open(path, "w", newline="", encoding="utf8") as fh:
        csv.writer(fh).writerows([head] + [r for r in body if r is not None])


def scaled(r, ix, k0):
    r[k0:] = [repr(float(x) * (1.25 + 0.01 * i)) for i, x in enumerate(r[k0:])]
    return r


def sequence(spec, out):
    with impl.scratch_dir() as d:
        own = os.path.join(d, "data_IMAGE_SSP.csv")      # same file name, other folder, other values
        write_file(own, scaled)
        for rest in itertools.product(range(len(SEL)), repeat=spec["depth"] - 1):
            seq = (spec["first"],) + rest
            for k in seq:
                ssp, fi, g, regs = SEL[k]
                f = own if fi is None else FILES[fi]
                mo = impl.build(config(g, regs, ssp, {v: source(v, f, None) for v in NAMES}))
                check(out, mo, g, regs, reference({v: (f, f"{ssp}-Ref-SPA0-V17") for v in NAMES}), f"build {k} of sequence {seq}")
            out.tag("build sequences")
        out.sample(sequence=seq, selections=[str(s) for s in SEL])


def user(spec, out):
    g, regs = (2015, 2125, 10), ["BRA", "KOR"]
    sc = "SSP2-Ref-SPA0-V17"

    def build(path, scenario=sc, model="IMAGE"):
        return impl.build(config(g, regs, "SSP2", {v: dict(source(v, path, scenario), model=model) for v in NAMES}))

    with impl.scratch_dir() as d:
        good = {}
        good["reversed rows"] = dict(rows=lambda b: b[::-1])
        good["own values"] = dict(edit=scaled)

        def alike(b):
            extra = []
            head, _ = ref.read_csv(os.path.join(impl.PKG, FILES[0]))
            low = [h.lower() for h in head]
            ix = {k: low.index(k) for k in ("model", "scenario", "region", "variable", "unit")}
            k0 = low.index("2010")
            for r in b:
                for k, v in (("model", "IMAGE2"), ("model", "image"), ("scenario", r[ix["scenario"]] + "x"), ("scenario", r[ix["scenario"]].lower()),
                             ("scenario", r[ix["scenario"]][:4]), ("region", r[ix["region"]] + "2"), ("region", r[ix["region"]].lower()), ("variable", r[ix["variable"]] + "|Urban"),
                             ("variable", r[ix["variable"]].lower()), ("variable", r[ix["variable"]].split("|")[0] + "|MER")):
                    if v != r[ix[k]]:
                        q = scaled(list(r), ix, k0)
                        q[ix[k]] = v
                        extra.append(q)
            return extra[: len(extra) // 2] + b + extra[len(extra) // 2:]
        good["look-alike rows"] = dict(rows=alike)
        for name, kw in good.items():
            p = os.path.join(d, name.replace(" ", "_") + ".csv")
            write_file(p, **kw)
            check(out, build(p), g, regs, reference({v: (p, sc) for v in NAMES}), f"user data file with {name}")
            out.tag("user file")

        def drop(region, variable):
            return lambda r, ix, k0: None if (r[ix["region"]], r[ix["variable"]], r[ix["scenario"]]) == (region, variable, sc) else r

        for n, (region, variable) in enumerate(itertools.product(regs, ref.VARNAMES.values())):
            p = os.path.join(d, f"missing{n}.csv")
            write_file(p, drop(region, variable))
            bad(out, lambda: build(p), f"data file without {variable} of {region}")
            p = os.path.join(d, f"double{n}.csv")
            write_file(p, rows=lambda b: b + [scaled(list(r), {}, 5) for r in b if r[2] == region and r[3] == variable and r[1] == sc])
            bad(out, lambda: build(p), f"data file with two rows for {variable} of {region}")
        bad(out, lambda: build(FILES[0], scenario="SSP9"), "unknown scenario")
        bad(out, lambda: build(FILES[0], model="NOMODEL"), "unknown model")
        bad(out, lambda: build(os.path.join(d, "nofile.csv")), "missing file")


def bad(out, fn, what):
    out.states += 1
    out.cases += 1
    out.transitions += 1
    try:
        fn()
    except Exception:
        out.tag("bad file rejected")
        return
    out.violation("ambiguous data accepted", f"{what}: a model is built")


def paths(spec, out):
    """The same baseline values whatever the horizon, step and co-modelled regions."""
    seen = {}
    for g in [(2020, 2100, 5), (2020, 2100, 10), (2020, 2060, 20), (2010, 2200, 10), (2015, 2120, 5), (2020, 2041, 0.5), (2040, 2060, 1), (2020, 2110, 2.5)]:
        for regs in (["BRA"], ["CAN", "BRA"], ["WEU", "BRA", "JAP"]):
            m = impl.build(config(g, regs, "SSP2", {})).concrete_model
            ys = years_of(g)
            out.states += 1
            out.cases += 1
            for name in NAMES.values():
                for (t, r), v in getattr(m, name).extract_values().items():
                    if r == "BRA":
                        y = ys[t]
                        k = (name, float(y))
                        out.transitions += 1
                        if k in seen and not abs(seen[k][0] - v) <= 1e-9 * abs(v):
                            out.violation("calendar year value depends on grid", f"{name} BRA {y}: {v!r} on {g} {regs}, {seen[k]}")
                        seen.setdefault(k, (v, g, regs))
