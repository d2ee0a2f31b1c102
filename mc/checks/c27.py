"""C27: extensions made as documented take effect as documented."""
import csv
import itertools
import os

import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr.visitor import identify_variables

from mc import extension as ext

PROPERTY = "C27"
BOUNDS = {
    "quick": "on extended copies of the package (16 new configuration entries of all documented scalar types, 2 new regional files, a new time series, a new "
             "component): every listed valid, boundary and invalid value of every new entry and all pairs of valid values of entries next to each other; "
             "every new regional column x {26 regions, subsets} x {same, other regional definition} x manual override; the new series x 5 scenarios x 3 "
             "references x 2 grids; every constraint kind (4 documented, 2 soft) x {=, <=, >=} x 6 skip conditions x shapes up to 6 cells with every "
             "assignment of {below, at, above} to the cells; all pairs of kinds x {unnamed, distinct, equal names}; new variables through solve and save",
    "thorough": "as quick, with shapes up to 9 cells and four host components for every family",
}
ASSUMPTIONS = ["extensions are made in a scratch copy of the package: entries added to the configuration file, files to the data folders, and one line at the "
               "end of a component file; nothing else of the copy differs from /repo",
               "a variable without a time index is expected to be saved with its value in every year column"]
REQUIRED_TAGS = ["default reaches parameter", "value reaches parameter", "value rejected", "callable doc", "regional value", "mapped value", "manual override",
                 "series value", "admitted", "excluded", "skipped cell", "pair effective", "saved rows", "alias loaded"]
REG = {1: ["WEU"], 2: ["USA", "INDIA"], 3: ["BRA", "CHN", "OCE"]}
KINDS = ["regional", "regional init", "global", "global init", "regional soft", "global soft"]
RELS = ["==", "<=", ">="]
SKIPS = ["never", "first step", "late", "one region", "flag off", "flag on", "always"]


def jobs(tier):
    deep = tier == "thorough"
    comp = ext.COMPONENTS
    J = []

    def add(fam, k, cost, **kw):
        for c in (comp if deep else [comp[k % len(comp)]]):
            J.append(dict(family=fam, component=c, cost=cost, **kw))

    names = list(ext.ENTRIES)
    for k, n in enumerate(names):
        add("entries", k, 8, entry=n)
    for k, sub in enumerate((26, 3, 2, 1)):
        add("regional", k, 6, n=sub)
    for k in range(1, 6):
        add("series", k, 6, ssp=f"SSP{k}")
    shapes = [(1, 2), (2, 2), (1, 3), (2, 3), (3, 2), (1, 5)] + ([(3, 3), (1, 9), (2, 4), (4, 2)] if deep else [])
    REG4 = shapes
    for k, kind in enumerate(KINDS):
        for i, skip in enumerate(SKIPS):
            add("constraints", k + i, 10, kind=kind, skip=skip, shapes=[list(x) for x in REG4])
    for k, kind in enumerate(KINDS):
        add("pairs", k, 6, kind=kind)
    for k, n in enumerate((1, 2, 3)):
        add("output", k, 6, n=n)
    return J


def run_job(job, out):
    ext.run(job, out)


# -- inside the process of the extended copy --------------------------------------
def work(job, out):
    globals()["_" + job["family"]](job, out)


def params(regions, time, sets=()):
    from mc import impl
    ov = [(("regions",), {r: {} for r in regions})] + [(("time", k), v) for k, v in zip(("start", "end", "dt"), time)]
    return impl.params_from(ov + list(sets))


def model(p, *fns, raw=True):
    from mc import impl
    import mc_extension_hook as hook
    hook.new = list(fns)
    return impl.build(p, raw=raw)


def same(a, b):
    if isinstance(b, bool) or isinstance(a, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if isinstance(b, str):
        return a == b
    try:
        return abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))
    except (TypeError, ValueError):
        return False


def declare_all(m):
    from mimosa.common import Param
    for k, path in enumerate(ext.ENTRIES):
        m.add_component(f"ext_p{k}", Param(doc="::" + path))
    m.ext_dynamic = Param(doc=lambda p: "::ext.rate" if p["ext"]["deep"]["level 1"]["flag"] else "::ext.open rate")
    m.ext_regional = Param(m.regions, doc=lambda p: f"regional::newparamgroup.{p['ext']['choice']}")
    return []


def _entries(job, out):
    """Every value of one entry, and of its neighbour in the declaration."""
    paths = list(ext.ENTRIES)
    me = paths.index(job["entry"])
    other = paths[(me + 1) % len(paths)]
    good = lambda p: [(v, w) for v, w in ext.ENTRIES[p][1] if w is not ext.REJECT and w != ext.REJECT]
    cases = [{}] + [{paths[me]: x} for x in ext.ENTRIES[paths[me]][1]]
    cases += [{paths[me]: a, other: b} for a in good(paths[me]) for b in good(other)]
    for case in cases:
        sets = [(tuple(p.split(".")), v) for p, (v, _) in case.items()]
        want = {p: ext.default_of(p) for p in paths}
        want.update({p: w for p, (_, w) in case.items()})
        reject = [p for p, w in want.items() if w is ext.REJECT or w == ext.REJECT]
        given = {p: v for p, (v, _) in case.items()}
        out.cases += 1
        out.states += 1
        out.transitions += len(sets) or 1
        prm = params(REG[2], (2020, 2030, 10), sets)
        try:
            m = model(prm, declare_all).concrete_model
        except Exception as e:
            if reject:
                out.tag("value rejected")
            else:
                out.violation("valid value rejected", f"{given}: {type(e).__name__}: {e}"[:300], given=given)
            continue
        if reject:
            out.violation("invalid value accepted", f"{given} is accepted", given=given)
            continue
        for k, p in enumerate(paths):
            got = pyo.value(getattr(m, f"ext_p{k}"))
            if not same(got, want[p]):
                out.violation("parameter value", f"with {given or 'defaults'} the parameter declared for {p} is {got!r}, not {want[p]!r}", given=given, entry=p)
            else:
                out.tag("value reaches parameter" if p in case else "default reaches parameter")
        dyn = want["ext.rate"] if want["ext.deep.level 1.flag"] else want["ext.open rate"]
        reg = {r: ext.regional_value(r, want["ext.choice"]) for r in REG[2]}
        if not same(pyo.value(m.ext_dynamic), dyn) or any(not same(pyo.value(m.ext_regional[r]), v) for r, v in reg.items()):
            out.violation("callable doc", f"with {given}: {pyo.value(m.ext_dynamic)} / { {r: pyo.value(m.ext_regional[r]) for r in reg} }, not {dyn} / {reg}",
                          given=given)
        else:
            out.tag("callable doc")
        out.validated += 1
    out.sample(entry=job["entry"], cases=len(cases))


def _regional(job, out):
    from mc import impl
    from mimosa.common import Param
    pkg = impl.PKG
    everything = list(impl.params_from()["regions"])
    n = job["n"]
    groups = [everything] if n == 26 else [everything[i:i + n] for i in range(0, 26 - n + 1, max(1, n * 2))]
    with open(os.path.join(pkg, "inputdata/regions/IMAGE26_COACCH.csv"), newline="") as fh:
        rows = list(csv.reader(fh))
    a, b = rows[0].index("IMAGE26"), rows[0].index("COACCH")
    mapping = {r[a]: [x[b] for x in rows[1:] if x[a] == r[a]] for r in rows[1:]}

    def component(m):
        for k, c in enumerate(ext.REGIONAL):
            m.add_component(f"ext_a{k}", Param(m.regions, doc=f"regional::newparamgroup.{c}"))
            m.add_component(f"ext_b{k}", Param(m.regions, doc=f"regional::mappedgroup.{c}"))
        return []

    for g in groups:
        for manual in [None] + [(grp, c) for grp in ("newparamgroup", "mappedgroup") for c in ext.REGIONAL]:
            p = params(g, (2020, 2030, 10))
            if manual:
                p["regions"][g[0]] = {manual[0]: {manual[1]: 77.5}}
            m = model(p, component).concrete_model
            out.cases += 1
            out.states += len(g)
            out.transitions += len(g)
            for r, (k, c) in itertools.product(g, enumerate(ext.REGIONAL)):
                same_def = ext.regional_value(r, c)
                mapped = float(np.mean([ext.regional_value(x, c) for x in mapping[r]]))
                for letter, grp, want, tag in (("a", "newparamgroup", same_def, "regional value"), ("b", "mappedgroup", mapped, "mapped value")):
                    if manual == (grp, c) and r == g[0]:
                        want, tag = 77.5, "manual override"
                    got = pyo.value(getattr(m, f"ext_{letter}{k}")[r])
                    if not same(got, want):
                        out.violation("regional parameter", f"{grp}.{c} of {r} is {got}, not {want} (manual {manual})", region=r, column=c)
                    else:
                        out.tag(tag)
            out.validated += 1
    out.sample(regions=n, groups=len(groups))


def _series(job, out):
    from mimosa.common import Param, quant

    def component(m):
        m.ext_series = Param(m.t, m.regions, doc="timeandregional::newdata", units=quant.unit("emissionsrate_unit"))
        return []

    for choice in ext.REGIONAL:
        for grid in ((2020, 2060, 10), (2010, 2090, 20), (2030, 2050, 5)):
            for g in (REG[2], REG[3]):
                p = params(g, grid, [(("SSP",), job["ssp"]), (("ext", "choice"), choice)])
                m = model(p, component).concrete_model
                out.cases += 1
                for t in m.t:
                    year = grid[0] + t * grid[2]
                    out.states += 1
                    out.transitions += len(g)
                    for r in g:
                        # the supplied series is quadratic, so any documented interpolation hits it exactly
                        want, got = ext.series_value(job["ssp"], choice, r, year), pyo.value(m.ext_series[t, r])
                        if abs(got - want) > 2e-5 * max(1.0, abs(want)):
                            out.violation("time series", f"{r} {year} {job['ssp']} {choice}: {got}, supplied {want}", region=r, year=year)
                        else:
                            out.tag("series value")
                out.validated += 1
    out.sample(ssp=job["ssp"])


def dims(kind):
    return ("t", "r") if kind.startswith("regional") and "init" not in kind else ("r",) if kind == "regional init" else ("t",) if kind != "global init" else ()


def weight(year, region):
    return (0 if year is None else (year - 2000) / 100.0) + (0 if region is None else 0.5 + sum(map(ord, region)) % 17 / 16.0) + 0.25


def skipped(skip, year, region, first, flag, start):
    return {"never": False, "first step": year is not None and year == start, "late": year is not None and year > start + 15,
            "one region": region is not None and region == first, "flag off": not flag, "flag on": flag, "always": True}[skip]


def make(kind, rel, skip, start, dt, first, name, cname):
    """One documented constraint on one new variable; returns the component."""
    def component(m):
        from mimosa.common import (Constraint, GlobalConstraint, GlobalInitConstraint, GlobalSoftEqualityConstraint, Param, RegionalConstraint,
                                   RegionalInitConstraint, RegionalSoftEqualityConstraint, Var, value)
        d = dims(kind)
        idx = [{"t": m.t, "r": m.regions}[x] for x in d]
        m.add_component(name, Var(*idx))
        if not hasattr(m, "ext_flag"):
            m.ext_flag = Param(doc="::ext.deep.level 1.flag")
        v = getattr(m, name)

        def parts(m, args):
            a = dict(zip(d, args))
            year = m.year(a["t"]) if "t" in a else None
            return year, a.get("r"), getattr(m, name)[tuple(args)] if args else getattr(m, name)

        def rule(m, *args):
            year, region, var = parts(m, args)
            if skipped(skip, year, region, first, value(m.ext_flag), start):
                return Constraint.Skip
            w = weight(year, region)
            return var == w if rel == "==" else var <= w if rel == "<=" else var >= w

        if kind.endswith("soft"):
            cls = RegionalSoftEqualityConstraint if kind.startswith("regional") else GlobalSoftEqualityConstraint
            kw = {"==": {}, "<=": {"epsilon": 0.02}, ">=": {"absolute_epsilon": 0.004}}[rel]

            def lhs(m, *args):
                return parts(m, args)[2]

            def rhs(m, *args):
                return weight(*parts(m, args)[:2])

            def ignore(m, *args):
                year, region, _ = parts(m, args)
                return skipped(skip, year, region, first, value(m.ext_flag), start)

            return [cls(lambda m, *a: lhs(m, *a), lambda m, *a: rhs(m, *a), cname, ignore_if=None if skip == "never" else ignore, **kw)]
        cls = {"regional": RegionalConstraint, "regional init": RegionalInitConstraint, "global": GlobalConstraint, "global init": GlobalInitConstraint}[kind]
        f = {2: lambda m, t, r: rule(m, t, r), 1: lambda m, x: rule(m, x), 0: lambda m: rule(m)}[len(d)]
        return [cls(f, name=cname)] if cname else [cls(f)]

    return component


def tolerance(rel, w):
    return {"==": 0.005 * w, "<=": 0.02 * w, ">=": 0.004}[rel]


def on(m, names):
    """Active constraints that involve the new variables."""
    res = []
    for c in m.component_data_objects(pyo.Constraint, active=True):
        vs = {x.parent_component().name for x in identify_variables(c.body, include_fixed=True)}
        if vs & set(names):
            res.append(c)
    return res


def holds(c):
    b = pyo.value(c.body)
    lo, up = pyo.value(c.lower), pyo.value(c.upper)
    return (lo is None or b >= lo - 1e-9) and (up is None or b <= up + 1e-9)


def check_cells(out, m, kind, rel, skip, name, grid, regions, flag, where, limit=None):
    start, dt = grid[0], grid[2]
    d = dims(kind)
    v = getattr(m, name)
    cells = list(itertools.product(*[{"t": list(m.t), "r": list(regions)}[x] for x in d]))
    cons = on(m, [name])
    info = []
    for c in cells:
        a = dict(zip(d, c))
        year, region = (start + a["t"] * dt if "t" in a else None), a.get("r")
        w = weight(year, region)
        soft = kind.endswith("soft")
        eps = tolerance(rel, w) if soft else 0.01
        alphabet = [(w - 1.3 * eps, False), (w + 0.7 * eps, True), (w + 1.3 * eps, False)] if soft else \
            [(w - eps, rel == "<="), (w, True), (w + eps, rel == ">=")]
        skp = skipped(skip, year, region, regions[0], flag, start)
        if soft:
            alphabet.insert(1, (w - 0.7 * eps, True))
        info.append((c, alphabet, skp))
        if skp:
            out.tag("skipped cell")
    if len(cells) > 3:
        info = [(c, a[:1] + a[-2:] if len(a) == 4 else a, s) for c, a, s in info]
    data = [v[c] if len(c) > 1 else v[c[0]] if c else v for c in cells]
    for combo in itertools.product(*[range(len(a)) for _, a, _ in info]):
        ok = True
        for x, (c, a, skp), i in zip(data, info, combo):
            x.set_value(a[i][0], skip_validation=True)
            ok &= skp or a[i][1]
        got = all(holds(c) for c in cons)
        out.states += 1
        out.transitions += len(cons)
        out.tag("admitted" if ok else "excluded")
        if got != ok:
            vals = {str(c): round(a[i][0], 5) for (c, a, _), i in zip(info, combo)}
            out.violation("not enforced" if got else "over-enforced",
                          f"{kind} constraint ({rel}, skipped: {skip}) {where}: {vals} is {'admitted' if got else 'excluded'}"[:400],
                          kind=kind, rel=rel, skip=skip)
            return
    out.validated += 1


def _constraints(job, out):
    kind, skip = job["kind"], job["skip"]
    seen = set()
    for nr, nt in job["shapes"]:
        d = dims(kind)
        key = (nr if "r" in d else min(nr, 2), nt if "t" in d else min(nt, 2))
        if key in seen:
            continue
        seen.add(key)
        nr, nt = key
        regions = REG.get(nr) or ["BRA", "CHN", "OCE", "SEAS"][:nr]
        for start, dt in ((2020, 10), (2025, 7)):
            grid = (start, start + dt * (nt - 1), dt)
            for rel, flag in itertools.product(RELS, (False, True)):
                p = params(regions, grid, [(("ext", "deep", "level 1", "flag"), flag)])
                m = model(p, make(kind, rel, skip, start, dt, regions[0], "ext_v", "ext_c")).concrete_model
                out.cases += 1
                check_cells(out, m, kind, rel, skip, "ext_v", grid, regions, flag, f"{regions} {grid} flag {flag}")
    out.sample(kind=kind, skip=skip)


def _pairs(job, out):
    grid, regions = (2020, 2030, 10), REG[2]
    for other in KINDS:
        for names in ((None, None), ("one", "two"), ("one", "one"), (None, "two")):
            for ra, rb in (("==", "<="), (">=", "==")):
                p = params(regions, grid)
                fns = [make(job["kind"], ra, "never", 2020, 10, regions[0], "ext_v", names[0]), make(other, rb, "never", 2020, 10, regions[0], "ext_w", names[1])]
                out.cases += 1
                try:
                    m = model(p, *fns).concrete_model
                except Exception as e:
                    if names == ("one", "one"):
                        out.tag("equal names reported")
                    else:
                        out.violation("pair rejected", f"{job['kind']} and {other} constraints named {names}: {type(e).__name__}: {e}"[:300],
                                      kinds=[job["kind"], other], names=list(names))
                    continue
                n = len(out.violations)
                check_cells(out, m, job["kind"], ra, "never", "ext_v", grid, regions, False, f"next to {other}, names {names}")
                check_cells(out, m, other, rb, "never", "ext_w", grid, regions, False, f"next to {job['kind']}, names {names}")
                if len(out.violations) == n:
                    out.tag("pair effective")


def _output(job, out):
    from mc import impl, solverstub
    regions = REG[job["n"]]

    def component(m):
        from mimosa.common import GlobalConstraint, GlobalInitConstraint, Param, RegionalConstraint, RegionalInitConstraint, Var, quant
        m.ext_fixed = Var(m.regions)
        m.ext_single = Var()
        m.ext_intensity = Var(m.t, m.regions)
        m.ext_alias = Var(m.t, m.regions, units=quant.unit("currency_unit"))
        m.ext_total = Var(m.t, units=quant.unit("emissions_unit"))
        m.ext_warming = Var(m.t, units=quant.unit("degC_above_PI"))
        m.ext_series = Param(m.t, m.regions, doc="timeandregional::newdata", units=quant.unit("emissionsrate_unit"))
        return [RegionalConstraint(lambda m, t, r: m.ext_intensity[t, r] == m.regional_emissions[t, r] / m.GDP_net[t, r], name="ext_intensity"),
                RegionalConstraint(lambda m, t, r: m.ext_alias[t, r] == m.GDP_net[t, r], name="ext_alias"),
                GlobalConstraint(lambda m, t: m.ext_total[t] == sum(m.regional_emissions[t, r] for r in m.regions), name="ext_total"),
                RegionalInitConstraint(lambda m, r: m.ext_fixed[r] == 2 * m.regional_emissions[0, r], name="ext_fixed"),
                GlobalInitConstraint(lambda m: m.ext_single >= m.temperature[m.tf], name="ext_single"),
                GlobalConstraint(lambda m, t: m.ext_warming[t] == m.temperature[t], name="ext_warming")]

    units = {"ext_alias": "GDP_net", "ext_series": "regional_emissions", "ext_warming": "temperature", "ext_total": "cumulative_emissions"}
    for grid in ((2020, 2040, 10), (2025, 2046, 7), (2020, 2025, 2.5)):
        with solverstub.Local() as s:
            p = params(regions, grid)
            mo = model(p, component, raw=False)
            s.plan([{"do": "ok", "code": 0, "per_name": 1}])
            with impl.quiet(), impl.in_dir(s.dir):
                mo.solve(verbose=False)
                mo.save("x", folder=s.dir)
            m = mo.concrete_model
            out.cases += 1
            for t in m.t:
                out.states += 1
                out.transitions += len(regions)
                pairs = [(m.ext_alias[t, r], m.GDP_net[t, r]) for r in regions] + [(m.ext_warming[t], m.temperature[t])]
                for a, b in pairs:
                    if job["n"] > 1 and not same(a.value, float(b.value)):
                        out.violation("alias", f"{a.name} is {a.value} and {b.name} is {b.value} after a solve although they are constrained to be equal")
                    else:
                        out.tag("alias loaded")
            with open(os.path.join(s.dir, "x.csv"), newline="") as fh:
                rows = list(csv.reader(fh))
            head = rows[0]
            years = [f"{grid[0] + t * grid[2]:g}" for t in m.t]
            by = {}
            for r in rows[1:]:
                by.setdefault((r[head.index("Variable")], r[head.index("Region")]), []).append(dict(zip(head, r)))
            for name in ("ext_intensity", "ext_alias", "ext_total", "ext_warming", "ext_series", "ext_fixed", "ext_single"):
                glob = name in ("ext_total", "ext_warming", "ext_single")
                for r in (["Global"] if glob else regions):
                    have = by.get((name, r), [])
                    if len(have) != 1:
                        out.violation("saved rows", f"{len(have)} rows for {name} {r}", variable=name)
                        continue
                    ref_row = by.get((units.get(name), r), [{}])[0]
                    if name in units and have[0]["Unit"] != ref_row.get("Unit"):
                        out.violation("saved unit", f"{name} has unit {have[0]['Unit']}, declared in that of {units[name]} ({ref_row.get('Unit')})", variable=name)
                    for t, y in zip(m.t, years):
                        v = getattr(m, name)
                        x = pyo.value(v if name == "ext_single" else v[r] if name == "ext_fixed" else v[t] if glob else v[t, r])
                        if y not in have[0] or abs(float(have[0][y]) - x) > 1e-5 * max(abs(x), 1e-12):
                            out.violation("saved value", f"{name} {r} {y}: {have[0].get(y)}, the model reads {x}", variable=name)
                        else:
                            out.tag("saved rows")
            out.validated += 1
    out.sample(regions=regions)
