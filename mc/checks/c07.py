"""C07: regional parameters reach the right region, mapped or overridden."""
import csv
import itertools
import os

import numpy as np

from mc import config as cf, impl, ref

PROPERTY = "C07"
BOUNDS = {
    "quick": "26 regions x all 30 calibration columns; 26 regions x 11 quantiles x adaptation x combined; 3 regions x every coefficient of the model x 3 "
             "manual values (and all pairs of overrides of 2 regions x 6 coefficients); every indexed and scalar input replaced by a custom mapping (separate, combined and no damages); all 49 "
             "mapping relations of 3 source regions to 2 model regions (each source region to none, one or both) in both listing directions for numeric and "
             "text tables; a one-region world mapped from all 26 regions",
    "thorough": "as quick with all pairs of overrides over all coefficients and 4 source regions (all relations)",
}
ASSUMPTIONS = ["for texts, 'first' is judged only when source regions are listed in alphabetical order in both tables",
               "empty cells are left out of an average"]
REQUIRED_TAGS = ["coefficients compared", "overrides", "override pairs", "custom mappings", "mapping relations", "several sources averaged", "world"]
MORT = [f"{a}_{b}" for a in ("oldest", "older", "young") for b in "abc"]
SMALL = [(("time", "start"), 2020), (("time", "end"), 2030), (("time", "dt"), 10)]
FILES = {"economics": "economics.csv", "MAC": "mac.csv", "COACCH": "COACCH.csv", "mortality": "mortality.csv"}
QS = ("economics", "damages", "quantile")
KF = ("economics", "MAC", "regional calibration factor")
AD = ("economics", "damages", "coacch_slr_withadapt")
CO = ("economics", "damages", "coacch_combined_slr_nonslr_damages")


def coefficients(q=0.5, adapt=True, combined=False, kappa="kappa_rel_abatement_0.75_2050"):
    """model parameter -> (category, column) or constant"""
    out = {"init_capitalstock_factor": ("economics", "init_capital_factor"), "MAC_scaling_factor": ("MAC", kappa)}
    out.update({f"mortality_param_{c}": ("mortality", c) for c in MORT})
    ad = "Ad" if adapt else "NoAd"
    if combined:
        out.update({"damage_noslr_form": "Robust-Quadratic", "damage_noslr_b1": ("COACCH", f"combined_b1_{ad}-q{q}"),
                    "damage_noslr_b2": ("COACCH", f"combined_b2_{ad}-q{q}"), "damage_noslr_a": 1.0, "damage_slr_a": 0.0})
    else:
        out.update({"damage_noslr_form": ("COACCH", "NoSLR_form"), "damage_noslr_a": ("COACCH", f"NoSLR_a (q={q})"),
                    "damage_slr_form": ("COACCH", f"SLR-{ad}_form"), "damage_slr_a": ("COACCH", f"SLR-{ad}_a (q={q})")})
        for k in ("b1", "b2", "b3"):
            out[f"damage_noslr_{k}"] = ("COACCH", f"NoSLR_{k}")
            out[f"damage_slr_{k}"] = ("COACCH", f"SLR-{ad}_{k}")
    return out


def all_regions():
    return list(impl.default_tree()["regions"]["default"])


def jobs(tier):
    tree = dict(cf.leaves())
    K = tree[KF]["values"]
    J = [{"mode": "columns", "kappas": K[i::6], "cost": 6} for i in range(6)]
    Q = tree[QS]["values"]
    J += [{"mode": "quantiles", "qs": Q[i::4], "cost": 12} for i in range(4)]
    J += [{"mode": "override", "region": r, "combined": c, "cost": 8} for r in ("CAN", "BRA", "INDIA") for c in (False, True)]
    C = list(coefficients())
    step = C if tier == "thorough" else ["init_capitalstock_factor", "MAC_scaling_factor", "mortality_param_oldest_b", "damage_noslr_b1", "damage_slr_a", "damage_slr_b2"]
    J += [{"mode": "pairs", "a": a, "names": step, "cost": 4} for a in step]
    J += [{"mode": "custom", "damages": d, "combined": c, "cost": 8} for d, c in ((True, False), (False, False), (True, True))]
    n = 4 if tier == "thorough" else 3
    J += [{"mode": "relation", "category": c, "reverse": rev, "sources": n, "cost": 15} for c in ("economics", "MAC", "COACCH", "mortality") for rev in (False, True)]
    J += [{"mode": "world"}]
    return J


def run_job(spec, out):
    globals()[spec["mode"]](spec, out)


def extract(m, name):
    c = getattr(m, name)
    return dict(c.extract_values())


def plain(v):
    if v is None or v == "":
        return None
    try:
        x = float(v)
        return None if x != x else x
    except (TypeError, ValueError):
        return str(v)


def equal(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1e-12, abs(b))
    return a == b


def verify(out, m, coeff, regs, what, over=None, value=None):
    """every coefficient of every region = table value (or override)"""
    tabs = ref.Tables(impl.PKG)
    out.states += 1
    out.cases += 1
    for name, src in coeff.items():
        got = extract(m, name)
        if set(got) != set(regs):
            out.violation("wrong regions", f"{what}: {name} given for {sorted(map(str, got))}"[:200])
            continue
        for r in regs:
            if over and (r, name) in over:
                w = over[r, name]
            elif value is not None:
                w = value(src, r)
            elif isinstance(src, tuple):
                w = tabs.regional(ref.REGPAR + FILES[src[0]], src[1], r, ref.COACCH_MAP if src[0] == "COACCH" else None)
            else:
                w = src
            out.transitions += 1
            out.tag("coefficients compared")
            if not equal(got[r], w):
                out.violation("wrong coefficient", f"{what}: {name}[{r}] = {got[r]!r}, expected {w!r} ({src})", parameter=name, region=r)
    out.validated += 1


def build(items):
    return impl.build(cf.nest(SMALL + items)).concrete_model


def columns(spec, out):
    R = all_regions()
    for k in spec["kappas"]:
        verify(out, build([(KF, k)]), coefficients(kappa=k), R, f"calibration column {k}")
    R2 = R[::-1][:5]
    for k in spec["kappas"]:
        verify(out, build([(KF, k), (("regions",), {r: {} for r in R2})]), coefficients(kappa=k), R2, f"calibration column {k} {R2}")
    out.sample(columns=spec["kappas"])


def quantiles(spec, out):
    R = all_regions()
    for q in spec["qs"]:
        for ad, co in itertools.product((True, False), repeat=2):
            verify(out, build([(QS, q), (AD, ad), (CO, co)]), coefficients(q, ad, co), R, f"quantile {q} adaptation {ad} combined {co}")
    out.sample(quantiles=spec["qs"])


REGS = ["CAN", "BRA", "INDIA"]


def put(d, region, src, v):
    d.setdefault(region, {}).setdefault(src[0], {})[src[1]] = v


def override(spec, out):
    co = coefficients(combined=spec["combined"])
    r = spec["region"]
    base = [(CO, spec["combined"])]
    for name, src in co.items():
        if not isinstance(src, tuple):
            continue
        vals = ["Robust-Linear", "Robust-Quadratic"] if src[1].endswith("form") else [0.0, 7.625, -0.5, 3]
        for v in vals:
            regs = {x: {} for x in REGS}
            put(regs, r, src, v)
            verify(out, build(base + [(("regions",), regs)]), co, REGS, f"manual {src} = {v} for {r}", over={(r, name): v})
            out.tag("overrides")
    # manual values which no selected coefficient uses change nothing
    for src in (("MAC", "kappa_carbonprice_200_2030"), ("COACCH", "NoSLR_a (q=0.05)"), ("economics", "nothing"), ("nothing", "kappa"), ("mortality", "oldest")):
        regs = {x: {} for x in REGS}
        put(regs, r, src, 9.5)
        verify(out, build(base + [(("regions",), regs)]), co, REGS, f"unused manual {src} for {r}")
        out.tag("overrides")
    for regs in ({x: None for x in REGS}, {x: {"MAC": {}} for x in REGS}, {x: {"MAC": None} for x in REGS}):
        verify(out, build(base + [(("regions",), regs)]), co, REGS, f"regions without manual values {regs}")
    out.sample(region=r, coefficients=len(co))


def pairs(spec, out):
    co = coefficients()
    a = spec["a"]
    for b in spec["names"]:
        for ra, rb in (("CAN", "BRA"), ("BRA", "BRA"), ("INDIA", "CAN")):
            if a == b and ra == rb:
                continue
            va = "Robust-Linear" if a.endswith("form") else 1.375
            vb = "Robust-Quadratic" if b.endswith("form") else 2.625
            regs = {x: {} for x in REGS}
            put(regs, ra, co[a], va)
            put(regs, rb, co[b], vb)
            verify(out, build([(("regions",), regs)]), co, REGS, f"manual {a}[{ra}] and {b}[{rb}]", over={(ra, a): va, (rb, b): vb})
            out.tag("override pairs")


def custom(spec, out):
    R = ["CAN", "BRA"]
    base = [(("regions",), {r: {} for r in R})] + ([] if spec["damages"] else [(("model", "damage module"), "nodamage"), (("model", "welfare module"), "cost_minimising"),
                                                                               (("model", "emissiontrade module"), "emissiontrade")])
    base += [(CO, True), (("economics", "damages", "coacch_slr_withadapt"), False)] if spec.get("combined") else []
    m0 = build(base)
    regional = {n: s for n, s in coefficients().items() if hasattr(m0, n)}
    scalars = ["MAC_gamma", "MAC_beta", "alpha", "dk", "sr", "elasmu", "PRTP", "TCRE", "T0", "LBD_scaling", "LOT_rate", "damage_scale_factor", "rel_mitigation_costs_min_level"]
    scalars = [s for s in scalars if hasattr(m0, s)]
    tables = ["population", "baseline_GDP", "baseline_emissions"]
    inputs = list(regional) + scalars + tables
    before = {n: extract(m0, n) for n in inputs}

    def run(maps, what):
        m = build(base + [(("simulation", "custom_mapping"), maps)])
        out.states += 1
        out.cases += 1
        out.tag("custom mappings")
        for n in inputs:
            got = extract(m, n)
            want = maps.get(n, before[n])
            out.transitions += len(want)
            if set(got) != set(want) or not all(equal(got[k], want[k]) for k in want):
                out.violation("wrong coefficient", f"{what}: {n} = {got}, expected {want}"[:400])
        out.validated += 1
    for n in regional:
        if n.endswith("form"):
            v = {"CAN": "Robust-Linear", "BRA": "Robust-Quadratic"}
        else:
            v = {"CAN": 0.375, "BRA": 3.25}
        run({n: v}, f"custom mapping of {n}")
        run({n: dict(reversed(list(v.items()))), "sr": {None: 0.31}}, f"custom mapping of {n} and sr")
    for i, n in enumerate(scalars):
        run({n: {None: 0.3125}}, f"custom mapping of {n}")
    for n in tables:
        run({n: {k: 1.5 + 0.25 * i for i, k in enumerate(before[n])}}, f"custom mapping of {n}")
    # a custom mapping also wins over a manual regional value
    regs = {"CAN": {"MAC": {"kappa_rel_abatement_0.75_2050": 5.0}}, "BRA": {}}
    m = impl.build(cf.nest(SMALL + [x for x in base if x[0] != ("regions",)] + [(("regions",), regs), (("simulation", "custom_mapping"), {"MAC_scaling_factor": {"CAN": 2.0, "BRA": 4.0}})])).concrete_model
    if not all(equal(extract(m, "MAC_scaling_factor")[r], v) for r, v in (("CAN", 2.0), ("BRA", 4.0))):
        out.violation("wrong coefficient", "custom mapping does not replace the whole parameter when a manual value is given")
    out.sample(parameters=len(regional) + len(scalars) + len(tables))


def write(path, rows):
    with open(path, "w", newline="", encoding="utf8") as fh:
        csv.writer(fh).writerows(rows)


def relation(spec, out):
    """all relations between source regions and the model regions"""
    cat = spec["category"]
    R = ["CAN", "BRA"]
    S = [f"S{i}" for i in range(spec["sources"])]
    cols = [s[1] for s in coefficients().values() if s[0] == cat]
    texts = ["Robust-Linear", "Robust-Quadratic", "Robust-Linear", "Robust-Quadratic"]
    table, head = {}, ["region"] + cols
    for i, s in enumerate(S):
        for j, c in enumerate(cols):
            table[s, c] = texts[(i + j) % 4] if c.endswith("form") else round(0.5 + 0.37 * i * i + 0.11 * j + (0.2 if i % 2 else 0), 6)
    n = 0
    with impl.scratch_dir() as d:
        for rel in itertools.product(((), (0,), (1,), (0, 1)), repeat=len(S)):
            back = [[S[i] for i in range(len(S)) if k in rel[i]] for k in (0, 1)]
            if not all(back):
                continue
            n += 1
            rows = [(R[k], S[i]) for i in range(len(S)) for k in rel[i]] + [("USA", S[0])]
            f, g = os.path.join(d, f"tab{n}.csv"), os.path.join(d, f"map{n}.csv")
            write(f, [head] + [[s] + [table[s, c] for c in cols] for s in S])
            write(g, [["IMAGE26", "MINE", "note"]] + [[a, b, "x"] for a, b in rows])
            maps = [dict(x) for x in impl.default_tree()["regionsmappings"]["default"]]
            maps.append({"regionstype1": "MINE" if spec["reverse"] else "IMAGE26", "regionstype2": "IMAGE26" if spec["reverse"] else "MINE", "conversiontable": g})
            files = {k: dict(v) for k, v in impl.default_tree()["regional_parameter_files"]["default"].items()}
            files[cat] = {"filename": f, "regionstype": "MINE"}

            def value(src, r):
                if not isinstance(src, tuple):
                    return src
                if src[0] != cat:
                    return ref.Tables(impl.PKG).regional(ref.REGPAR + FILES[src[0]], src[1], r, ref.COACCH_MAP if src[0] == "COACCH" else None)
                vals = [table[s, src[1]] for s in back[R.index(r)]]
                return vals[0] if isinstance(vals[0], str) else float(np.mean(vals))

            m = build([(("regions",), {r: {} for r in R}), (("regionsmappings",), maps), (("regional_parameter_files",), files)])
            verify(out, m, coefficients(), R, f"{cat} mapped by {rows}", value=value)
            out.tag("mapping relations")
            out.tag("several sources averaged", any(len(b) > 1 for b in back))
            if n % 7 == 0:
                regs = {"CAN": {cat: {cols[0]: "Robust-Linear" if cols[0].endswith("form") else 6.5}}, "BRA": {}}
                m = build([(("regions",), regs), (("regionsmappings",), maps), (("regional_parameter_files",), files)])
                name = next(k for k, s in coefficients().items() if s == (cat, cols[0]))
                verify(out, m, coefficients(), R, f"{cat} mapped and overridden", value=value, over={("CAN", name): regs["CAN"][cat][cols[0]]})
    out.sample(category=cat, relations=n, reverse=spec["reverse"])


def world(spec, out):
    R = all_regions()
    tabs = ref.Tables(impl.PKG)
    with impl.scratch_dir() as d:
        g = os.path.join(d, "map.csv")
        write(g, [["World", "IMAGE26"]] + [["World", r] for r in R])
        h = os.path.join(d, "mapc.csv")
        write(h, [["World", "COACCH"], ["World", "World"]])
        head, rows = ref.read_csv(os.path.join(impl.DATA, "data", "data_IMAGE_SSP.csv"))
        f = os.path.join(d, "data.csv")
        write(f, [head] + [[("World" if i == 2 else c) for i, c in enumerate(r)] for r in rows if r[2] == "WEU"])
        maps = [{"regionstype1": "World", "regionstype2": "IMAGE26", "conversiontable": g}, {"regionstype1": "COACCH", "regionstype2": "World", "conversiontable": h}]
        srcs = []
        for v in ("GDP", "emissions", "population"):
            srcs.append((("input", "variables", v), dict(dict(cf.leaves())[("input", "variables", v)]["default"], file=f)))
        for q, ad, co in itertools.product((0.05, 0.5, 0.95), (True, False), (True, False)):
            m = build([(("regions",), {"World": {}}), (("regionstype",), "World"), (("regionsmappings",), maps), (QS, q), (AD, ad), (CO, co)] + srcs)

            def value(src, r):
                if not isinstance(src, tuple):
                    return src
                t = tabs.table(ref.REGPAR + FILES[src[0]])
                if src[0] == "COACCH":
                    return t["World"][src[1]]
                return float(np.mean([t[x][src[1]] for x in R if t[x][src[1]] is not None]))
            verify(out, m, coefficients(q, ad, co), ["World"], f"world region, quantile {q}", value=value)
            out.tag("world")
