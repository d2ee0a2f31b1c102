"""C05: quantities mean the same thing in every compatible unit."""
import csv
import math
import os

from mc import config as cf, impl, ref, signature as sg

PROPERTY = "C05"
BOUNDS = {
    "quick": "every quantity setting x all spellings of a table of prefixed/compound units of its dimension (5-200) x magnitudes of the model parameter "
             "and (one magnitude each) of the complete model; x all spellings of every other dimension and unknown units (rejected); the same text for every ordered "
             "pair of quantity settings together and in succession; every data "
             "variable x 10 unit spellings of the data file, and wrong-dimension units of file or source (rejected)",
    "thorough": "as quick with the complete model compared for every spelling",
}
ASSUMPTIONS = ["unit sizes: SI prefixes, 1 USD2010 = 1.11 USD2005, Julian year, trillion = 1e12 (short scale)"]
REQUIRED_TAGS = ["absolute amount", "whole model", "incompatible rejected", "data unit", "data unit rejected", "same text twice", "same text rejected"]
PARAM = {("economics", "MAC", "gamma"): "MAC_gamma", ("economics", "MAC", "LBD_scaling"): "LBD_scaling", ("emissions", "carbonbudget"): "budget",
         ("emissions", "global min level"): "global_min_level", ("emissions", "regional min level"): "regional_min_level",
         ("temperature", "initial"): "T0", ("temperature", "TCRE"): "TCRE", ("temperature", "target"): "temperature_target"}
AMOUNT = {"price": 2.1, "emissions": 640.0, "rate": -7.25, "temperature": 1.9, "tcre": 0.00055}
CANON = {"price": "trillion USD2005/GtCO2", "emissions": "GtCO2", "rate": "GtCO2/yr", "temperature": "delta_degC", "tcre": "delta_degC/GtCO2"}
BASE = [(("time", "start"), 2080), (("time", "end"), 2110), (("time", "dt"), 10), (("regions",), {"CAN": {}, "BRA": {}})]
UNKNOWN = ["5 apples", "5 GtC02", "5", "5 fooCO2/yr", "abc", "", "5 GtCO2/", "5 people", "5 m", "5 kg", "5 degX"]
DATA = {"GDP": [("billion US$2005/yr", 1), ("trillion USD2005/yr", 1e-3), ("million USD2005/yr", 1e3), ("billion USD2010/yr", 1 / 1.11), ("USD2005/yr", 1e9),
                ("billion USD/yr", 1), ("thousand USD2005/year", 1e6), ("billion USD2005/day", 1 / 365.25), ("USD2010/yr", 1e9 / 1.11), ("billion USD2005/century", 100)],
        "emissions": [("Mt CO2/yr", 1), ("MtCO2/yr", 1), ("GtCO2/yr", 1e-3), ("Gt CO2/yr", 1e-3), ("tCO2/yr", 1e6), ("t CO2/year", 1e6), ("ktCO2/yr", 1e3),
                      ("Tt CO2/yr", 1e-6), ("MtCO2/day", 1 / 365.25), ("MtCO2/century", 100)],
        "population": [("million", 1), ("billion", 1e-3), ("thousand", 1e3), ("trillion", 1e-6), ("", 1e6), ("million", 1)]}
DATABAD = {"GDP": ["MtCO2/yr", "million", "billion USD2005", "apples/yr", "yr"], "emissions": ["billion USD2005/yr", "million", "Mt CO2", "MtC02/yr"],
           "population": ["million USD2005/yr", "Mt CO2/yr", "apples", "yr"]}
PNAME = {"GDP": "baseline_GDP", "emissions": "baseline_emissions", "population": "population"}


def leaves():
    return [(p, n) for p, n in cf.leaves() if n["type"] == "quantity"]


def jobs(tier):
    J = []
    for p, n in leaves():
        J.append({"mode": "amount", "leaf": list(p), "deep": tier == "thorough", "cost": 20 if cf.DIM[n["unit"]] in ("price", "tcre") else 8})
        J.append({"mode": "reject", "leaf": list(p), "cost": 3})
    J += [{"mode": "data", "var": v, "cost": 3} for v in DATA]
    J += [{"mode": "together", "leaf": list(p), "cost": 4} for p, n in leaves()]
    return J


def pv(m, name):
    c = getattr(m, name, None)
    if c is None:
        return None
    vals = [float(v) for v in c.extract_values().values()]
    return vals[0] if len(vals) == 1 else None


def run_job(spec, out):
    {"amount": amount, "reject": reject, "data": data, "together": together}[spec["mode"]](spec, out)


def with_(path, text):
    items = BASE + [(path, text)]
    return cf.nest(items)


def amount(spec, out):
    path = tuple(spec["leaf"])
    node = dict(cf.leaves())[path]
    dim = cf.DIM[node["unit"]]
    base = AMOUNT[dim] if path[-1] != "LBD_scaling" else 37.5
    ref_sig = sg.signature(impl.build(with_(path, f"{base!r} {CANON[dim]}")).concrete_model)
    other = sg.signature(impl.build(with_(path, f"{base * 1.01!r} {CANON[dim]}")).concrete_model)
    if sg.difference(ref_sig, other, 1e-9) is None:
        out.violation("quantity has no effect", f"{' - '.join(path)}: a different amount gives the same model")
    n = 0
    for u, f in ref.UNITS[dim].items():
        full = spec["deep"] or dim != "price" or n % 4 == 0
        n += 1
        texts = [f"{base / f!r} {u}"]
        if full:
            texts += [f"{base / f:.12e} {u}"]
            if not u[:1].isalpha() or " " in u:
                texts += [f"{base / f!r}  {u}"]
        for t in texts:
            out.states += 1
            out.cases += 1
            out.transitions += 1
            try:
                m = impl.build(with_(path, t)).concrete_model
            except Exception as exc:
                out.violation("compatible unit rejected", f"{' - '.join(path)} = {t!r}: {type(exc).__name__}: {exc}"[:300])
                continue
            got = pv(m, PARAM.get(path, "?"))
            if got is not None:
                out.tag("absolute amount")
                if not math.isclose(got, base, rel_tol=1e-9):
                    out.violation("wrong amount", f"{' - '.join(path)} = {t!r}: model uses {got!r}, expected {base!r} {CANON[dim]}")
            if full:
                out.tag("whole model")
                out.validated += 1
                d = sg.difference(sg.signature(m), ref_sig, 1e-8)
                if d:
                    out.violation("wrong amount", f"{' - '.join(path)} = {t!r} instead of {base} {CANON[dim]}: {d}"[:300])
    # magnitudes
    for x in (0.001, 1, 3, 12345.678, 0) if dim != "tcre" else (1e-4, 1e-3):
        x = -x if dim == "rate" else x
        for u, f in list(ref.UNITS[dim].items())[:: max(1, len(ref.UNITS[dim]) // 5)]:
            if x == 0 and (dim in ("price",) or path[-1] == "LBD_scaling"):
                continue
            t = f"{x / f!r} {u}"
            out.states += 1
            out.cases += 1
            out.transitions += 1
            try:
                m = impl.build(with_(path, t)).concrete_model
            except Exception as exc:
                out.violation("compatible unit rejected", f"{' - '.join(path)} = {t!r}: {type(exc).__name__}: {exc}"[:300])
                continue
            got = pv(m, PARAM.get(path, "?"))
            if got is not None:
                out.tag("absolute amount")
                if not math.isclose(got, x, rel_tol=1e-9, abs_tol=1e-300):
                    out.violation("wrong amount", f"{' - '.join(path)} = {t!r}: model uses {got!r}, expected {x!r} {CANON[dim]}")
    out.sample(setting=" - ".join(path), spellings=len(ref.UNITS[dim]), last=t)


def together(spec, out):
    """The same text for two settings, in one configuration and in successive ones."""
    path = tuple(spec["leaf"])
    L = dict(leaves())
    dim = cf.DIM[L[path]["unit"]]
    x = AMOUNT[dim]
    texts = [f"{x / ref.UNITS[dim][u]!r} {u}" for u in list(ref.UNITS[dim])[:3]]
    with impl.scratch_dir() as folder:
        for p2, n2 in L.items():
            if p2 == path:
                continue
            for t in texts:
                for n, items in enumerate(([(path, t), (p2, t)], [(p2, t), (path, t)])):
                    out.states += 1
                    out.cases += 1
                    out.transitions += 4
                    if cf.DIM[n2["unit"]] == dim:
                        try:
                            m = impl.build(cf.nest(BASE + items)).concrete_model
                        except Exception as exc:
                            out.violation("compatible unit rejected", f"{items}: {type(exc).__name__}: {exc}"[:300])
                            continue
                        out.tag("same text twice")
                        for p in (path, p2):
                            got = pv(m, PARAM.get(p, "?"))
                            if got is not None and not math.isclose(got, x, rel_tol=1e-9):
                                out.violation("wrong amount", f"{items}: model uses {got!r} for {' - '.join(p)}, expected {x!r} {CANON[dim]}")
                        continue
                    # a first, accepted, use of the text must not make it acceptable elsewhere
                    first = cf.construct(with_(path, t))
                    if first[0] != "ok":
                        out.violation("compatible unit rejected", f"{' - '.join(path)} = {t!r}")
                    res = [cf.load_file(cf.nest(items), folder), cf.construct(cf.nest(BASE + items)), cf.construct(with_(p2, t))]
                    if any(r[0] == "ok" for r in res):
                        out.violation("incompatible unit accepted", f"{' - '.join(p2)} = {t!r} accepted when {' - '.join(path)} has the same text")
                    else:
                        out.tag("same text rejected")
    out.sample(setting=" - ".join(path), text=texts[0], others=len(L) - 1)


def reject(spec, out):
    path = tuple(spec["leaf"])
    node = dict(cf.leaves())[path]
    dim = cf.DIM[node["unit"]]
    bad = list(UNKNOWN)
    for d, us in ref.UNITS.items():
        if d != dim:
            bad += [f"5 {u}" for u in us]
    with impl.scratch_dir() as folder:
        for t in bad:
            out.states += 1
            out.cases += 1
            out.transitions += 2
            a = cf.load_file(cf.nest([(path, t)]), folder)
            b = cf.construct(with_(path, t))
            if a[0] == "ok" or b[0] == "ok":
                out.violation("incompatible unit accepted", f"{' - '.join(path)} = {t!r} accepted by {'load_params' if a[0] == 'ok' else 'MIMOSA'}")
            else:
                out.tag("incompatible rejected")
    out.sample(setting=" - ".join(path), incompatible=len(bad), example=bad[-1])


def data(spec, out):
    var = spec["var"]
    head, rows = ref.read_csv(os.path.join(impl.DATA, "data", "data_IMAGE_SSP.csv"))
    low = [h.lower() for h in head]
    ix = {k: low.index(k) for k in ("model", "scenario", "region", "variable", "unit")}
    k0 = low.index("2010")
    sel = [r for r in rows if r[ix["model"]] == "IMAGE" and r[ix["scenario"]] == "SSP2-Ref-SPA0-V17" and r[ix["region"]] in ("CAN", "BRA")
           and r[ix["variable"]] == ref.VARNAMES[var]]
    node = dict(cf.leaves())[("input", "variables", var)]["default"]
    ref_sig = sg.signature(impl.build(cf.nest(BASE)).concrete_model)
    src_units = {"GDP": ["currency_unit", "trillion USD2005/yr", "(currency_unit)"], "emissions": ["emissionsrate_unit", "GtCO2/yr", "emissions_unit/yr", "emissions_unit/year"],
                 "population": ["population_unit", "billion"]}[var]
    with impl.scratch_dir() as folder:
        def build(unit, factor, target, mixed=None):
            f = os.path.join(folder, f"d{out.states}.csv")
            out.states += 1
            out.cases += 1
            out.transitions += 1
            with open(f, "w", newline="", encoding="utf8") as fh:
                w = csv.writer(fh)
                w.writerow(head)
                for r in sel:
                    u, fa = (unit, factor) if mixed is None or r[ix["region"]] == "CAN" else mixed
                    r = list(r)
                    r[ix["unit"]] = u
                    r[k0:] = [repr(float(x) * fa) for x in r[k0:]]
                    w.writerow(r)
            return impl.build(cf.nest(BASE + [(("input", "variables", var), dict(node, file=f, unit=target))]))
        for i, (unit, factor) in enumerate(DATA[var]):
            if unit == "":
                continue
            for j, target in enumerate(src_units):
                for mixed in (None, DATA[var][(i + 1) % 3]):
                    try:
                        m = build(unit, factor, target, mixed).concrete_model
                    except Exception as exc:
                        out.violation("compatible unit rejected", f"data series {var} in {unit!r}, source unit {target!r}: {type(exc).__name__}: {exc}"[:300])
                        continue
                    d = sg.difference(sg.signature(m), ref_sig, 1e-8)
                    out.tag("data unit")
                    out.validated += 1
                    if d:
                        out.violation("wrong amount", f"data series {var} in {unit!r}, source unit {target!r}: {d}"[:300])
        for unit in DATABAD[var]:
            try:
                build(unit, 1.0, src_units[0])
                out.violation("incompatible unit accepted", f"data series {var} in {unit!r} accepted")
            except Exception:
                out.tag("data unit rejected")
            try:
                build(DATA[var][0][0], 1.0, unit)
                out.violation("incompatible unit accepted", f"data source {var} with unit {unit!r} accepted")
            except Exception:
                out.tag("data unit rejected")
