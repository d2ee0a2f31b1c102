"""C23: saved output contains every result once, with the right region, unit and year."""
import csv
import itertools
import json
import math
import os
import re
import resource
import signal
import stat

import numpy as np
import pyomo.environ as pyo

from mc import config as cf, explore as ex, impl
from mc.checks import c24
from mc.checks.c03 import in_fork
from mc.signature import difference, signature

PROPERTY = "C23"
BOUNDS = {
    "quick": "full product of modules on rotating grids and region sets (1, 2, 3 and 26 regions; steps 0.5 to 20 years, fractional years): a distinct value in every "
             "cell; all sequences of 3 saves over 9 operations (2 models, names, folders, suffix, blocked target); suffixes of every single-setting "
             "change pairwise; a write failure at every 97th byte and at the last ones of either file, and at every path component",
    "thorough": "as quick with sequences of 4 saves, every flag row of the module product, and a failure at every 11th byte",
}
ASSUMPTIONS = ["equal settings means equal values listed in the same order inside free-form lists and maps (region order is the row order)",
               "settings that are maps have text or number keys (JSON turns the latter into text)",
               "capital stock is labelled with the currency unit of the model, which treats years as a plain number"]
REQUIRED_TAGS = ["cells", "units", "parameter files", "save histories", "suffix different", "suffix equal", "faults reported", "rebuilt from file",
                 "limits enforced", "regions 26", "half-year steps", "saves completed below limit"]

# expected unit of every reported quantity (factors with exponents)
E, C, CR = "GtCO2", "trillion usd", "trillion usd/yr"
UNITS = {
    "GtCO2/yr": "baseline baseline_emissions regional_emissions global_emissions regional_emission_reduction import_export_emission_reduction_balance "
                "paid_for_emission_reductions regional_emission_allowances",
    "GtCO2": "cumulative_emissions cumulative_baseline_emissions",
    "usd*trillion/yr": "GDP_gross GDP_net area_under_MAC baseline_GDP consumption investments mitigation_costs capital_stock financial_transfer "
                       "import_export_mitigation_cost_balance",
    "usd*trillion/GtCO2": "carbonprice global_carbonprice global_cost_per_emission_reduction_unit",
    "GtCO2/usd/trillion": "baseline_carbon_intensity global_emission_reduction_per_cost_unit",
    "fraction_of_GDP": "damage_costs damage_costs_non_slr damage_costs_slr effort_sharing_common_level rel_mitigation_costs",
    "fraction_of_baseline_emissions": "relative_abatement",
    "m": "slr_cumgis slr_cumgsic slr_thermal total_SLR",
    "degC_above_PI": "temperature",
    "billion*people": "population",
    "dimensionless": "LBD_factor LOT_factor NPV TFP emission_relative_cumulative global_rel_mitigation_costs learning_factor mortality_cost_oldest "
                     "mortality_older mortality_oldest mortality_young percapconv_share percapconv_share_pop rel_financial_transfer utility yearly_welfare",
}
UNIT = {n: u for u, ns in UNITS.items() for n in ns.split()}
PLAIN = {"fraction_of_GDP", "fraction_of_baseline_emissions", "dimensionless", ""}    # all are plain shares


def factors(text):
    """Unit text -> {factor: exponent}; order of the factors does not matter."""
    out = {}
    if text in PLAIN:
        return {}
    sign = 1
    for tok in re.findall(r"\*\*|[*/]|[^*/]+", text.replace(" ", "")):
        if tok == "*":
            sign = 1
        elif tok == "/":
            sign = -1
        else:
            tok = {"USD": "usd", "USD2005": "usd", "a": "yr", "year": "yr"}.get(tok, tok)
            out[tok] = out.get(tok, 0) + sign
    return {k: v for k, v in out.items() if v}


GRIDS = [(2020, 2040, 5), (2020, 2025, 0.5), (2015, 2100, 17), (2020, 2050, 20), (2020, 2041, 2.5), (2099, 2110, 1), (2020, 2030, 3.25)]
SETS = [["USA", "INDIA"], ["BRA"], ["WEU", "OCE", "CHN"], None, ["INDIA", "USA"]]


def combos():
    out = []
    for vals in itertools.product(*[v for _, v in c24.MODULES]):
        sel = [(p, v) for (p, _), v in zip(c24.MODULES, vals)]
        if c24.valid(sel):
            out.append(sel)
    return out


def jobs(tier):
    deep = tier == "thorough"
    J = []
    C = combos()
    n = 24
    for k in range(n):
        J.append({"mode": "content", "part": [k, n], "rows": 8 if deep else 1, "cost": 20})
    for first in range(len(OPS)):
        J.append({"mode": "history", "first": first, "depth": 4 if deep else 3, "cost": 30})
    J.append({"mode": "suffix", "cost": 60})
    nf = 8
    for k in range(nf):
        J.append({"mode": "faults", "part": [k, nf], "step": 11 if deep else 97, "cost": 25})
    J.append({"mode": "paths", "cost": 10})
    for k in range(6):
        J.append({"mode": "rebuild", "part": [k, 6], "cost": 15})
    return J


# -- reference ---------------------------------------------------------------
def cells(m, mo, sp):
    """Everything that has to be in the table: {(variable, region): [values]} plus the year labels."""
    regions = list(sp["regions"])
    T = sp["T"]
    out = {}
    for v in m.component_objects(pyo.Var, descend_into=False):
        if v.name.startswith("_"):
            continue
        keys = set(v.keys())
        if keys == set(range(T)):
            out[v.name, "Global"] = [pyo.value(v[t]) for t in range(T)]
        elif keys == set(itertools.product(range(T), regions)):
            for r in regions:
                out[v.name, r] = [pyo.value(v[t, r]) for t in range(T)]
        else:
            raise AssertionError(f"unexpected index of {v.name}")
    for q in m.component_objects(pyo.Param, descend_into=False):
        if q.dim() == 2 and not q.name.startswith("_"):
            for r in regions:
                out[q.name, r] = [pyo.value(q[t, r]) for t in range(T)]
    return out


def years_of(time):
    s, e, dt = time
    n = math.ceil(round((e - s) / dt, 9))
    return [s + dt * k for k in range(n + 1)]


def cell_value(name, index, k):
    """A distinct value per cell: sign, magnitude and digits all depend on the cell."""
    h = 0
    for ch in f"{name}|{index}|{k}":
        h = (h * 131 + ord(ch)) % 1000003
    mant = 1 + (h % 899981) / 100000.0
    return (-1) ** (h % 2) * mant * 10.0 ** (h // 7 % 17 - 8)


SPECIAL = [0.0, -0.0, 1e-300, 1e300, 123456.5, 0.1234565, 999999.5, 9.9999949, -1e-5, 1e5, 100000.0, 1e15, 1234567.0, 2.0, -3.0]


def fill(m, k):
    i = 0
    for v in m.component_objects(pyo.Var, descend_into=False):
        if v.name.startswith("_"):
            continue
        for idx in v:
            i += 1
            x = cell_value(v.name, idx, k) if (i + k) % 29 else SPECIAL[(i // 29 + k) % len(SPECIAL)]
            v[idx].set_value(x, skip_validation=True)


def six(x):
    """Allowed deviation of a value written with six significant digits."""
    return 0 if x == 0 else 0.5 * 10.0 ** (math.floor(math.log10(abs(x))) - 5) * (1 + 1e-9) + abs(x) * 1e-15


def check_table(out, path, want, years, label, k):
    def bad(key, text):
        out.violation(key, f"{text} ({label})"[:400], label=label)

    if not os.path.exists(path):
        bad("file missing", f"{os.path.basename(path)} was not written")
        return False
    with open(path, newline="") as fh:
        rows = list(csv.reader(fh))
    head = rows[0]
    if head[:3] != ["Variable", "Region", "Unit"]:
        bad("columns", f"first columns {head[:3]}")
        return False
    try:
        cols = [float(x) for x in head[3:]]
    except ValueError:
        cols = None
    if cols is None or len(cols) != len(years) or any(abs(a - b) > six(b) for a, b in zip(cols, years)):
        bad("year columns", f"year columns {head[3:8]}..., expected {years[:5]}...")
        return False
    seen = {}
    ok = True
    for row in rows[1:]:
        key = (row[0], row[1])
        if key in seen:
            bad("row twice", f"{key} appears twice")
            ok = False
        seen[key] = row
    for key in want:
        if key not in seen:
            bad("row missing", f"{key} is not in the table")
            return False
    for key, row in seen.items():
        if key not in want:
            bad("row invented", f"{key} is in the table but not in the model")
            return False
        vals = want[key]
        if len(row) != 3 + len(vals):
            bad("row length", f"{key} has {len(row) - 3} values")
            return False
        for y, a, b in zip(years, row[3:], vals):
            try:
                x = float(a)
            except ValueError:
                x = math.nan
            if not abs(x - b) <= six(b):
                bad("value", f"{key} in {y:g}: written {a!r}, the model has {b!r}")
                return False
            out.tag("cells")
        u = UNIT.get(key[0])
        if u is not None:
            if factors(row[2]) != factors(u):
                bad("unit", f"{key[0]} is labelled {row[2]!r}, it is measured in {u!r}")
                return False
            out.tag("units")
    out.validated += 1
    return ok


def plain(x):
    return json.loads(json.dumps(x))


def check_params(out, path, params, label):
    try:
        with open(path + ".params.json") as fh:
            got = json.load(fh)
    except (OSError, ValueError) as e:
        out.violation("parameter file", f"{type(e).__name__}: {e} ({label})"[:300], label=label)
        return
    if got != plain(params):
        d = cf.diff(got, plain(params)) if hasattr(cf, "diff") else ""
        out.violation("parameter file", f"the parameter file differs from the settings: {str(d)[:200]} ({label})", label=label)
        return
    out.tag("parameter files")


def save(mo, *a, **kw):
    with impl.quiet():
        mo.save(*a, **kw)


# -- jobs --------------------------------------------------------------------
def run_job(job, out):
    with impl.scratch_dir() as d, impl.in_dir(d):
        globals()["do_" + job["mode"]](job, out, d)


def model(regions, time, sets):
    regions = list(regions or c24.all_regions())
    sp = ex.spec(regions, time, sets)
    p, mo, m = ex.build(sp, raw=False)
    sp["T"] = len(years_of(time))
    sp["years"] = years_of(time)
    return sp, mo, m


def do_content(job, out, d):
    k0, n = job["part"]
    todo = []
    for row in range(job["rows"]):
        for i, sel in enumerate(combos()):
            extra = [(path, vals[b]) for (path, vals), b in zip(c24.FLAGS, c24.COVER[(row + i) % 8])]
            todo.append((i + row, sel + extra))
    for i, sel in todo[k0::n]:
        regions, time = SETS[i // 5 % len(SETS)], GRIDS[i // 3 % len(GRIDS)]
        sp, mo, m = model(regions, time, sel)
        label = f"modules {[v for _, v in sel[:6]]}, regions {len(sp['regions'])}, time {list(time)}"
        for k in range(2):
            if k:
                fill(m, i)
            save(mo, f"run{k}", folder="a")
            out.states += 1
            out.transitions += 1
            out.cases += 1
            check_table(out, f"a/run{k}.csv", cells(m, mo, sp), sp["years"], label, k)
            check_params(out, f"a/run{k}.csv", mo.params, label)
        out.tag(f"regions {len(sp['regions'])}")
        if time[2] == 0.5:
            out.tag("half-year steps")
        out.sample(config=label)


OPS = [dict(model=0, name="x", folder="out"), dict(model=1, name="x", folder="out"), dict(model=0, name="x", folder="out", hash_suffix=True),
       dict(model=1, name="x", folder="out", hash_suffix=True), dict(model=0, name="y b", folder="deep/er"), dict(model=1, name="x"),
       dict(model=0, name="x", hash_suffix=False), dict(model=1, name="z", folder="blocked"), dict(model=0, name="out", folder="out")]


def do_history(job, out, d):
    A = [model(["USA", "INDIA"], (2020, 2035, 5), []),
         model(["BRA"], (2020, 2027, 2.5), [(("model", "damage module"), "nodamage"), (("model", "emissiontrade module"), "emissiontrade")])]
    k = 0
    for n, rest in enumerate(itertools.product(range(len(OPS)), repeat=job["depth"] - 1)):
        base = os.path.join(d, f"h{n}")
        os.mkdir(base)
        with open(os.path.join(base, "blocked"), "w") as fh:
            fh.write("not a folder")
        written = {}                      # path -> (model, cells, params)
        suffixes = {}
        with impl.in_dir(base):
            for step, o in enumerate((job["first"],) + rest):
                op = dict(OPS[o])
                sp, mo, m = A[op.pop("model")]
                name = op.pop("name")
                k += 1
                fill(m, k)
                before = [v.value for v in m.component_data_objects(pyo.Var)]
                want = cells(m, mo, sp)
                label = f"save {step + 1} of {[job['first'], *rest]}"
                exc = None
                try:
                    save(mo, name, **op)
                except Exception as e:
                    exc = e
                out.states += 1
                out.transitions += 1
                folder = op.get("folder", "output")
                if folder == "blocked":
                    if exc is None:
                        out.violation("failure not reported", f"saving below a file raises no error ({label})", label=label)
                    else:
                        out.tag("faults reported")
                else:
                    if exc is not None:
                        raise exc
                    if mo.last_saved_filename != name:
                        out.violation("last saved name", f"{mo.last_saved_filename!r} after saving {name!r} ({label})", label=label)
                    if op.get("hash_suffix"):
                        new = [f for f in os.listdir(folder) if f.endswith(".csv") and os.path.join(folder, f) not in written]
                        known = suffixes.get(id(mo))
                        if known is None:
                            cand = [f for f in new if f.startswith(name + "_") and len(f) > len(name) + 5]
                            if len(new) != 1 or cand != new:
                                out.violation("suffix", f"new files {new} after saving {name!r} with a suffix ({label})", label=label)
                                break
                            suffixes[id(mo)] = known = cand[0]
                        elif new:
                            out.violation("suffix", f"a second suffix for the same settings: {new} and {known} ({label})", label=label)
                            break
                        target = os.path.join(folder, known)
                    else:
                        target = os.path.join(folder, name + ".csv")
                    written[target] = (sp, want, plain(mo.params))
                # the whole folder is what the history of saves says
                found = set()
                for dp, _, fs in os.walk("."):
                    found |= {os.path.relpath(os.path.join(dp, f), ".") for f in fs}
                expect = {"blocked"} | set(written) | {w + ".params.json" for w in written}
                if found != expect:
                    out.violation("files", f"files {sorted(found ^ expect)[:4]} unexpected or missing ({label})", label=label)
                    break
                if [v.value for v in m.component_data_objects(pyo.Var)] != before:
                    out.violation("results changed", f"saving changed the model ({label})", label=label)
            for target, (sp, want, params) in written.items():
                check_table(out, target, want, sp["years"], f"history {[job['first'], *rest]}", k)
                check_params(out, target, params, f"history {[job['first'], *rest]}")
        out.cases += 1
        out.tag("save histories")


def reorder(d, path=()):
    """Same settings, sections listed in reverse order (free-form maps keep theirs)."""
    if cf_section(path) and isinstance(d, dict):
        return {k: reorder(v, path + (k,)) for k, v in reversed(list(d.items()))}
    return d


_SECTIONS = None


def cf_section(path):
    global _SECTIONS
    if _SECTIONS is None:
        _SECTIONS = {()} | {tuple(p[:i]) for p, _ in cf.leaves() for i in range(1, len(p))}
    return tuple(path) in _SECTIONS


def suffix_of(mo, d, n):
    folder = os.path.join(d, f"s{n}")
    save(mo, "q", folder=folder, hash_suffix=True)
    names = sorted(os.listdir(folder))
    if len(names) != 2 or not all(x.startswith("q_") for x in names):
        return None, names
    return names[0][len("q_"):-len(".csv")], names


def do_suffix(job, out, d):
    time, regions = (2020, 2030, 10), ["USA", "BRA"]
    base = [(("time", "start"), 2020), (("time", "end"), 2030), (("time", "dt"), 10)]
    variants = [[]] + [[(p, v)] for p, v in c24.leaf_values() if p not in (("time", "start"),)]
    variants += [[(("economics", "PRTP"), x)] for x in (0.015, 0.0151, 0.01500001, 0.015000000000000003)]
    variants += [[(("regions",), impl.regions_dict(r))] for r in (["USA"], ["BRA"], ["USA", "BRA", "INDIA"])]
    variants += [[(("regions",), {"USA": {"MAC": {"kappa": 1.0}}, "BRA": {}})], [(("regions",), {"USA": {}, "BRA": {"MAC": {"kappa": 1.0}}})]]
    variants += [[(("simulation", "deactivated_constraints"), x)] for x in (["carbon_budget"], ["net_zero_after_2100"], ["carbon_budget", "net_zero_after_2100"])]
    got = {}
    n = 0
    for v in variants:
        ov = [(("regions",), impl.regions_dict(regions))] + base + v
        try:
            mo = impl.build(impl.params_from(ov), raw=False)
        except Exception:
            out.tag("settings not buildable")
            continue
        n += 1
        s, names = suffix_of(mo, d, n)
        out.states += 1
        if s is None:
            out.violation("suffix", f"files {names} after saving with a suffix", overrides=[list(map(str, x)) for x in v])
            continue
        text = json.dumps(mo.params)
        for other, t in got.items():
            if (other == s) != (t == text):
                out.violation("suffix", f"suffix {s} for {'different' if other == s else 'equal'} settings" if other == s else
                              f"suffixes {s} and {other} for equal settings", overrides=[list(map(str, x)) for x in v])
            elif other == s:
                out.tag("suffix equal")
            else:
                out.tag("suffix different")
        got.setdefault(s, text)
        out.cases += 1
        if n % 7 == 1:
            # same settings again: once more, listed in another order, in another process
            for j, other in enumerate((mo, impl.build(impl.params_from(ov), raw=False), impl.build(reorder(impl.params_from(ov)), raw=False))):
                s2, _ = suffix_of(other, d, f"{n}-{j}")
                if s2 != s:
                    out.violation("suffix", f"suffixes {s} and {s2} for equal settings", overrides=[list(map(str, x)) for x in v])
                else:
                    out.tag("suffix equal")
                out.transitions += 1
            st, val = in_fork(lambda: suffix_of(impl.build(impl.params_from(ov), raw=False), d, f"{n}-f")[0])
            if st != "ok" or val != s:
                out.violation("suffix", f"another process gives suffix {val}, this one {s}", overrides=[list(map(str, x)) for x in v])


def limited_save(mo, limit, name):
    """In a child whose files cannot grow beyond `limit` bytes: did save report an error?"""
    def go():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            save(mo, name, folder="f")
            return "silent"
        except Exception as e:
            return "reported " + type(e).__name__
    return in_fork(go)


def do_faults(job, out, d):
    k0, n = job["part"]
    sp, mo, m = model(["USA", "INDIA"], (2020, 2040, 5), [])
    fill(m, 3)
    save(mo, "ref", folder="f")
    size = {e: os.path.getsize("f/ref.csv" + e) for e in ("", ".params.json")}
    a, b = size[""], size[".params.json"]
    points = sorted(set(list(range(0, max(a, b) + 1, job["step"])) + [x + dx for x in (a, b) for dx in (-2, -1, 0, 1)] + [1, 4095, 4096, 8191, 8192]))
    want = cells(m, mo, sp)
    for limit in points[k0::n]:
        name = f"l{limit}"
        st, val = limited_save(mo, limit, name)
        out.states += 1
        out.cases += 1
        label = f"files limited to {limit} bytes (needed {a} and {b})"
        if st != "ok":
            out.violation("failure not reported", f"save died: {val} ({label})", label=label)
            continue
        if limit < max(a, b):
            out.tag("limits enforced")
            if val == "silent":
                out.violation("failure not reported", f"no error although a file is incomplete ({label})", label=label)
            else:
                out.tag("faults reported")
        else:
            if val != "silent":
                out.violation("spurious failure", f"{val} ({label})", label=label)
            else:
                out.tag("saves completed below limit")
                check_table(out, f"f/{name}.csv", want, sp["years"], label, 3)
                check_params(out, f"f/{name}.csv", mo.params, label)
        for e in size:
            if os.path.exists(f"f/{name}.csv{e}"):
                os.remove(f"f/{name}.csv{e}")
    # afterwards an ordinary save is complete again
    save(mo, "after", folder="f")
    check_table(out, "f/after.csv", want, sp["years"], "after write failures", 3)
    check_params(out, "f/after.csv", mo.params, "after write failures")


def do_paths(job, out, d):
    """A write failure at each place of the path, before and after good saves."""
    sp, mo, m = model(["USA", "INDIA"], (2020, 2040, 5), [])
    faults = {"file in place of the folder": lambda b: open(f"{b}/t", "w").close(),
              "folder in place of the table": lambda b: os.makedirs(f"{b}/t/n.csv"),
              "folder in place of the parameter file": lambda b: os.makedirs(f"{b}/t/n.csv.params.json"),
              "full device behind the table": lambda b: (os.makedirs(f"{b}/t"), os.symlink("/dev/full", f"{b}/t/n.csv")),
              "full device behind the parameter file": lambda b: (os.makedirs(f"{b}/t"), os.symlink("/dev/full", f"{b}/t/n.csv.params.json")),
              "dangling link": lambda b: os.symlink("/nowhere/at all", f"{b}/t")}
    for n, (what, make) in enumerate(faults.items()):
        for before, after in itertools.product((0, 1), repeat=2):
            base = os.path.join(d, f"p{n}{before}{after}")
            os.mkdir(base)
            make(base)
            with impl.in_dir(base):
                fill(m, n)
                want = cells(m, mo, sp)
                if before:
                    save(mo, "good", folder="g")
                exc = None
                try:
                    save(mo, "n", folder="t")
                except Exception as e:
                    exc = e
                out.states += 1
                out.cases += 1
                if exc is None:
                    out.violation("failure not reported", f"no error with {what}", fault=what)
                else:
                    out.tag("faults reported")
                if after:
                    save(mo, "good2", folder="g")
                for good in [x for x, on in (("good", before), ("good2", after)) if on]:
                    check_table(out, f"g/{good}.csv", want, sp["years"], f"around {what}", n)
                    check_params(out, f"g/{good}.csv", mo.params, f"around {what}")


def do_rebuild(job, out, d):
    """A model built from the parameter file is the model that was saved."""
    k0, n = job["part"]
    todo = [(b, []) for b in range(3)]
    todo += [(i % 3, [(p, v)]) for i, (p, v) in enumerate(c24.leaf_values())]
    todo += [(0, [(("simulation", "simulationmode"), True),
                  (("simulation", "constraint_variables"), {"relative_abatement": {y: {"USA": 0.1, "INDIA": 0.2} for y in (2020, 2030, 2040, 2050, 2060)}})])]
    for i, (b, extra) in list(enumerate(todo))[k0::n]:
        ov = [(("regions",), impl.regions_dict(["USA", "INDIA"])), (("time", "end"), 2060), (("time", "dt"), 20)] + c24.BASES[b] + extra
        try:
            p = impl.params_from(ov)
            mo = impl.build(p, raw=False)
        except Exception:
            out.tag("settings not buildable")
            continue
        save(mo, f"m{i}", folder="r")
        out.states += 1
        out.cases += 1
        label = f"base {b}, {extra}"[:200]
        check_params(out, f"r/m{i}.csv", mo.params, label)
        with open(f"r/m{i}.csv.params.json") as fh:
            again = json.load(fh)
        mo2 = impl.build(again, raw=False)
        diff = difference(signature(mo.concrete_model), signature(mo2.concrete_model))
        if diff or plain(mo2.params) != plain(mo.params):
            out.violation("not reproducible", f"the model built from the parameter file differs: {diff} ({label})"[:400], label=label)
        else:
            out.tag("rebuilt from file")
            out.validated += 1
