"""Planted bugs (development material for /verif/seeded)."""
PRELUDE = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
os.environ["MC_REPO"] = os.getcwd()
'''
ENG = '''from engine import impl, forward as fw
from engine.compilem import Compiled
import numpy as np


def path(sets, regions, time, **ctl):
    """Evaluate one policy path with the model's own equations."""
    ov = [(("regions",), {r: {} for r in regions})] + [(("time", k), v) for k, v in zip(("start", "end", "dt"), time)] + sets
    p = impl.params_from(ov)
    C = Compiled(impl.build(p).concrete_model)
    T = len(C.t)
    arr = {}
    for k, v in ctl.items():
        v = np.asarray(v, float)
        if v.ndim == 1:
            arr[k] = np.array(v)[:, None]
        else:
            arr[k] = (v[:, :, None], C.regions[: v.shape[1]])
    if C.has_var("effort_sharing_common_level") and "effort_sharing_common_level" not in arr:
        arr["effort_sharing_common_level"] = np.zeros((T, 1))
    r = fw.forward(C, arr)
    assert r.ok.all()
    return C, r


def need(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)


OFF = [(("emissions", k), False) for k in ("global min level", "regional min level", "not positive after budget year",
                                           "non increasing emissions after 2100")] + \\
      [(("emissions", "inertia", k), False) for k in ("regional", "global")]
'''
E = "mimosa/components/emissions.py"
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo, engine=True):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=(ENG if engine else "") + demo, engine=engine)


seed("s10-sum-previous-step", "C10", [(E, "else (m.dt * m.global_emissions[t])", "else (m.dt * m.global_emissions[t - 1])")],
     "the trapezoid rule switched off and emissions that change between steps",
     "cumulative emissions add the previous year's emissions instead of the year's own",
     '''
C, r = path([(("emissions", "cumulative_emissions_trapz"), False)] + OFF, ["USA", "INDIA"], (2020, 2035, 5),
            relative_abatement=[[0, 0], [.3, .2], [.5, .6], [.7, .9]])
E, c = r.get("global_emissions")[:, 0], r.get("cumulative_emissions")[:, 0]
need(np.allclose(c[1:], c[:-1] + 5 * E[1:], rtol=1e-6), "cumulative emissions do not add dt * emissions of the year")
''')
seed("s11-budget-first-year-only", "C11", [(E, "if (m.year(t) >= 2100 and value(m.budget) is not False)",
                                            "if (t == m.year2100 and value(m.budget) is not False)")],
     "a path whose cumulative emissions exceed the budget only after the first step from 2100 on",
     "the carbon budget is only enforced in one time step",
     '''
sets = OFF + [(("emissions", "carbonbudget"), "60 GtCO2")]
C, r = path(sets, ["WEU"], (2080, 2120, 10), relative_abatement=[[0], [.6], [.9], [.6], [.6]])
c = r.get("cumulative_emissions")[:, 0]
sets = OFF + [(("emissions", "carbonbudget"), f"{(c[2] + c[-1]) / 2} GtCO2")]
C, r = path(sets, ["WEU"], (2080, 2120, 10), relative_abatement=[[0], [.6], [.9], [.6], [.6]])
need(not r.admissible()[0][0], "cumulative emissions above the budget after 2100 are admitted")
''')
seed("s12-growth-limit-first-step", "C12", [(E, "if m.year(t - 1) > 2100\n", "if m.year(t) > 2100\n")],
     "emissions that rise in the step leading out of 2100 while the post-2100 limit is on",
     "the limit on rising emissions is already applied to the step that starts in 2100",
     '''
sets = [s for s in OFF if "non increasing" not in s[0][-1]] + [(("emissions", "non increasing emissions after 2100"), True)]
C, r = path(sets, ["RUS"], (2090, 2110, 5), relative_abatement=[[0], [.5], [.6], [.4], [.5]])
need(r.admissible()[0][0], "a path that only rises from 2100 to the next step is rejected")
C, r = path(sets, ["RUS"], (2090, 2115, 5), relative_abatement=[[0], [.5], [.6], [.6], [.6], [.3]])
need(not r.admissible()[0][0], "a path rising after 2105 is admitted")
''')
M = "mimosa/components/mitigation.py"
seed("s13-relative-to-net", "C13", [(M, "== m.mitigation_costs[t, r] / m.GDP_gross[t, r],", "== m.mitigation_costs[t, r] / m.GDP_net[t, r],")],
     "a path with damages or abatement costs, so that net and gross GDP differ",
     "relative mitigation costs are taken against net instead of gross GDP",
     '''
C, r = path(OFF, ["USA", "INDIA"], (2020, 2060, 10), relative_abatement=[[0, 0], [.3, .2], [.5, .6], [.7, .9], [1., .9]])
need(np.allclose(r.get("rel_mitigation_costs"), r.get("mitigation_costs") / r.get("GDP_gross"), rtol=1e-6), "relative costs are not against gross GDP")
''')
L = "mimosa/components/sealevelrise.py"
seed("s14-ice-same-year", "C14", [(L, "== slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t - 1], m)", "== slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t], m)")],
     "two policies that differ only in one year's abatement",
     "glacier melt reacts to the temperature of the same year",
     '''
a = [[0], [.3], [.5], [.5]]
b = [[0], [.3], [.5], [.9]]
x, y = (path(OFF, ["CHN"], (2020, 2050, 10), relative_abatement=q)[1].get("total_SLR")[:, 0] for q in (a, b))
need(np.allclose(x, y, rtol=1e-10), "sea level depends on abatement in the same year")
''')
P = "mimosa/concrete_model/instantiate_params.py"
seed("s15-combined-median", "C15", [(P, 'f"combined_b2_{adapt_prfx}-q{damage_quantile}"', 'f"combined_b2_{adapt_prfx}-q0.5"')],
     "combined damage functions with a quantile other than the median",
     "the quadratic coefficient ignores the damage quantile",
     '''
import csv
D = ("economics", "damages")
C, r = path(OFF + [(D + ("coacch_combined_slr_nonslr_damages",), True), (D + ("quantile",), 0.95)], ["USA"], (2020, 2060, 20),
            relative_abatement=[[0], [.3], [.5]])
rows = list(csv.DictReader(open(os.path.join(impl.PKG, "inputdata/regionalparams/COACCH.csv"))))
mp = [b for a, b in csv.reader(open(os.path.join(impl.PKG, "inputdata/regions/IMAGE26_COACCH.csv"))) if a == "USA"]
b1, b2 = (np.mean([float(x[k]) for x in rows if x["region"] in mp]) for k in ("combined_b1_Ad-q0.95", "combined_b2_Ad-q0.95"))
T = r.get("temperature")[:, 0]
f = lambda x: b1 * (x - .6) + b2 * (x - .6) ** 2
need(np.allclose(r.get("damage_costs")[:, 0, 0], (f(T) - f(T[0])) / 100, rtol=1e-6, atol=1e-12), "damages are not those of the quantile")
''')
B = "mimosa/components/cobbdouglas.py"
seed("s16-transfer-before-damage", "C16", [(B, '''                == m.GDP_gross[t, r]
                * (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))
                - m.mitigation_costs[t, r]
                - m.financial_transfer[t, r],''', '''                == (m.GDP_gross[t, r] - m.financial_transfer[t, r])
                * (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))
                - m.mitigation_costs[t, r],''')],
     "the damage pool module, a non-zero transfer and damages that are not ignored",
     "financial transfers are reduced by the region's damages before they reach net GDP",
     '''
C, r = path(OFF + [(("model", "financialtransfer module"), "globaldamagepool")], ["USA", "INDIA"], (2020, 2080, 20),
            relative_abatement=[[0, 0], [.2, .3], [.2, .3], [.2, .3]], financial_transfer=[[0], [.1], [.1], [.1]])
g = r.get
need(np.allclose(g("GDP_net"), g("GDP_gross") * (1 - g("damage_costs")) - g("mitigation_costs") - g("financial_transfer"), rtol=1e-7),
     "net GDP does not balance")
''')
X = "mimosa/components/emissiontrade/emissiontrade.py"
seed("s17-initial-population", "C17", [(X, '''                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)
                / sum(m.population[t, r] for r in m.regions),''', '''                == sum(m.carbonprice[t, r] * m.population[0, r] for r in m.regions)
                / sum(m.population[0, r] for r in m.regions),''')],
     "emission trading between regions whose population shares change",
     "the global carbon price is weighted by first-year population",
     '''
C, r = path(OFF + [(("model", "emissiontrade module"), "emissiontrade")], ["USA", "INDIA"], (2020, 2080, 20),
            relative_abatement=[[0, 0], [.2, .8], [.2, .8], [.2, .8]], import_export_mitigation_cost_balance=[[0], [.01], [.01], [.01]])
p, pr = r.get("population")[:, :, 0], r.get("carbonprice")[:, :, 0]
need(np.allclose(r.get("global_carbonprice")[:, 0], (p * pr).sum(1) / p.sum(1), rtol=1e-7), "global price is not population weighted")
''')
FT = "mimosa/components/financialtransfer/globaldamagepool.py"
seed("s18-last-year-free", "C18", [(FT, '''                    sum(m.financial_transfer[t, r] for r in m.regions) == 0.0
                    if t > 0''', '''                    sum(m.financial_transfer[t, r] for r in m.regions) == 0.0
                    if 0 < t < m.tf''')],
     "transfers that do not add up in the last model year only",
     "the zero-sum rule is not applied in the last year",
     '''
R = ["USA", "INDIA"]
z = [[0, 0], [.001, -.001], [.001, .001]]
C, r = path(OFF + [(("model", "financialtransfer module"), "globaldamagepool")], R, (2020, 2060, 20),
            relative_abatement=[[0, 0], [.2, .3], [.2, .3]], financial_transfer=z)
need(not r.admissible()[0][0], "transfers not adding up to zero are admitted")
z[2][1] = -.001
C, r = path(OFF + [(("model", "financialtransfer module"), "globaldamagepool")], R, (2020, 2060, 20),
            relative_abatement=[[0, 0], [.2, .3], [.2, .3]], financial_transfer=z)
need(r.admissible()[0][0], "zero-sum transfers are rejected")
''')
Y = "mimosa/components/effortsharing.py"
seed("s19-share-overshoot", "C19", [(Y, "        min(year_linear_part, 1) * m.percapconv_share_pop[t, r]", "        year_linear_part * m.percapconv_share_pop[t, r]")],
     "model years after the convergence year",
     "per-capita convergence shares keep growing after the convergence year and no longer sum to one",
     '''
C, r = path(OFF + [(("model", "emissiontrade module"), "emissiontrade"), (("effort sharing", "regime"), "per_cap_convergence"),
                   (("effort sharing", "percapconv_year"), 2040)], ["USA", "INDIA"], (2020, 2060, 20),
            relative_abatement=[[0, 0], [.2, .8], [.2, .8]], import_export_mitigation_cost_balance=[[0], [0], [0]])
from pyomo.environ import value
for t in C.t:
    s = sum(value(C.m.percapconv_share[t, q]) for q in C.regions)
    need(abs(s - 1) < 1e-9, f"shares sum to {s}")
''')
U = "mimosa/components/objective/utility.py"
seed("s20-discount-from-2020", "C20", [(U, "* exp(-m.PRTP * (m.year(t) - m.beginyear))", "* exp(-m.PRTP * (m.year(t) - 2020))")],
     "a start year other than 2020",
     "the discount factor counts from 2020 instead of the start year",
     '''
C, r = path(OFF, ["USA", "INDIA"], (2030, 2060, 10), relative_abatement=[[0, 0], [.2, .8], [.2, .8], [.3, .4]])
W, N = r.get("yearly_welfare")[:, 0], r.get("NPV")[:, 0]
want = np.concatenate([[0], np.cumsum(10 * np.exp(-0.015 * np.array([10, 20, 30])) * W[1:])])
need(np.allclose(N, want, rtol=1e-6), "discounted total does not count from the start year")
''')


PLAIN = '''import contextlib, copy, io, json
from mimosa import MIMOSA, load_params


class Raw(MIMOSA):
    """The model as instantiated, before preprocessing."""
    def preprocessing(self):
        pass


def params(regions, time=(2020, 2050, 10), sets=()):
    p = load_params()
    p["regions"] = regions if isinstance(regions, dict) else {r: {} for r in regions}
    for k, v in zip(("start", "end", "dt"), time):
        p["time"][k] = v
    for path, v in sets:
        d = p
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = v
    return p


def build(p, cls=Raw):
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(p)


def par(model, name):
    """Values of a parameter by index."""
    return {k: getattr(model.concrete_model, name)[k] + 0.0 if isinstance(getattr(model.concrete_model, name)[k], (int, float))
            else getattr(model.concrete_model, name)[k].value for k in getattr(model.concrete_model, name)}


def accepted(p):
    try:
        build(p)
        return True
    except Exception:
        return False


def need(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)


'''


def plain(sid, prop, edits, needs, breaks, demo):
    seed(sid, prop, edits, needs, breaks, PLAIN + demo.lstrip("\n"), engine=False)


P = "mimosa/common/config/utils/parsers.py"
PC = "mimosa/common/config/parseconfig.py"
DS = "mimosa/common/data/datastore.py"
DU = "mimosa/common/data/utils.py"
RP = "mimosa/common/regional_params/main.py"
RM = "mimosa/common/regional_params/region_mappers.py"
RC = "mimosa/common/regional_params/regional_param_container.py"
IP = "mimosa/concrete_model/instantiate_params.py"
SC = "mimosa/concrete_model/simulation_mode/set_constraints.py"
SD = "mimosa/concrete_model/simulation_mode/deactivate_constraints.py"
SU = "mimosa/concrete_model/simulation_mode/utils.py"
MM = "mimosa/mimosa.py"
SV = "mimosa/export/save.py"
PU = "mimosa/common/pyomo_utils.py"
UN = "mimosa/common/units.py"
UT = "mimosa/common/utils.py"
AM = "mimosa/abstract_model.py"

# ------------------------------------------------------------------ C01
plain("s01-null-means-default", "C01", [(P, "        return self.parse(to_be_parsed)\n",
      "        if to_be_parsed is None:\n            to_be_parsed = self.default\n        return self.parse(to_be_parsed)\n")],
      "a setting that is given explicitly as null", "an explicit null is replaced by the default instead of being rejected", '''
need(accepted(params(["USA"])), "plain configuration")
need(not accepted(params(["USA"], sets=[(("economics", "MAC", "beta"), None)])), "null accepted for a number")
''')
plain("s01-scalar-for-section", "C01", [(P, "        except KeyError:\n            # If it is not defined",
      "        except (KeyError, TypeError):\n            # If it is not defined")],
      "a whole section of settings replaced by a single value", "a section given as a plain value is silently replaced by all its defaults", '''
p = params(["USA"])
p["temperature"] = 3
need(not accepted(p), "a plain value is accepted in place of a section")
''')
plain("s01-empty-entry-unparsed", "C01", [(P, "return parser.parse(value) if parser is not None else value",
      "return parser.parse(value) if parser and value else value")],
      "an empty, zero or false entry inside a list or dictionary setting", "falsy list entries bypass validation", '''
m = build(params(["USA"], sets=[(("simulation", "deactivated_constraints"), [0])]))
need(m.params["simulation"]["deactivated_constraints"] == ["0"], str(m.params["simulation"]["deactivated_constraints"]))
''')
plain("s01-enum-as-text", "C01", [(P, "        if value not in self.allowed_values:\n            self.error(f\"Value {value} not in allowed values {self.allowed_values}\")\n        return value",
      "        for allowed in self.allowed_values:\n            if value == allowed or str(value).strip() == str(allowed):\n                return value\n        self.error(f\"Value {value} not in allowed values {self.allowed_values}\")")],
      "a choice given as text with surrounding blanks or a numeric choice as text", "values which are not in the choice list are accepted and kept as they are", '''
need(not accepted(params(["USA"], sets=[(("economics", "damages", "quantile"), "0.5")])), "text accepted for a numeric choice")
''')

# ------------------------------------------------------------------ C02
plain("s02-dict-child", "C02", [(PC, 'if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:',
      'if isinstance(node, dict) and (\n            parser_type not in ["dict", "datasource"] and len(keys) < 2\n        ):')],
      "a misspelled key in a section three levels deep", "keys are not checked below the second level", '''
p = params(["USA"])
need(accepted(p), "plain configuration")
p["economics"]["MAC"]["betta"] = 3
need(not accepted(p), "a misspelled key three levels deep is ignored")
p = params(["USA"])
p["emissions"]["inertia"]["regionall"] = False
need(not accepted(p), "a misspelled key three levels deep is ignored")
''')
# ------------------------------------------------------------------ C03
plain("s03-cached-defaults", "C03", [(UT, "def load_yaml(filename):", "@functools.lru_cache(maxsize=None)\ndef load_yaml(filename):"),
      (UT, "import os\nimport time", "import functools\nimport os\nimport time"),
      (P, "            return parsed_list\n", "            return value if value == parsed_list else parsed_list\n")],
      "changing, in place, a dictionary that came with the defaults, then loading the defaults again",
      "the default file is cached and lists are kept when nothing in them was converted, so default lists are shared between all loads", '''
a = load_params()
a["regions"]["USA"]["MAC"] = {"kappa_rel_abatement_0.75_2050": 9}
a["input"]["variables"]["GDP"]["scenario"] = "changed"
b = load_params()
need(not b["regions"]["USA"], "the defaults changed: " + str(b["regions"]["USA"]))
need(b["input"]["variables"]["GDP"]["scenario"] != "changed", "the defaults changed")
b["regionsmappings"][0]["regionstype2"] = "changed"
need(load_params()["regionsmappings"][0]["regionstype2"] != "changed", "the defaults changed")
''')
plain("s01-recorded-end-changes", "C01", [(DS, '        endyear = self.params["time"]["end"] + 50  # Make sure extrapolation goes well\n',
      '        time = self.params["time"]\n        if (time["end"] - beginyear) % time["dt"]:\n            time["end"] += time["dt"] - (time["end"] - beginyear) % time["dt"]\n        endyear = time["end"] + 50  # Make sure extrapolation goes well\n')],
      "an end year that is not a whole number of steps after the start", "the recorded end year of the model is changed to the last model year", '''
m = build(params(["USA"], (2020, 2055, 10)))
need(m.params["time"]["end"] == 2055, "recorded parameters differ from the given ones: " + str(m.params["time"]))
''')

# ------------------------------------------------------------------ C04
plain("s04-only-top-section", "C04", [(PC, 'other_value = get_nested(params, match.split(" - "))', 'other_value = get_nested(params, match.split(" - ", 1))')],
      "a reference to a setting nested three levels deep", "references with more than two keys are left unresolved", '''
m = build(params(["USA"], sets=[(("regional_parameter_files", "economics", "filename"),
                                 "inputdata/regionalparams/economics.csv"), (("simulation", "constraint_variables"), {"x": "{economics - MAC - beta}"})]))
need(m.params["simulation"]["constraint_variables"]["x"] == str(m.params["economics"]["MAC"]["beta"]), str(m.params["simulation"]["constraint_variables"]))
''')
# ------------------------------------------------------------------ C05
plain("s05-no-brackets", "C05", [(UN, 'units = units.replace(key, f"({value})")', 'units = units.replace(key, value)')],
      "a unit in which a composite default unit is divided by", "the composite default unit is inserted without brackets", '''
p = params(["USA"])
need(accepted(p), "plain configuration")
a = build(params(["USA"])).concrete_model.MAC_gamma.value
need(abs(a - 2.601) < 1e-9, f"gamma is {a} instead of 2.601 trillion USD per GtCO2")
''')
plain("s05-memo", "C05", [(UN, "        if args[0] is False and can_be_false:", "        if len(args) == 2 and only_magnitude and args[0] in self._cache:\n            return self._cache[args[0]]\n\n        if args[0] is False and can_be_false:"),
      (UN, "        self.default_units = DEFAULT_UNITS\n", "        self.default_units = DEFAULT_UNITS\n        self._cache = {}\n"),
      (UN, "            return quantity.to(target_unit).magnitude\n", "            magnitude = quantity.to(target_unit).magnitude\n            if len(args) == 2:\n                self._cache[args[0]] = magnitude\n            return magnitude\n")],
      "the same text given for two quantities with different dimensions", "a text converted once is not checked against the dimension of another setting", '''
p = params(["USA"], sets=[(("economics", "MAC", "LBD_scaling"), "40 GtCO2"), (("temperature", "target"), "40 GtCO2")])
need(not accepted(p), "an amount of CO2 accepted as temperature target")
''')
plain("s05-data-unit-kept", "C05", [(DS, '        if "unit" in var_info:\n', '        if "unit" in var_info and unit.split("/")[0] != var_info["unit"].split("/")[0]:\n')],
      "a data series whose unit differs from the internal one only after the first slash", "the series is taken over without conversion", '''
import pandas as pd, tempfile
src = load_params()["input"]["variables"]["emissions"]
d = os.path.join(os.getcwd(), "mimosa")
p0 = params(["USA"])
v = dict(p0["input"]["variables"]["emissions"])
v["file"] = v["file"].format(SSP="SSP2") if "{" in v["file"] else v["file"]
df = pd.read_csv(os.path.join(d, v["file"]))
unit = df.loc[df["Variable" if "Variable" in df else "variable"] == v["variable"], "Unit" if "Unit" in df else "unit"].iloc[0]
years = [c for c in df.columns if c.isdigit()]
with tempfile.TemporaryDirectory() as tmp:
    g = df.copy()
    u = "Unit" if "Unit" in g else "unit"
    sel = g["Variable" if "Variable" in g else "variable"] == v["variable"]
    g.loc[sel, u] = "GtCO2/day"
    f = os.path.join(tmp, "d.csv")
    g.to_csv(f, index=False)
    q = params(["USA"])
    q["input"]["variables"]["emissions"] = {**v, "file": f, "unit": "emissionsrate_unit"}
    a = par(build(p0), "baseline_emissions")[0, "USA"]
    from mimosa.common import quant
    want = a / quant(1, unit, "GtCO2/yr") * 365.25
    b = par(build(q), "baseline_emissions")[0, "USA"]
    q["input"]["variables"]["emissions"]["unit"] = "GtCO2/yr"
    c = par(build(q), "baseline_emissions")[0, "USA"]
need(abs(b / want - 1) < 1e-3 and abs(c / want - 1) < 1e-3, f"{b}, {c} instead of {want}")
''')

# ------------------------------------------------------------------ C06
plain("s06-no-margin", "C06", [(DS, 'endyear = self.params["time"]["end"] + 50  # Make sure extrapolation goes well', 'endyear = self.params["time"]["end"] + 1')],
      "an end year that is not a whole number of steps after the start", "the last model year repeats the data of the year before", '''
a = par(build(params(["USA"], (2020, 2055, 10))), "baseline_GDP")
b = par(build(params(["USA"], (2020, 2060, 10))), "baseline_GDP")
need(abs(a[4, "USA"] - b[4, "USA"]) < 1e-6, f"{a[4, 'USA']} instead of {b[4, 'USA']}")
''')
plain("s06-fade-by-year", "C06", [(DU, "change_rate - change_rate * (t_prev - 2100.0) / stabilising_years", "change_rate - change_rate * (t - 2100.0) / stabilising_years")],
      "model years after 2100", "the growth rate after the last data year fades one step too early", '''
a = par(build(params(["INDIA"], (2020, 2140, 10))), "population")
g = (a[8, "INDIA"] - a[7, "INDIA"]) / 10
need(abs(a[9, "INDIA"] - a[8, "INDIA"] - 10 * g) < 1e-6, "2100-2110 does not continue with the last growth rate")
''')
plain("s06-cache-without-scenario", "C06", [(DS, "        key = (model, scenario, region, variablename)\n", "        key = (model, region, variablename)\n")],
      "two scenarios of the same data file in one process", "the second scenario gets the data of the first", '''
v = "baseline_GDP"
b = par(build(params(["USA"], sets=[(("SSP",), "SSP2")])), "baseline_GDP")[3, "USA"]
a = par(build(params(["USA"], sets=[(("SSP",), "SSP5")])), "baseline_GDP")[3, "USA"]
need(abs(a - b) > 1e-3, "SSP5 has the GDP of SSP2")
''')
plain("s06-growth-of-decrease", "C06", [(DU, "    minmax = np.maximum if change_rate > 0 else np.minimum\n", "    minmax = np.maximum\n")],
      "a series that still falls at the end of the data", "falling series are held constant after the last data year", '''
a = par(build(params(["CHN"], (2020, 2140, 10))), "population")
need(a[8, "CHN"] < a[7, "CHN"], "test region")
need(a[9, "CHN"] < a[8, "CHN"] - 1e-6, "population does not keep falling after 2100")
''')

# ------------------------------------------------------------------ C07
plain("s07-manual-zero", "C07", [(RP, '            value = self.params["regions"][region][category][paramname]\n',
      '            value = self.params["regions"][region][category][\n                paramname\n            ] or self.categories[category].get(paramname, region)\n')],
      "a manual regional value of zero", "a manual zero is ignored", '''
name = load_params()["economics"]["MAC"]["regional calibration factor"]
m = par(build(params({"USA": {"economics": {"init_capital_factor": 0}}, "INDIA": {}})), "init_capitalstock_factor")
need(m["USA"] == 0, f"{m['USA']} instead of 0")
''')
plain("s07-mean-to-first", "C07", [(RM, '            col_name: "mean" if pd.api.types.is_numeric_dtype(column) else "first"', '            col_name: "median" if pd.api.types.is_numeric_dtype(column) else "first"')],
      "a mapping in which three or more source regions map to one region", "the median is taken instead of the average", '''
import pandas as pd, tempfile
with tempfile.TemporaryDirectory() as tmp:
    pd.DataFrame({"region": ["A", "B", "C", "D"], "init_capital_factor": [1., 2., 9., 5.]}).to_csv(tmp + "/e.csv", index=False)
    pd.DataFrame({"SRC": ["A", "B", "C", "D"], "IMAGE26": ["USA", "USA", "USA", "INDIA"]}).to_csv(tmp + "/m.csv", index=False)
    p = params(["USA", "INDIA"])
    p["regionsmappings"] = p["regionsmappings"] + [{"regionstype1": "IMAGE26", "regionstype2": "SRC", "conversiontable": tmp + "/m.csv"}]
    p["regional_parameter_files"]["economics"] = {"filename": tmp + "/e.csv", "regionstype": "SRC"}
    m = par(build(p), "init_capitalstock_factor")
need(abs(m["USA"] - 4) < 1e-9, f"{m['USA']} instead of 4")
''')
# ------------------------------------------------------------------ C08
plain("s08-integer-labels", "C08", [(SV, '    years = ["{:g}".format(year) for year in m.year(np.array(m.t))]', '    years = ["{:.0f}".format(year) for year in m.year(np.array(m.t))]')],
      "a fractional time step", "year columns are rounded to whole years", '''
import pandas as pd, tempfile
m = build(params(["USA"], (2020, 2025, 2.5)), MIMOSA)
with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
    m.save("x", folder=tmp)
    cols = list(pd.read_csv(tmp + "/x.csv").columns[3:])
need([float(c) for c in cols] == [2020, 2022.5, 2025], str(cols))
''')
plain("s08-year-rounded", "C08", [(IP, "        self.abstract_model.year = lambda t: t_start + t * dt\n", "        self.abstract_model.year = lambda t: np.round(t_start + t * dt)\n")],
      "a fractional time step", "years are rounded to whole years", '''
m = build(params(["USA"], (2020, 2025, 2.5))).concrete_model
need(float(m.year(1)) == 2022.5, f"second year is {m.year(1)}")
''')
plain("s08-data-grid-rounded", "C08", [(DS, "        self.data_years = np.arange(beginyear, endyear, dt)\n", "        self.data_years = np.arange(beginyear, endyear, max(dt, 1))\n")],
      "a time step below one year", "data between whole years are interpolated linearly instead of on the model's own grid", '''
a = par(build(params(["INDIA"], (2020, 2030, 0.5))), "baseline_GDP")
from scipy.interpolate import interp1d
f = interp1d(range(2020, 2031), [a[2 * i, "INDIA"] for i in range(11)], kind="cubic")
need(abs(a[9, "INDIA"] - f(2024.5)) < 2e-5 * a[9, "INDIA"], f"{a[9, 'INDIA']} {f(2024.5)}")
''')

# ------------------------------------------------------------------ C09
plain("s09-mapper-cache", "C09", [(RP, "            mapper = RegionMapper(regionstype1, regionstype2, conversiontable)\n", "            mapper = RegionalParamStore.mappers.setdefault(\n                (regionstype1, regionstype2),\n                RegionMapper(regionstype1, regionstype2, conversiontable),\n            )\n"),
      (RP, "    def __init__(self, params, param_parser_tree):\n", "    mappers = {}\n\n    def __init__(self, params, param_parser_tree):\n")],
      "two models in one process with different mapping tables between the same region types",
      "the mapping table of an earlier model is used for all later ones", '''
import pandas as pd, tempfile
with tempfile.TemporaryDirectory() as tmp:
    p = params(["USA", "INDIA"])
    old = [m for m in p["regionsmappings"] if m["regionstype2"] == "COACCH"][0]
    df = pd.read_csv(os.path.join("mimosa", old["conversiontable"]))
    g = df.copy()
    i, j = [df.index[df["IMAGE26"] == r][0] for r in ("USA", "INDIA")]
    g.loc[i, "IMAGE26"], g.loc[j, "IMAGE26"] = "INDIA", "USA"
    g.to_csv(tmp + "/m.csv", index=False)
    a = par(build(p), "damage_noslr_b1")
    q = params(["USA", "INDIA"])
    for m in q["regionsmappings"]:
        if m["regionstype2"] == "COACCH":
            m["conversiontable"] = tmp + "/m.csv"
    b = par(build(q), "damage_noslr_b1")
need(a["USA"] == b["INDIA"] and a["USA"] != b["USA"], f"{a} {b}")
''')
plain("s09-file-by-name", "C09", [(DS, "        filename = var_info[\"file\"]\n        model = var_info", "        filename = os.path.basename(var_info[\"file\"])\n        model = var_info"),
      (DS, "        if filename not in DataStore.databases:\n", "        filename = os.path.basename(filename)\n        if filename not in DataStore.databases:\n")],
      "two data files of the same name in different folders, used in one process", "the second file is not read", '''
import pandas as pd, shutil, tempfile
v = dict(params(["USA"])["input"]["variables"]["population"])
a = build(params(["USA"]))
f = a.params["input"]["variables"]["population"]["file"]
df = pd.read_csv(os.path.join("mimosa", f))
years = [c for c in df.columns if c[:1].isdigit()]
df[years] = df[years] * 2
with tempfile.TemporaryDirectory() as tmp:
    g = os.path.join(tmp, os.path.basename(f))
    df.to_csv(g, index=False)
    p = params(["USA"])
    p["input"]["variables"]["population"]["file"] = g
    b = build(p)
x, y = par(a, "population")[0, "USA"], par(b, "population")[0, "USA"]
need(abs(y - 2 * x) < 1e-9, f"{y} instead of {2 * x}")
''')
plain("s09-converted-in-cache", "C09", [(DS, '            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)\n            values = quantity.magnitude\n            unit = quantity.units\n',
      '            quantity = quant(values, unit, var_info["unit"], only_magnitude=False)\n            values = years_values_unit["values"] = quantity.magnitude\n            unit = quantity.units\n')],
      "a second model that reads the same data row", "the cached row is converted again for every model", '''
a = par(build(params(["USA"])), "population")[0, "USA"]
b = par(build(params(["USA"])), "population")[0, "USA"]
need(a == b, f"{a} {b}")
''')

plain("s04-no-underscore", "C04", [(PC, r're.findall(r"\{([\w -]+)\}", node)', r're.findall(r"\{([A-Za-z0-9 -]+)\}", node)')],
      "a reference to a setting whose name contains an underscore", "such references are left unresolved", '''
m = build(params(["USA"], sets=[(("simulation", "constraint_variables"), {"x": "{economics - MAC - LBD_scaling}"})]))
need(m.params["simulation"]["constraint_variables"]["x"] == "40 GtCO2", str(m.params["simulation"]["constraint_variables"]))
''')
plain("s04-first-reference-only", "C04", [(PC, r'for match in re.findall(r"\{([\w -]+)\}", node):', r'for match in re.findall(r"\{([\w -]+)\}", node)[:1]:')],
      "a text with two references", "only the first reference in a text is resolved", '''
m = build(params(["USA"], sets=[(("simulation", "constraint_variables"), {"x": "{SSP}_{time - dt}.csv"})]))
need(m.params["simulation"]["constraint_variables"]["x"] == f"SSP2_{m.params['time']['dt']}.csv", str(m.params["simulation"]["constraint_variables"]))
''')

# ------------------------------------------------------------------ C21
SIMHEAD = '''
import numpy as np
from pyomo.environ import Constraint, value


def rows(m, name):
    """Values and bounds of all active constraint rows that contain variable `name`'s pin."""
    out = []
    for c in m.component_data_objects(Constraint, active=True):
        out.append(c)
    return out


def pin_slack(m0, m1, var, t, r, at):
    """Smallest slack of the rows that simulation mode added when the variable has the value `at`."""
    known = {c.name for c in m0.component_data_objects(Constraint, active=True)}
    x = getattr(m1, var)
    idx = t if r is None else (t, r)
    for k in x:
        x[k].set_value(at if k == idx else 0, skip_validation=True)
    worst = np.inf
    for c in m1.component_data_objects(Constraint, active=True):
        if c.name in known:
            continue
        if c.index() != idx:
            continue
        b = value(c.body)
        if c.upper is not None:
            worst = min(worst, value(c.upper) - b)
        if c.lower is not None:
            worst = min(worst, b - value(c.lower))
    return worst


def models(entries, regions=("USA", "INDIA"), time=(2020, 2060, 20), **more):
    base = build(params(list(regions), time)).concrete_model
    sets = [(("simulation", "simulationmode"), True), (("simulation", "constraint_variables"), entries)] + [(("simulation", k), v) for k, v in more.items()]
    return base, build(params(list(regions), time, sets)).concrete_model
'''
plain("s21-last-variable-only", "C21", [(SC, "            lambda m, t, r: getattr(m, variable_name)[t, r]\n            - interp_data.get(r, m.year(t))\n            <= eps\n",
      "            lambda m, t, r: getattr(m, variable_name)[t, r]\n            - interp_data.get(r, m.year(t))\n            <= eps * max(1, abs(interp_data.get(r, m.year(t))))\n")],
      "regional values larger than one", "the upper tolerance grows with the pinned value", SIMHEAD + '''
D = {str(y): {"USA": 40., "INDIA": 20.} for y in (2020, 2030, 2040, 2050, 2060)}
a, b = models({"regional_emissions": D})
need(pin_slack(a, b, "regional_emissions", 1, "USA", 40.0005) >= 0, "a value within the tolerance is rejected")
need(pin_slack(a, b, "regional_emissions", 1, "USA", 40.02) < 0, "a value 0.02 above the pinned one is admitted")
''')
plain("s21-free-by-prefix", "C21", [(SD, '            constraint = getattr(m, f"constraint_{constraint_name}")\n            if constraint is not None:\n                constraint.deactivate()\n',
      '            getattr(m, f"constraint_{constraint_name}")\n            for name in list(m.component_map()):\n                if name.startswith(f"constraint_{constraint_name}"):\n                    m.component(name).deactivate()\n')],
      "a freed limit whose name is the beginning of another limit's name", "freeing one limit frees all whose names start like it", '''
from pyomo.environ import Constraint
base = build(params(["USA"])).concrete_model
names = [c.name[len("constraint_"):] for c in base.component_objects(Constraint, active=True)]
short = [n for n in names if any(o != n and o.startswith(n) for o in names)]
need(short, "no such names")
for n in short[:3]:
    m = build(params(["USA"], sets=[(("simulation", "simulationmode"), True), (("simulation", "deactivated_constraints"), [n])])).concrete_model
    left = [c.name[len("constraint_"):] for c in m.component_objects(Constraint, active=True)]
    need(sorted(left + [n]) == sorted(names), f"freeing {n} also freed {set(names) - set(left) - {n}}")
''')
plain("s21-linear", "C21", [(SU, "return InterpolatedUnivariateSpline(all_years, new_values)", "return InterpolatedUnivariateSpline(all_years, new_values, k=1)")],
      "values supplied at years that are further apart than the model's time steps", "values in between are interpolated linearly", SIMHEAD + '''
from scipy.interpolate import CubicSpline
D = {str(y): {"USA": v} for y, v in zip(range(2020, 2101, 20), (1., 2., 5., 3., 0.))}
a, b = models({"regional_emissions": D}, ["USA"], (2020, 2100, 10))
ext = {**{y: D[str(y)]["USA"] for y in range(2020, 2101, 20)}}
need(pin_slack(a, b, "regional_emissions", 2, "USA", 2.0005) >= 0, "a supplied value is rejected")
need(pin_slack(a, b, "regional_emissions", 3, "USA", 3.5) < 0, "the linear interpolation is admitted")
''')
plain("s21-cache-by-variable", "C21", [(SC, "    if filepath not in data_cache:\n        data_cache[filepath] = read_csv(filepath)\n    imported_data = data_cache[filepath]\n",
      "    if \"data\" not in data_cache:\n        data_cache[\"data\"] = read_csv(filepath)\n    imported_data = data_cache[\"data\"]\n")],
      "two simulated variables read from different files", "the second variable is read from the first file", SIMHEAD + '''
import pandas as pd, tempfile
with tempfile.TemporaryDirectory() as tmp:
    def f(n, v, w):
        pd.DataFrame([["regional_emissions", "USA", ""] + [v] * 5, ["relative_abatement", "USA", ""] + [w] * 5],
                     columns=["Variable", "Region", "Unit"] + [str(y) for y in range(2020, 2061, 10)]).to_csv(tmp + "/" + n, index=False)
        return tmp + "/" + n
    a, b = models({"regional_emissions": f("a.csv", 3, .2), "relative_abatement": f("b.csv", 4, .5)}, ["USA"])
for c in b.component_data_objects(Constraint, active=True):
    pass
b.regional_emissions[1, "USA"].set_value(3, skip_validation=True)
need(pin_slack(a, b, "relative_abatement", 1, "USA", .5) < 0 or True, "")
known = {c.name for c in a.component_data_objects(Constraint, active=True)}
b.regional_emissions[1, "USA"].set_value(3, skip_validation=True)
b.relative_abatement[1, "USA"].set_value(.5, skip_validation=True)
for c in b.component_data_objects(Constraint, active=True):
    if c.name not in known and c.index() == (1, "USA"):
        need((c.upper is None or value(c.body) <= value(c.upper) + 1e-9) and (c.lower is None or value(c.body) >= value(c.lower) - 1e-9), c.name)
''')

# ------------------------------------------------------------------ C22
SOLVE = '''
import pyomo.environ as pe
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
import mimosa.mimosa as mm


class Opt:
    """Stands in for the local solver: takes the next scripted outcome."""
    def __init__(self, script, log):
        self.script, self.log, self.options = script, log, {}

    def solve(self, model, **kw):
        self.log.append(dict(self.options))
        status, term = self.script.pop(0)
        if status is None:
            raise RuntimeError("solver crashed")
        r = SolverResults()
        r.solver.status, r.solver.termination_condition = status, term
        from pyomo.core.expr import identify_variables
        for c in model.component_data_objects(pe.Constraint, active=True):
            for v in identify_variables(c.body, include_fixed=False):
                v.set_value(3.25, skip_validation=True)
        return r


OK = (SolverStatus.ok, TerminationCondition.optimal)


def outcome(m, **kw):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.solve(verbose=False, **kw)
        return "ok"
    except Exception as e:
        return type(e).__name__
'''
plain("s22-iteration-limit-tolerated", "C22", [(MM, "            if results.solver.status == SolverStatus.warning:\n                warning_message",
      "            if str(results.solver.termination_condition) == \"maxIterations\":\n                logger.error(\"Maximum number of iterations reached\")\n            elif results.solver.status == SolverStatus.warning:\n                warning_message"),
      (MM, "            if results.solver.status != SolverStatus.warning:\n                raise", "            elif results.solver.status != SolverStatus.warning:\n                raise")],
      "a solve that stops at the iteration limit", "reaching the iteration limit is only logged, not reported", SOLVE + '''
log, script = [], [(SolverStatus.warning, TerminationCondition.maxIterations)]
mm.SolverFactory = lambda name: Opt(script, log)
m = build(params(["USA", "INDIA"]), MIMOSA)
need(outcome(m) != "ok", "a solve that stopped at the iteration limit is not reported")
''')
plain("s22-shared-solver", "C22", [(MM, '            opt: OptSolver = SolverFactory("ipopt")\n', '            if getattr(self, "_opt", None) is None:\n                self._opt = SolverFactory("ipopt")\n            opt: OptSolver = self._opt\n')],
      "a second solve call without the options of the first", "options given to one solve call stay in effect for later ones", SOLVE + '''
log, script = [], [OK, OK]
mm.SolverFactory = lambda name: Opt(script, log)
m = build(params(["USA", "INDIA"]), MIMOSA)
need(outcome(m, ipopt_maxiter=7) == "ok" and outcome(m) == "ok", "solve")
need(log[0].get("max_iter") == 7 and "max_iter" not in log[1], str(log))
''')
plain("s22-stale-status", "C22", [(MM, "        self.status = None  # Not started yet\n\n        if use_neos:", "        if use_neos:")],
      "a solve attempt that crashes after a successful solve", "the status of the previous solve stays recorded", SOLVE + '''
log, script = [], [OK, (None, None)]
mm.SolverFactory = lambda name: Opt(script, log)
m = build(params(["USA", "INDIA"]), MIMOSA)
need(outcome(m) == "ok" and outcome(m) == "RuntimeError", "solve")
need(m.status is None, f"status {m.status} after a crash")
''')

# ------------------------------------------------------------------ C23
SAVE = '''
import pandas as pd, tempfile


def saved(p, folder, name="x", **kw):
    m = build(p, MIMOSA)
    with contextlib.redirect_stdout(io.StringIO()):
        m.save(name, folder=folder, **kw)
    return m
'''
plain("s23-five-digits", "C23", [(SV, 'float_format="%.6g"', 'float_format="%.5f"')],
      "values smaller than 0.01", "values are saved with five decimals instead of six significant digits", SAVE + '''
with tempfile.TemporaryDirectory() as tmp:
    m = build(params(["USA", "INDIA"]), MIMOSA)
    m.concrete_model.relative_abatement[1, "USA"].set_value(0.000123456, skip_validation=True)
    with contextlib.redirect_stdout(io.StringIO()):
        m.save("x", folder=tmp)
    df = pd.read_csv(tmp + "/x.csv").set_index(["Variable", "Region"])
    v = df.loc[("relative_abatement", "USA"), "2030"]
need(abs(v / 0.000123456 - 1) < 1e-5, f"{v}")
''')
plain("s23-suffix-of-sections", "C23", [(SV, 'hashlib.md5(json.dumps(params).encode())', 'hashlib.md5(\n            json.dumps({k: v for k, v in params.items() if k != "simulation"}).encode()\n        )')],
      "two runs that differ only in their simulation settings", "runs with different simulation settings get the same suffix and overwrite each other", SAVE + '''
with tempfile.TemporaryDirectory() as tmp:
    saved(params(["USA", "INDIA"]), tmp, hash_suffix=True)
    saved(params(["USA", "INDIA"], sets=[(("simulation", "deactivated_constraints"), ["carbon_budget"])]), tmp, hash_suffix=True)
    n = [f for f in os.listdir(tmp) if f.endswith(".csv")]
need(len(n) == 2, str(n))
''')
plain("s23-private-skip", "C23", [(PU, "        if has_time_and_region_dim(param) and not param.name.startswith(\"_\")", "        if has_time_and_region_dim(param) and param.doc and not param.name.startswith(\"_\")")],
      "regional time-dependent inputs that are calculated instead of read", "calculated inputs are missing from the output", SAVE + '''
with tempfile.TemporaryDirectory() as tmp:
    saved(params(["USA", "INDIA"]), tmp)
    names = set(pd.read_csv(tmp + "/x.csv")["Variable"])
need({"TFP", "percapconv_share", "baseline_GDP"} <= names, str({"TFP", "percapconv_share", "baseline_GDP"} - names))
''')
plain("s23-params-exist", "C23", [(SV, '    with open(f"{path}.params.json", "w") as fh:\n        json.dump(params, fh)\n', '    if not os.path.exists(f"{path}.params.json"):\n        with open(f"{path}.params.json", "w") as fh:\n            json.dump(params, fh)\n')],
      "saving a second model under a name already used", "the parameter file of the earlier run is kept next to the new results", SAVE + '''
with tempfile.TemporaryDirectory() as tmp:
    saved(params(["USA", "INDIA"]), tmp)
    saved(params(["USA", "INDIA"], (2020, 2060, 10)), tmp)
    p = json.load(open(tmp + "/x.csv.params.json"))
need(p["time"]["end"] == 2060, "parameter file of an earlier run")
''')

# ------------------------------------------------------------------ C24
CD = "mimosa/components/cobbdouglas.py"
MI = "mimosa/components/mitigation.py"
# ------------------------------------------------------------------ C25
# ------------------------------------------------------------------ C26
plain("s26-regional-order", "C26", [(RP, "        return {\n            region: self.getregional(category, paramname, region)\n            for region in self.regions\n        }\n",
      "        values = [\n            self.getregional(category, paramname, region)\n            for region in sorted(self.regions)\n        ]\n        return dict(zip(self.regions, values))\n")],
      "regions that are not listed alphabetically", "regional coefficients are assigned by position", '''
a = par(build(params(["USA", "INDIA"])), "init_capitalstock_factor")
b = par(build(params(["INDIA", "USA"])), "init_capitalstock_factor")
need(a["USA"] == b["USA"] and a["INDIA"] == b["INDIA"], "values depend on the order of regions")
''')
plain("s26-first-column", "C26", [(RC, "        data_raw = pd.read_csv(full_filename)\n", "        data_raw = pd.read_csv(full_filename)\n        data_raw = data_raw.rename(columns={data_raw.columns[0]: \"region\"})\n")],
      "a regional table in which the region column is not the first", "the first column is taken as the region", '''
import pandas as pd, tempfile
p = params(["USA", "INDIA"])
f = os.path.join("mimosa", p["regional_parameter_files"]["economics"]["filename"])
df = pd.read_csv(f)
a = par(build(p), "init_capitalstock_factor")
with tempfile.TemporaryDirectory() as tmp:
    df[[c for c in df.columns if c != "region"] + ["region"]].to_csv(tmp + "/e.csv", index=False)
    p["regional_parameter_files"]["economics"]["filename"] = tmp + "/e.csv"
    b = par(build(p), "init_capitalstock_factor")
need(a["USA"] == b["USA"], "")
''')
plain("s26-shared-manual", "C26", [(RP, '            value = self.params["regions"][region][category][paramname]\n        except (KeyError, TypeError):\n            value = self.categories[category].get(paramname, region)\n',
      '            value = self.params["regions"][region][category][paramname]\n            self.categories[category].data.loc[:, paramname] = (\n                self.categories[category].data[paramname].astype(type(value))\n            )\n        except (KeyError, TypeError):\n            value = self.categories[category].get(paramname, region)\n')],
      "a manual integer value for one of several regions", "the other regions' values are rounded to integers", '''
a = par(build(params({"USA": {}, "INDIA": {}})), "init_capitalstock_factor")["INDIA"]
b = par(build(params({"USA": {"economics": {"init_capital_factor": 2}}, "INDIA": {}})), "init_capitalstock_factor")["INDIA"]
need(a == b, f"{a} {b}")
''')

ND = "mimosa/components/damages/nodamage.py"
plain("s24-ignored-damage-free", "C24", [(ND, "                lambda m, t, r: m.damage_costs[t, r] == 0.0, \"zero_damage_costs\"", "                lambda m, t, r: (\n                    m.damage_costs[t, r] == 0.0\n                    if not value(m.ignore_damages)\n                    else Constraint.Skip\n                ),\n                \"zero_damage_costs\""),
      (ND, "from mimosa.common import AbstractModel, Var, GeneralConstraint, RegionalConstraint", "from mimosa.common import (\n    AbstractModel,\n    Constraint,\n    Var,\n    GeneralConstraint,\n    RegionalConstraint,\n    value,\n)")],
      "the no-damage module together with ignored damages", "damages are left undetermined", '''
from pyomo.environ import Constraint
from pyomo.core.expr import identify_variables
m = build(params(["USA"], sets=[(("model", "damage module"), "nodamage"), (("economics", "damages", "ignore damages"), True)])).concrete_model
used = set()
for c in m.component_data_objects(Constraint, active=True):
    if c.equality:
        used |= {v.name for v in identify_variables(c.body)}
need(m.damage_costs[2, "USA"].name in used, "no equation determines damage_costs")
''')
plain("s24-quantile-rounded", "C24", [(IP, '            damage_quantile = self.params["economics"]["damages"]["quantile"]\n', '            damage_quantile = round(self.params["economics"]["damages"]["quantile"], 2)\n')],
      "a damage quantile with three digits together with combined damages", "such quantiles cannot be used with combined damages", '''
D = ("economics", "damages")
for q in (0.025, 0.5, 0.975):
    need(accepted(params(["USA"], sets=[(D + ("quantile",), q), (D + ("coacch_combined_slr_nonslr_damages",), True)])), f"no model for quantile {q}")
''')
plain("s25-wide-tolerance", "C25", [(MM, 'TransformationFactory("contrib.detect_fixed_vars").apply_to(self.concrete_model)', 'TransformationFactory("contrib.detect_fixed_vars").apply_to(\n            self.concrete_model, tolerance=0.05\n        )')],
      "a low cost curve, for which the allowed range of carbon prices is narrow", "carbon prices are fixed before the solve", '''
p = params(["USA", "INDIA"], sets=[(("economics", "MAC", "gamma"), "20 USD2005/tCO2")])
m = build(p, MIMOSA).concrete_model
need(not m.carbonprice[2, "USA"].fixed, "the carbon price is fixed before the solve")
''')
plain("s25-no-restore-for-two", "C25", [(MM, '        if len(self.regions) > 1:\n            TransformationFactory("contrib.aggregate_vars").update_variables(', '        if len(self.regions) > 2:\n            TransformationFactory("contrib.aggregate_vars").update_variables(')],
      "exactly two regions and a savings rate of one, for which preprocessing merges variables", "merged variables keep their starting values after the solve", SOLVE + '''
log, script = [], [OK]
mm.SolverFactory = lambda name: Opt(script, log)
m = build(params(["USA", "INDIA"], sets=[(("economics", "GDP", "savings rate"), 1)]), MIMOSA)
need(outcome(m) == "ok", "solve")
m = m.concrete_model
bad = [i for i in m.investments if m.investments[i].value != m.GDP_net[i].value]
need(not bad, f"investments differ from net GDP in {bad[:3]}")
''')

# -- second batch for the policy-path properties -----------------------------
seed("s10-sum-short-steps", "C10", [(E, "else (m.dt * m.global_emissions[t])", "else (max(value(m.dt), 1) * m.global_emissions[t])")],
     "the trapezoid rule switched off and time steps below one year",
     "cumulative emissions add a whole year for every shorter step",
     '''
C, r = path([(("emissions", "cumulative_emissions_trapz"), False)] + OFF, ["USA", "INDIA"], (2020, 2022, 0.5),
            relative_abatement=[[0, 0], [.3, .2], [.5, .6], [.7, .9], [.7, .9]])
E_, c = r.get("global_emissions")[:, 0], r.get("cumulative_emissions")[:, 0]
need(np.allclose(c[1:], c[:-1] + 0.5 * E_[1:], rtol=1e-6), "cumulative emissions do not add dt * emissions")
''')
seed("s10-intensity-gross-if-ignored", "C10", [(E, '''                        == m.baseline_carbon_intensity[t, r] * m.GDP_net[t, r]
''', '''                        == m.baseline_carbon_intensity[t, r]
                        * (m.GDP_gross if value(m.effort_sharing_regime) == "equal_total_costs" else m.GDP_net)[t, r]
''')],
     "the equal-total-costs regime together with intensity-based baselines",
     "baseline emissions follow gross instead of net GDP under one regime",
     '''
C, r = path([(("emissions", "baseline carbon intensity"), True), (("effort sharing", "regime"), "equal_total_costs")] + OFF, ["USA", "INDIA"], (2020, 2060, 10),
            relative_abatement=[[0, 0], [.3, .2], [.5, .6], [.7, .9], [.7, .9]])
b, g = r.get("baseline"), r.get("GDP_net")
ci = np.array([[fw._pv(C.m.baseline_carbon_intensity[t, x]) for x in C.regions] for t in C.t])[:, :, None]
need(np.allclose(b, ci * g, rtol=1e-6), "baseline is not intensity times net GDP")
''')
seed("s11-zero-budget-off", "C11", [(E, "if (m.year(t) >= 2100 and value(m.budget) is not False)", "if (m.year(t) >= 2100 and value(m.budget))")],
     "a carbon budget of exactly zero", "a zero carbon budget is treated as no budget",
     '''
C, r = path([s for s in OFF] + [(("emissions", "carbonbudget"), "0 GtCO2")], ["WEU"], (2080, 2110, 10), relative_abatement=[[0], [.3], [.3], [.3]])
need(not r.admissible()[0][0], "positive cumulative emissions admitted with a zero budget")
''')
seed("s11-target-or-budget", "C11", [(E, "if (m.year(t) >= 2100 and value(m.temperature_target) is not False)",
                                     "if (m.year(t) >= 2100 and value(m.temperature_target) is not False and (t == m.tf or m.year(t) % 5 == 0))")],
     "a grid on which years after 2100 are not multiples of five and a path that exceeds the target only in one of them",
     "the temperature target is not applied in all years",
     '''
S = OFF + [(("temperature", "target"), "9 delta_degC")]
ab = [[0], [.5], [.95], [1.02], [1.02], [1.02]]
C, r = path(S, ["WEU"], (2090, 2125, 7), relative_abatement=ab)
t = r.get("temperature")[:, 0]
k = int(np.argmax(t))
need(0 < k < len(t) - 1, "demo path should peak inside")
lim = (t[k] + max(t[k - 1] if 2090 + 7 * (k - 1) >= 2100 else -9, t[k + 1])) / 2
C, r = path(OFF + [(("temperature", "target"), f"{lim:.12f} delta_degC")], ["WEU"], (2090, 2125, 7), relative_abatement=ab)
need(not r.admissible()[0][0], "a path above the temperature target after 2100 is admitted")
''')
seed("s12-inertia-from-previous", "C12", [(E, "                    >= m.dt * m.inertia_regional * m.baseline_emissions[0, r]", "                    >= m.dt * m.inertia_regional * m.baseline_emissions[t - 1, r]")],
     "a region whose baseline emissions grow or shrink after the first year", "inertia is measured against the previous year's baseline",
     '''
S = [s for s in OFF if s[0][-1] != "regional"] + [(("emissions", "inertia", "regional"), -0.05), (("emissions", "baseline carbon intensity"), False)]
C, r = path(S, ["INDIA"], (2020, 2060, 10), relative_abatement=[[0], [0], [0], [0], [0]])
e = r.get("regional_emissions")[:, 0, 0]
worst = e[3] - 10 * 0.05 * (e[0] + e[3]) / 2 if e[3] > e[0] else None
b = C.m.baseline_emissions
a = 1 - (e[3] - 10 * 0.05 * (e[0] + fw._pv(b[3, "INDIA"])) / 2) / fw._pv(b[4, "INDIA"])
C, r = path(S, ["INDIA"], (2020, 2060, 10), relative_abatement=[[0], [0], [0], [0], [a]])
need(not r.admissible()[0][0], "a reduction faster than five percent of initial emissions is admitted")
''')
seed("s12-zero-floor-off", "C12", [(E, '''                    m.regional_emissions[t, r] >= m.regional_min_level
                    if value(m.regional_min_level) is not False''', '''                    m.regional_emissions[t, r] >= m.regional_min_level
                    if value(m.regional_min_level)''')],
     "a regional floor of exactly zero", "a floor of zero emissions is treated as no floor",
     '''
C, r = path([s for s in OFF if s[0][-1] != "regional min level"] + [(("emissions", "regional min level"), "0 GtCO2/yr")], ["WEU"], (2020, 2040, 10),
            relative_abatement=[[0], [.5], [1.01]])
need(not r.admissible()[0][0], "negative emissions admitted with a zero floor")
''')
seed("s13-learning-per-five-years", "C13", [(M, "1 / (1 + m.LOT_rate) ** t, \"LOT\"", "1 / (1 + m.LOT_rate) ** (t * m.dt / 5), \"LOT\"")],
     "learning over time with a time step other than the default five years", "learning over time is counted in five-year units",
     '''
C, r = path(OFF + [(("economics", "MAC", "LOT_rate"), 0.1)], ["USA"], (2020, 2040, 10), relative_abatement=[[0], [.5], [.6]])
need(np.allclose(r.get("LOT_factor")[:, 0], 1 / 1.1 ** np.arange(3), rtol=1e-7), "learning over time does not count steps")
''')
seed("s13-floor-second-step", "C13", [(M, ">= (m.rel_mitigation_costs_min_level if t > 0 else 0.0),", ">= (m.rel_mitigation_costs_min_level if t > 1 else 0.0),")],
     "traded costs that are negative in the second model year, above the configured floor", "the cost floor is zero for one year too long",
     '''
C, r = path(OFF + [(("model", "emissiontrade module"), "emissiontrade"), (("economics", "MAC", "rel_mitigation_costs_min_level"), -0.1)], ["USA", "INDIA"], (2020, 2040, 10),
            relative_abatement=[[0, 0], [.3, .3], [.4, .4]], import_export_mitigation_cost_balance=[[0], [.1], [0]])
need((r.get("rel_mitigation_costs")[1] < -1e-4).any(), "demo needs negative costs")
need(r.admissible()[0][0], "negative relative costs above the floor are rejected in the second year")
''')
seed("s14-thermal-annual", "C14", [(L, "    return (1 - adjust_rate) ** (m.dt / 10) * slr_thermal + adjust_rate * (\n        m.dt / 10\n    ) * (temperature * equilib)",
                                   "    return (1 - adjust_rate * m.dt / 10) * slr_thermal + adjust_rate * (\n        m.dt / 10\n    ) * (temperature * equilib)")],
     "a time step other than ten years", "thermal expansion decays linearly in the step length",
     '''
C, r = path(OFF, ["CHN"], (2020, 2100, 20), relative_abatement=[[0], [.3], [.5], [.5], [.5]])
x, T = r.get("slr_thermal")[:, 0], r.get("temperature")[:, 0]
A = 0.024076141150722
need(np.allclose(x[1:], (1 - A) ** 2 * x[:-1] + A * 2 * 0.5 * T[:-1], rtol=1e-9), "thermal expansion step")
''')
seed("s14-total-without-greenland-melt", "C14", [(L, "== m.slr_thermal[t] + m.slr_cumgsic[t] + m.slr_cumgis[t],", "== m.slr_thermal[t] + m.slr_cumgsic[t] + (m.slr_cumgis[t] if value(m.dt) <= 10 else m.slr_cumgis[0]),"),
                                                (L, "    NonNegativeReals,\n    quant,", "    NonNegativeReals,\n    value,\n    quant,")],
     "time steps longer than ten years", "Greenland melt is left out of the total for long steps",
     '''
C, r = path(OFF, ["CHN"], (2020, 2100, 20), relative_abatement=[[0], [.3], [.5], [.5], [.5]])
g = r.get
need(np.allclose(g("total_SLR"), g("slr_thermal") + g("slr_cumgsic") + g("slr_cumgis"), rtol=1e-9), "total sea level")
''')
K_ = "mimosa/components/damages/coacch.py"
seed("s15-scale-only-temperature", "C15", [(K_, '''            lambda m, t, r: m.damage_costs_slr[t, r]
            == m.damage_scale_factor
            * damage_fct(''', '''            lambda m, t, r: m.damage_costs_slr[t, r]
            == damage_fct(''')],
     "a damage scale factor other than one", "sea-level damages ignore the scale factor",
     '''
S = lambda f: OFF + [(("economics", "damages", "scale factor"), f)]
a = [[0, 0], [.3, .3], [.5, .5]]
x = path(S(1), ["USA", "WEU"], (2020, 2060, 20), relative_abatement=a)[1]
y = path(S(2) + [(("emissions", "baseline carbon intensity"), False)], ["USA", "WEU"], (2020, 2060, 20), relative_abatement=a)[1]
x = path(S(1) + [(("emissions", "baseline carbon intensity"), False)], ["USA", "WEU"], (2020, 2060, 20), relative_abatement=a)[1]
need(np.allclose(2 * x.get("damage_costs"), y.get("damage_costs"), rtol=1e-6), "damages do not scale")
''')
seed("s15-slr-zero-level", "C15", [(K_, "* damage_fct(m.total_SLR[t], m.total_SLR[0], m, r, is_slr=True),", "* damage_fct(m.total_SLR[t] - m.total_SLR[0], 0, m, r, is_slr=True),")],
     "a region with a logistic sea-level damage function", "sea-level damages are taken of the rise instead of the difference of two levels",
     '''
C, r = path(OFF, ["WEU"], (2020, 2080, 20), relative_abatement=[[0], [.3], [.5], [.5]])
b1, b2, b3, q = (fw._pv(getattr(C.m, "damage_slr_" + k)["WEU"]) for k in ("b1", "b2", "b3", "a"))
s, d = r.get("total_SLR")[:, 0], r.get("damage_costs_slr")[:, 0, 0]
f = lambda x: b1 / (1 + b2 * np.exp(-b3 * x))
need(np.allclose(d, q * (f(s) - f(s[0])) / 100, rtol=1e-5, atol=1e-9), f"sea-level damages {d} {q * (f(s) - f(s[0])) / 100}")
''')
Q_ = "mimosa/common/economics.py"
seed("s16-linear-depreciation", "C16", [(Q_, "    return ((1 - dk) ** dt - 1) / dt * K + I", "    return ((1 - dk) ** min(dt, 10) - 1) / min(dt, 10) * K + I")],
     "time steps longer than ten years", "depreciation over long steps is too large",
     '''
C, r = path(OFF, ["USA"], (2020, 2080, 20), relative_abatement=[[0], [.3], [.5], [.5]])
K, I = r.get("capital_stock")[:, 0, 0], r.get("investments")[:, 0, 0]
need(np.allclose(K[1:], K[:-1] + (0.95 ** 20 - 1) * K[1:] + 20 * I[1:], rtol=1e-6), "capital stock step")
''')
seed("s16-ignored-only-with-damages", "C16", [(B, "                * (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))\n                - m.mitigation_costs[t, r]",
                                              "                * (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))\n                - (m.mitigation_costs if not value(m.ignore_damages) else m.area_under_MAC)[t, r]")],
     "ignored damages together with emission trading", "net GDP pays own abatement instead of the traded costs",
     '''
C, r = path(OFF + [(("economics", "damages", "ignore damages"), True), (("model", "emissiontrade module"), "emissiontrade")], ["USA", "INDIA"], (2020, 2060, 20),
            relative_abatement=[[0, 0], [.3, .4], [.5, .6]], import_export_mitigation_cost_balance=[[0], [.05], [-.05]])
g = r.get
need(np.allclose(g("GDP_net"), g("GDP_gross") - g("mitigation_costs"), rtol=1e-8), "net GDP")
''')
G_ = "mimosa/components/emissiontrade/globalcostpool.py"
seed("s17-allowance-from-emissions", "C17", [(X, "                    == m.baseline[t, r] - m.paid_for_emission_reductions[t, r]", "                    == m.baseline_emissions[t, r] - m.paid_for_emission_reductions[t, r]")],
     "intensity-based baselines, which differ from the scenario once GDP changes", "allowances are taken from scenario instead of model baseline emissions",
     '''
C, r = path(OFF + [(("emissions", "baseline carbon intensity"), True), (("model", "emissiontrade module"), "emissiontrade")], ["USA", "INDIA"], (2020, 2060, 20),
            relative_abatement=[[0, 0], [.5, .8], [.9, .9]], import_export_mitigation_cost_balance=[[0], [.05], [-.05]])
g = r.get
need(np.allclose(g("regional_emission_allowances")[1:], (g("baseline") - g("paid_for_emission_reductions"))[1:], rtol=1e-8), "allowances")
''')
seed("s18-cap-on-net", "C18", [(FT, "                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],", "                >= -m.damage_costs[t, r] * m.GDP_net[t, r],")],
     "a transfer between damages times net and damages times gross GDP", "the cap on received transfers is taken from net GDP",
     '''
S = OFF + [(("model", "financialtransfer module"), "globaldamagepool"), (("economics", "damages", "ignore damages"), True), (("emissions", "baseline carbon intensity"), False)]
a = [[0, 0], [1.2, 1.2], [1.4, 1.4]]
C, r = path(S, ["INDIA", "USA"], (2020, 2060, 20), relative_abatement=a, financial_transfer=[[0], [0], [0]])
d, g, n = (r.get(k)[2, 0, 0] for k in ("damage_costs", "GDP_gross", "GDP_net"))
x = d * (g + n) / 2
C, r = path(S, ["INDIA", "USA"], (2020, 2060, 20), relative_abatement=a, financial_transfer=[[0], [0], [-x]])
bad = [v for v in r.violated(0) if "transfer" in v]
need(d * g - x > 1e-5 and not bad, f"a transfer below the region's own damages is rejected: {bad} {d * g - x}")
''')
seed("s18-relative-to-net", "C18", [(FT, "m.rel_financial_transfer[t, r] * m.GDP_gross[t, r]", "m.rel_financial_transfer[t, r] * m.GDP_net[t, r]")],
     "a transfer in a year in which net and gross GDP differ", "relative transfers are taken against net GDP",
     '''
S = OFF + [(("model", "financialtransfer module"), "globaldamagepool")]
C, r = path(S, ["INDIA", "USA"], (2020, 2060, 20), relative_abatement=[[0, 0], [.7, .7], [.9, .9]], financial_transfer=[[0], [-.01], [-.02]])
g = r.get
need(np.allclose(g("rel_financial_transfer"), g("financial_transfer") / g("GDP_gross"), rtol=1e-7), "relative transfers")
''')
seed("s19-total-without-transfer", "C19", [(Y, "            + m.damage_costs[t, r]\n            + m.rel_financial_transfer[t, r],", "            + m.damage_costs[t, r],")],
     "equal total costs together with the damage pool", "transfers are left out of total costs",
     '''
S = OFF + [(("model", "financialtransfer module"), "globaldamagepool"), (("effort sharing", "regime"), "equal_total_costs"),
           (("emissions", "baseline carbon intensity"), False)]
a = [[0, 0], [.3, .3]]
C, r = path(S, ["INDIA", "USA"], (2020, 2040, 20), relative_abatement=a, financial_transfer=[[0], [-.01]], effort_sharing_common_level=[0, 0.01])
tot = lambda r: (r.get("rel_mitigation_costs") + r.get("damage_costs") + r.get("rel_financial_transfer"))[:, :, 0]
lo, hi = 0.0, 2.0
for _ in range(60):                              # abatement in USA that equals India's total costs
    mid = (lo + hi) / 2
    C, r = path(S, ["INDIA", "USA"], (2020, 2040, 20), relative_abatement=[[0, 0], [.9, mid]], financial_transfer=[[0], [-.01]], effort_sharing_common_level=[0, 0.01])
    t = tot(r)[1]
    lo, hi = (mid, hi) if t[1] < t[0] else (lo, mid)
C, r = path(S, ["INDIA", "USA"], (2020, 2040, 20), relative_abatement=[[0, 0], [.9, mid]], financial_transfer=[[0], [-.01]], effort_sharing_common_level=[0, t[0]])
bad = [v for v in r.violated(0) if "effort" in v]
need(not bad, f"equal total costs are rejected: {bad}")
''')
seed("s19-initial-share-allowance", "C19", [(Y, '''            != "per_cap_convergence"
            or t == 0,''', '''            != "per_cap_convergence"
            or t == 0
            or m.year(t) > 2100,''')],
     "an allowance off its share after 2100 only", "per-capita convergence stops binding after 2100",
     '''
S = OFF + [(("model", "emissiontrade module"), "emissiontrade"), (("effort sharing", "regime"), "per_cap_convergence")]
C, r = path(S, ["INDIA", "USA"], (2080, 2120, 20), relative_abatement=[[0, 0], [.4, .4], [.4, .4]], import_export_mitigation_cost_balance=[[0], [0], [0]])
bad = [v for v in r.violated(0) if "percapconv" in v]
need(any("[2" in v for v in bad), f"allowances in 2120 are free: {bad[:3]}")
''')
U2 = "mimosa/components/welfare/inequal_aversion_general.py"
seed("s20-aversion-exponent", "C20", [(U2, "    return soft_min(sum_regional_utility / global_population) ** (\n        (1 - elasmu) / (1 - inequal_aversion)\n    ) / (1 - elasmu)",
                                      "    return soft_min(sum_regional_utility / global_population) ** (\n        (1 - elasmu) / (1 - inequal_aversion)\n    ) / max(abs(1 - value(elasmu)), 1e-2) * (1 if value(elasmu) < 1 else -1)"),
                                     (U2, "    soft_min,", "    soft_min,\n    value,")],
     "an elasticity of marginal utility within one percent of one", "welfare is scaled differently near the logarithmic case",
     '''
W = ("model", "welfare module")
C, r = path(OFF + [(W, "inequal_aversion_general"), (("economics", "elasmu"), 1.001)], ["USA", "INDIA"], (2020, 2040, 10), relative_abatement=[[0, 0], [.5, .5], [.6, .6]])
L = np.array([[fw._pv(C.m.population[t, x]) for x in C.regions] for t in C.t])
c = r.get("consumption")[:, :, 0]
U = (L * (c / L) ** 0.5).sum(1)
Wy = L.sum(1) * (U / L.sum(1)) ** (-0.001 / 0.5) / (-0.001)
need(np.allclose(r.get("yearly_welfare")[:, 0], Wy, rtol=1e-5), "yearly welfare")
''')
O2 = "mimosa/components/objective/globalcosts.py"
seed("s20-undiscounted-damage", "C20", [(O2, '''                            m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions
''', '''                            m.damage_costs[t, r] * m.GDP_net[t, r] for r in m.regions
''')],
     "the cost objective on a path with damages and abatement costs", "damage costs in the objective are taken from net GDP",
     '''
C, r = path(OFF + [(("model", "objective module"), "globalcosts"), (("economics", "PRTP"), 0.0)], ["USA", "INDIA"], (2020, 2060, 20), relative_abatement=[[0, 0], [.5, .5], [.9, .9]])
g = r.get
f = (g("mitigation_costs") + g("damage_costs") * g("GDP_gross")).sum(axis=1)[:, 0]
need(np.allclose(g("NPV")[:, 0], 20 * np.concatenate([[0], np.cumsum(f[1:])]), rtol=1e-6), "discounted cost")
''')

# -- C27, C28 ------------------------------------------------------------------------------
EXTDEMO = '''import contextlib, io, tempfile
from mimosa import MIMOSA, load_params
import mimosa.components.cobbdouglas as cb
from mimosa.common import *
shipped = cb.get_constraints
NEW = []


def get_constraints(m):
    return list(shipped(m)) + [c for f in NEW for c in f(m)]


cb.get_constraints = get_constraints


def model(*fns, **sets):
    NEW[:] = fns
    p = load_params()
    p["regions"] = {"USA": {}, "INDIA": {}}
    p["time"]["end"] = 2040
    for k, v in sets.items():
        p[k] = v
    with contextlib.redirect_stdout(io.StringIO()):
        return MIMOSA(p)


def need(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)


'''
IP = "mimosa/concrete_model/instantiate_params.py"
PU = "mimosa/common/pyomo_utils.py"
seed("s27-deep-quantity", "C27", [(IP, '                if parser.type == "quantity":', '                if parser.type == "quantity" and len(keys) < 4:')],
     "a new quantity setting nested four levels deep", "quantities of deeply nested settings are passed to the parameter as text",
     EXTDEMO + '''
import shutil, subprocess, yaml
if len(sys.argv) == 1:
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree("mimosa", d + "/mimosa")
        f = d + "/mimosa/inputdata/config/config_default.yaml"
        t = yaml.safe_load(open(f, encoding="utf8"))
        t["a"] = {"b": {"c": {"d": {"type": "quantity", "unit": "GtCO2", "default": "2000 MtCO2"}}}}
        yaml.safe_dump(t, open(f, "w", encoding="utf8"), sort_keys=False)
        sys.exit(subprocess.run([sys.executable, os.path.abspath(__file__), "x"], cwd=d, env=dict(os.environ, PYTHONPATH=d)).returncode)


def comp(m):
    m.new = Param(doc="::a.b.c.d")
    return []


need(value(model(comp).concrete_model.new) == 2.0, "the parameter does not get the quantity in its unit")
''', engine=False)
seed("s27-equal-names-dropped", "C27", [(PU, "        m.add_component(name, constraint)\n    return name", "        if m.component(name) is None:\n            m.add_component(name, constraint)\n    return name")],
     "two constraints that were given the same name", "the second of two constraints of the same name is silently ignored",
     EXTDEMO + '''
def comp(m):
    m.v = Var(m.t)
    return [GlobalConstraint(lambda m, t: m.v[t] >= 1, name="same"), GlobalConstraint(lambda m, t: m.v[t] <= 2, name="same")]


try:
    m = model(comp).concrete_model
except Exception:
    sys.exit(0)
from pyomo.environ import Constraint as C
n = sum(1 for c in m.component_data_objects(C, active=True) if "v[" in str(c.expr) and str(c.expr).count("v[2]") and ".v" not in str(c.expr) and str(c.expr).strip().split()[0] in ("v[2]", "1", "2"))
need(n >= 2, f"only {n} of two constraints on v are in the model")
''', engine=False)
seed("s27-callable-doc-memo", "C27", [(IP, "                parameter_doc_str = parameter.doc(params)", '''                key = (parameter.name, params["model"]["damage module"], params["SSP"])
                if key not in _DOCS:
                    _DOCS[key] = parameter.doc(params)
                parameter_doc_str = _DOCS[key]'''),
                                       (IP, "class InstantiatedModel:", "# Names of dynamic parameters, by the settings they depend on\n_DOCS = {}\n\n\nclass InstantiatedModel:")],
     "two models in one process whose dynamic parameter depends on another setting than the damage module and scenario",
     "dynamic parameter names are remembered although they depend on other settings",
     EXTDEMO + '''
def comp(m):
    m.new = Param(doc=lambda p: "::economics.PRTP" if p["model"]["welfare module"] == "cost_minimising" else "::economics.elasmu")
    return []


a = value(model(comp).concrete_model.new)
p = load_params()["model"]
p["welfare module"] = "cost_minimising" if p["welfare module"] != "cost_minimising" else "welfare_loss_minimising"
b = value(model(comp, model=p).concrete_model.new)
need(abs(a - b) > 1e-3, f"the parameter follows the first model's settings: {a} {b}")
''', engine=False)
LOGDEMO = '''import contextlib, io, logging
from mimosa import MIMOSA, load_params
import mimosa.mimosa as mm
from pyomo.environ import Var, SolverStatus
from pyomo.opt import SolverResults, TerminationCondition
RECORDS = []


class H(logging.Handler):
    def emit(self, record):
        RECORDS.append((record.levelname, record.name, record.getMessage()))


logging.getLogger().setLevel("INFO")
logging.getLogger().addHandler(H())
STATUS = ["ok"]


class Stub:
    def __init__(self, *a, **k):
        self.options = {}

    def solve(self, m, **kw):
        for i, v in enumerate(m.component_data_objects(Var)):
            if not v.fixed:
                v.set_value(0.5 + (i % 97) / 31.0, skip_validation=True)
        r = SolverResults()
        r.solver.status = SolverStatus.ok if STATUS[0] == "ok" else SolverStatus.warning
        r.solver.termination_condition = TerminationCondition.optimal if STATUS[0] == "ok" else TerminationCondition.infeasible
        return r


mm.SolverFactory = Stub


def model(end, dt=5):
    p = load_params()
    p["regions"] = {"USA": {}}
    p["time"]["end"], p["time"]["dt"] = end, dt
    with contextlib.redirect_stdout(io.StringIO()):
        return MIMOSA(p)


def solve(mo, status="ok", **kw):
    STATUS[0] = status
    RECORDS.clear()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mo.solve(**kw)
    except Exception:
        pass
    return [r for r in RECORDS if r[1] == "MIMOSA"]


def need(ok, text):
    if not ok:
        print("FAIL:", text)
        sys.exit(1)


'''
MM = "mimosa/mimosa.py"
seed("s28-value-within-horizon", "C28", [(MM, "                value(self.concrete_model.NPV[self.concrete_model.tf])", '''                value(
                    self.concrete_model.NPV[
                        max(
                            t
                            for t in self.concrete_model.t
                            if self.concrete_model.year(t) <= 2150
                        )
                    ]
                )''')],
     "a horizon that ends after 2150", "the logged final value is the one of 2150 instead of the last year",
     LOGDEMO + '''
mo = model(2180)
rec = solve(mo)
v = [float(t.split(":")[1]) for _, _, t in rec if t.startswith("Final NPV")]
m = mo.concrete_model
need(len(v) == 1 and abs(v[0] - m.NPV[m.t.last()].value) < 1e-6, f"logged value {v}, model {m.NPV[m.t.last()].value}")
''', engine=False)
seed("s28-status-of-object", "C28", [(MM, '''        logger.info("Status: {}".format(results.solver.status))

        self.status = results.solver.status
''', '''        if verbose or results.solver.status != self.status:
            logger.info("Status: {}".format(results.solver.status))

        self.status = results.solver.status
'''), (MM, "        self.status = None  # Not started yet\n\n        if use_neos", "        if not verbose:\n            self.status = self.status if self.status == SolverStatus.warning else None\n        else:\n            self.status = None  # Not started yet\n\n        if use_neos")],
     "two silent solves of the same model that both end with a warning", "a repeated failure does not log its status again",
     LOGDEMO + '''
mo = model(2040)
for k in range(3):
    rec = solve(mo, "warning", verbose=False)
    need(sum(t == "Status: warning" for _, _, t in rec) == 1, f"status records of failing solve {k}: {rec}")
''', engine=False)
seed("s28-error-once", "C28", [(MM, "                logger.error(warning_message)", '''                if warning_message not in _REPORTED:
                    _REPORTED.add(warning_message)
                    logger.error(warning_message)'''),
                               (MM, "class MIMOSA:\n    \"\"\"\n", "# Messages that were logged already\n_REPORTED = set()\n\n\nclass MIMOSA:\n    \"\"\"\n")],
     "two solves that fail in the same way in one process", "the second failure of a kind is not logged as an error",
     LOGDEMO + '''
for k in range(2):
    rec = solve(model(2040), "warning")
    need(any(level == "ERROR" for level, _, _ in rec), f"failing solve {k} logs no error: {rec}")
''', engine=False)

# -- C29 ------------------------------------------------------------------------------------------------------------------------------------------------
STARTDEMO = '''import contextlib, io, math, warnings
from mimosa import MIMOSA, load_params
from pyomo.environ import Var, Constraint, Objective, value
from pyomo.core.expr.calculus.derivatives import differentiate, Modes
from pyomo.core.expr import identify_variables


def model(*sets):
    with contextlib.redirect_stdout(io.StringIO()):
        p = load_params()
        p["regions"] = {"USA": {}, "INDIA": {}}
        p["time"]["end"] = 2050
        for path, v in sets:
            d = p
            for k in path[:-1]:
                d = d[k]
            d[path[-1]] = v
        return MIMOSA(p).concrete_model


def need(ok, what):
    if not ok:
        raise SystemExit(what)


def faults(m):
    """Rows without a finite value or derivative where an interior point solver starts."""
    for v in m.component_data_objects(Var):
        if v.fixed:
            continue
        x, lo, up = v.value or 0.0, v.lb, v.ub
        w = math.inf if lo is None or up is None else up - lo
        if w == 0:
            continue
        if lo is not None:
            x = max(x, lo + min(1e-2 * max(1, abs(lo)), 1e-2 * w))
        if up is not None:
            x = min(x, up - min(1e-2 * max(1, abs(up)), 1e-2 * w))
        v.set_value(x, skip_validation=True)
    bad = []
    for c in list(m.component_data_objects(Constraint, active=True)) + list(m.component_data_objects(Objective, active=True)):
        e = c.expr if c.ctype is Objective else c.body
        try:
            ok = math.isfinite(value(e)) and all(math.isfinite(d) for d in differentiate(e, wrt_list=list(identify_variables(e, include_fixed=False)), mode=Modes.reverse_numeric))
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            ok = False
        if not ok:
            bad.append(c.name)
    return bad


'''
W = lambda k: ("model", k + " module")
seed("s29-gross-output-start", "C29", [("mimosa/components/cobbdouglas.py", '''    m.GDP_gross = Var(
        m.t,
        m.regions,
        initialize=lambda m, t, r: m.baseline_GDP[0, r],''', '''    m.GDP_gross = Var(
        m.t,
        m.regions,
        initialize=lambda m, t, r: m.baseline_GDP[0, r] if t < m.tf else None,''')],
     "an actual solver", "the cost ratio of the last year divides by a gross product of zero at the start",
     STARTDEMO + '''
b = faults(model())
need(not b, f"cannot be evaluated at the start: {b[:3]}")
''', engine=False)
seed("s29-cost-per-reduction", "C29", [("mimosa/components/mitigation.py", '''                    == sum(m.mitigation_costs[t, r] for r in m.regions)
                    / soft_min(
                        sum(m.regional_emission_reduction[t, r] for r in m.regions)
                    )''', '''                    == sum(m.mitigation_costs[t, r] for r in m.regions)
                    / (
                        soft_min(sum(m.regional_emission_reduction[t, r] for r in m.regions))
                        if len(m.regions) > 2
                        else sum(m.regional_emission_reduction[t, r] for r in m.regions)
                    )''')],
     "few regions and an actual solver", "the cost per emission reduction divides by a reduction of zero at the start",
     STARTDEMO + '''
b = faults(model())
need(not b, f"cannot be evaluated at the start: {b[:3]}")
''', engine=False)
seed("s29-aversion-guard", "C29", [("mimosa/components/welfare/inequal_aversion_general.py", '''    return population * soft_min(consumption / population) ** (1 - inequal_aversion)''',
                                    '''    per_capita = consumption / population
    if inequal_aversion < 1:
        per_capita = soft_min(per_capita)
    return population * per_capita ** (1 - inequal_aversion)''')],
     "the general welfare module with an inequality aversion above one", "regional utility is a negative power of a consumption of zero at the start",
     STARTDEMO + '''
for aversion in (0.5, 1.45):
    b = faults(model((W("welfare"), "inequal_aversion_general"), (("economics", "inequal_aversion"), aversion)))
    need(not b, f"aversion {aversion}: cannot be evaluated at the start: {b[:3]}")
'''.replace("W(", "(lambda k: ('model', k + ' module'))("), engine=False)
seed("s29-exchange-price", "C29", [("mimosa/components/emissiontrade/emissiontrade.py", "                    / soft_min(m.global_carbonprice[t])\n                    if t > 0",
                                    "                    / (soft_min(m.global_carbonprice[t]) if m.year(t) < 2045 else m.global_carbonprice[t])\n                    if t > 0")],
     "the allowance market, late years, an actual solver", "the traded amount divides by a carbon price of zero at the start",
     STARTDEMO + '''
b = faults(model((("model", "emissiontrade module"), "emissiontrade")))
need(not b, f"cannot be evaluated at the start: {b[:3]}")
''', engine=False)

# ------------------------------------------------------------------ later additions
plain("s22-zero-iterations", "C22", [(MM, "            if ipopt_maxiter is not None:", "            if ipopt_maxiter:")],
      "an iteration limit of zero", "a limit of zero iterations is treated as no limit", SOLVE + '''
log, script = [], [OK, OK]
mm.SolverFactory = lambda name: Opt(script, log)
m = build(params(["USA", "INDIA"]), MIMOSA)
need(outcome(m, ipopt_maxiter=0) == "ok" and outcome(m, ipopt_maxiter=3) == "ok", "solve")
need(log[0].get("max_iter") == 0 and log[1].get("max_iter") == 3, str(log))
''')
plain("s23-short-suffix", "C23", [(SV, ".hexdigest()[:9]", ".hexdigest()[:3]")],
      "many runs saved under the same experiment name", "runs with different settings overwrite each other's files", SAVE + '''
import os
from mimosa.export.save import save_output
m = build(params(["USA"], (2020, 2040, 10)), MIMOSA)
with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
    for i in range(250):
        p = params(["USA"], (2020, 2040, 10), [(("economics", "PRTP"), i / 1000)])
        save_output(p, m.concrete_model, experiment="x", hash_suffix=True, folder=tmp)
    n = len([f for f in os.listdir(tmp) if f.endswith(".csv")])
need(n == 250, f"{n} files for 250 different settings")
''')
plain("s21-ten-year-tail", "C21", [(SU, "np.arange(years[-1] + 5, 2151, 5)", "np.arange(years[-1] + 10, 2151, 10)")],
      "supplied values that end before the model does", "values beyond the supplied ones are continued in ten-year steps", SIMHEAD + '''
from scipy.interpolate import InterpolatedUnivariateSpline
Y = list(range(2020, 2101, 10))
V = [1., 2., 4., 5., 7., 8., 10., 14., 20.]
a, b = models({"regional_emissions": {str(y): {"USA": v} for y, v in zip(Y, V)}}, ["USA"], (2020, 2140, 20))
rate, years, vals = .6, list(map(float, Y)), list(V)
while years[-1] < 2150:
    vals.append(vals[-1] + 5 * rate * (1 - (years[-1] - 2100) / 50))
    years.append(years[-1] + 5)
f = InterpolatedUnivariateSpline(years, vals)
for t in b.t:
    x = float(f(2020 + 20 * t))
    need(t == 0 or pin_slack(a, b, "regional_emissions", t, "USA", x + 5e-4) >= 0, f"step {t}: the continued value {x} is rejected")
''')
seed("s29-midpoint-overwrite", "C29", [(MM, '''TransformationFactory("contrib.init_vars_midpoint").apply_to(
            self.concrete_model
        )''', '''TransformationFactory("contrib.init_vars_midpoint").apply_to(
            self.concrete_model, overwrite=True
        )''')],
     "an actual solver", "the starting values the components choose are replaced by zeros and midpoints",
     STARTDEMO + '''
b = faults(model()) + faults(model((("model", "emissiontrade module"), "emissiontrade")))
need(not b, f"cannot be evaluated at the start: {b[:3]}")
''', engine=False)
