"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })

CFG = "mimosa/common/config/parseconfig.py"
PARS = "mimosa/common/config/utils/parsers.py"
INST = "mimosa/concrete_model/instantiate_params.py"
EM = "mimosa/components/emissions.py"

p("C01", "Settings are accepted exactly when they match their declaration",
  "For every documented setting and every value, the configuration is accepted exactly when the value has the declared type, lies inside the declared (inclusive) range or choice list, or is a 'false' value where the setting may be switched off; anything else, including not-a-number, is rejected with an error. An accepted configuration is complete: the given settings carry the converted values and every setting that was not given carries its documented default.",
  ["inputs", "configurations"], "every leaf of the configuration tree x every value of a boundary/type alphabet, plus all pairs of accepted overrides of different settings",
  "Unit tests sample a handful of values per parser class; they never combine the real declarations of the ~60 settings with boundary, wrong-type and switched-off values, nor check that other settings keep their defaults.",
  [CFG, PARS, "mimosa/inputdata/config/config_default.yaml"],
  [("typed parsers with min/max/choices/can_be_false", PARS), ("tree traversal filling defaults", CFG)],
  ["load_params(file)", "MIMOSA(params).params"])

p("C02", "Unknown or misspelled settings are rejected at every level",
  "A configuration that contains a key which is not a documented setting, at any nesting level, is rejected with an error instead of silently ignoring it. Free-form maps (regions and their manual values, variable sources, simulated variables, custom mappings) accept arbitrary keys.",
  ["configurations", "inputs"], "every section and leaf of the configuration tree x every misspelling operator (case, space/underscore, truncation, duplication one level up or down, joined path spelling)",
  "Existing tests try one or two obsolete keys on toy trees; the guarantee is over all positions of the real tree and all ways of misplacing a key.",
  [CFG, "mimosa/common/config/utils/nested_dict.py"],
  [("comparison of flattened user tree with parsed tree", CFG)],
  ["load_params(file)", "MIMOSA(params)"])

p("C03", "A parameter dictionary belongs to the caller and can be reused",
  "Constructing a model never changes the parameter dictionary the caller passed in, and changing that dictionary afterwards never changes an already constructed model or its recorded parameters. Any number of models built from one dictionary, with settings changed in between, each equal the model built from a fresh dictionary with the same settings, and every load of the defaults returns an independent dictionary.",
  ["histories"], "all sequences up to a depth of operations (load defaults, change one of several settings, construct a model, mutate the dictionary of or after an existing model)",
  "Tests build no model at all; aliasing between the caller's dictionary, the stored parameters and the resolved references only shows over a history of edits and constructions.",
  ["mimosa/mimosa.py", CFG, PARS],
  [("parsed copy of the parameter tree", CFG), ("in-place reference resolution on the parsed copy", CFG)],
  ["caller's dict", "MIMOSA(params).params", "concrete model parameter values"],
  [("params", "parameter tree stored in the model object", "mimosa/mimosa.py")])

p("C04", "References between settings resolve to the referenced setting's value",
  "Wherever a text setting, or a text entry of a dictionary setting, contains one or more references to other settings, written as the bracketed path of keys, each reference is replaced by the value that setting has in this configuration, whatever its type, and all other text is kept. References that name no existing setting are left as they are.",
  ["configurations", "inputs"], "every position that can hold text x all reference patterns with up to three references x values of the referenced settings",
  "The only covered case is a single reference in toy dictionaries; several references in one value, non-text targets and overridden targets need enumeration.",
  [CFG], [("reference resolution", CFG)], ["MIMOSA(params).params", "data used by the model"])

p("C05", "Quantities mean the same thing in every compatible unit",
  "A quantity setting, or a data series, given in any unit of the right dimension yields a model whose parameters equal the stated amount converted to the model's internal unit. A quantity, data series or data source with an incompatible or unknown unit is rejected with an error.",
  ["inputs", "configurations"], "every quantity setting and every data source x all spellings in a table of prefixed and compound units x several magnitudes, and a table of wrong-dimension units",
  "Tests convert one or two quantities with the converter directly; they never follow every quantity setting into the instantiated model.",
  ["mimosa/common/units.py", INST, PARS, "mimosa/inputdata/config/extra_units.txt", "mimosa/common/data/datastore.py"],
  [("unit registry with custom units", "mimosa/common/units.py"), ("conversion when instantiating", INST)],
  ["parameter values of the concrete model"])

p("C06", "Baseline population, GDP and emissions follow the chosen scenario data",
  "For every region, scenario and data source, the baseline population, GDP and emissions used by the model equal the source data (in internal units) at the data's own years, a smooth cubic interpolation of them in between, and after the last data year continue with the last growth rate fading linearly to zero fifty years later. The values for a calendar year do not depend on the time step, start year, end year, on which other regions are modelled, or on other scenarios.",
  ["configurations", "inputs"], "all scenarios x all data files x all regions x all variables x a set of time grids and region subsets",
  "No test reads the scenario data; errors in selection, caching key, unit, interpolation or extrapolation only appear for particular scenario, region and year combinations.",
  ["mimosa/common/data/datastore.py", "mimosa/common/data/utils.py", INST],
  [("database selection and cache", "mimosa/common/data/datastore.py"), ("fading extrapolation", "mimosa/common/data/utils.py")],
  ["population, baseline_GDP, baseline_emissions of the concrete model"],
  [("cached_data", "process-wide cache of database rows", "mimosa/common/data/datastore.py")])

p("C07", "Regional parameters reach the right region, mapped or overridden",
  "Every regional coefficient used by the model equals the value in its source table for that region, where a table with another regional definition is translated by the mapping table (the plain average when several source regions map to one, the first entry for texts). A manual value given for a region replaces only that coefficient in that region, a custom mapping replaces the whole model parameter, and selecting a calibration column or damage quantile selects exactly that column.",
  ["configurations", "inputs"], "all regions x all regional tables and columns selectable by settings x all single manual overrides x identity, one-to-many and many-to-one mappings",
  "No test instantiates a model; wrong region, wrong column or leaking overrides only show for particular region/column/override combinations.",
  ["mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py", INST],
  [("regional parameter store with region mappers", "mimosa/common/regional_params/main.py")],
  ["regional parameters of the concrete model"])

p("C08", "The time grid covers the requested horizon and labels years correctly",
  "The model's time steps are the years start, start + dt, start + 2 dt, ... ending at the first such year that is not before the requested end, and this is the grid seen by every time-indexed quantity and by the exported year columns. Quantities labelled with a year are those of that year for every start, end and time step, including steps that do not divide the horizon and fractional steps.",
  ["configurations", "inputs"], "all (start, end, dt) triples of a grid of starts, ends and dividing, non-dividing and fractional steps",
  "Tests never build a time grid; off-by-one and rounding errors appear only for particular start/end/step triples.",
  [INST, "mimosa/export/save.py", "mimosa/abstract_model.py"],
  [("number of periods and year function", INST), ("exported year columns", "mimosa/export/save.py")],
  ["concrete model index sets", "CSV header"])

p("C09", "A model depends only on its parameters, not on earlier models in the process",
  "Building the same parameters gives the same model (parameters, equations, limits, objective) no matter which and how many other models were built, solved or saved earlier in the same process, and building a new model never alters an existing one.",
  ["histories"], "all sequences up to a depth over an alphabet of mutually colliding configurations (same file other scenario, other regions, other units, other step, other modules), against a fresh process",
  "Tests are independent single calls; process-wide caches and module-level state only matter over sequences of builds.",
  ["mimosa/common/data/datastore.py", INST, "mimosa/common/units.py", "mimosa/common/regional_params/main.py"],
  [("class-level database cache", "mimosa/common/data/datastore.py")],
  ["concrete model signature"],
  [("databases / cached_data", "class-level caches", "mimosa/common/data/datastore.py")])

p("C10", "Emissions, cumulative emissions and temperature account for each other",
  "On every policy path: regional emissions are the baseline reduced by the abated fraction (the scenario baseline in the first year), the baseline is the scenario emissions or the scenario carbon intensity times net GDP as configured, the reported reduction is baseline minus emissions, and global emissions are the regional sum. Cumulative emissions start at zero and add the time step times the trapezoid or end value of global emissions as configured, their relative value is taken against cumulative baseline emissions (one in the first year), and temperature is the initial temperature plus TCRE times cumulative emissions in every year.",
  ["inputs", "configurations", "histories"], "all abatement sequences over a finite action alphabet up to a horizon x flag settings x time grids x region sets x scenarios",
  "No test evaluates a model equation; the relations must hold for every abatement path and configuration, not for one optimum.",
  [EM], [("emission, cumulative emission and temperature equations", EM)],
  ["regional_emissions", "global_emissions", "cumulative_emissions", "temperature", "baseline"])

p("C11", "Carbon budget, net-zero rule and temperature target admit only compliant paths",
  "With a carbon budget, a policy path is admitted exactly when cumulative emissions do not exceed the budget in any modelled year from 2100 on and, if the net-zero rule is on, global emissions are not positive from 2100 on; with a temperature target exactly when temperature does not exceed it from 2100 on. Switched off, these settings restrict nothing, they never alter the dynamics of a path, and cumulative emissions are never allowed to become negative.",
  ["inputs", "configurations", "histories"], "all abatement sequences up to a horizon x budgets/targets placed on either side of reached values x time grids that hit, straddle or exceed 2100",
  "Admissibility must hold on every path and every grid; no test builds these constraints.",
  [EM], [("budget, net-zero and temperature-target constraints", EM)], ["constraint residuals on policy paths"])

p("C12", "Inertia, emission floors and post-2100 limits admit exactly compliant paths",
  "A policy path is admitted exactly when regional and global emissions fall per step by no more than the configured yearly fraction of initial-year baseline emissions times the step length, stay at or above the configured regional and global floors, and (if configured) no region's emissions rise in steps that start after 2100. Each limit switched off restricts nothing, and none of them alters the dynamics of a path.",
  ["inputs", "configurations", "histories"], "all abatement sequences up to a horizon x each limit off / loose / tight x time grids around 2100",
  "Admissibility must hold on every path and every grid; no test builds these constraints.",
  [EM], [("inertia, minimum-level and post-2100 constraints", EM)], ["constraint residuals on policy paths"])

p("C13", "Abatement costs follow the marginal abatement cost curve and learning",
  "On every policy path the regional carbon price is the regional scaling times gamma times abatement to the power beta times the learning factor (zero abatement and price in the first year), and the area under that curve times baseline emissions is the regional abatement cost, from which mitigation costs differ only by the trade balance. The learning factor is the product of learning over time per elapsed step and learning by doing on cumulative reductions; cost ratios are taken against gross GDP, regional relative costs may not fall below the configured minimum (zero in the first year), and global cost ratios and averages are those of the regional sums.",
  ["inputs", "configurations", "histories"], "all abatement (and trade) sequences up to a horizon x beta, learning, scaling-column and minimum-level settings",
  "Tests evaluate the two cost functions at a few points with mock parameters; the wiring into the model, learning along a path and the cost floor are untested.",
  ["mimosa/components/mitigation.py"], [("MAC, cost and learning equations", "mimosa/components/mitigation.py")],
  ["carbonprice", "area_under_MAC", "mitigation_costs", "learning_factor"])

p("C14", "Sea-level rise follows its documented components and lags temperature",
  "On every policy path, sea-level rise is the sum of thermal expansion, small glaciers and the Greenland ice sheet, each starting at its documented initial level and advancing by its documented rule from its own level and the temperature of the previous step, scaled by the step length. In particular, sea level in a year never depends on abatement in that same year or later.",
  ["inputs", "configurations", "histories"], "all abatement sequences up to a horizon x time steps x initial temperatures x TCRE values",
  "No test evaluates the sea-level module; the recursion must hold along every path and step length.",
  ["mimosa/components/sealevelrise.py"], [("sea-level recursions", "mimosa/components/sealevelrise.py")],
  ["slr_thermal", "slr_cumgsic", "slr_cumgis", "total_SLR"])

p("C15", "Damages follow the selected damage functions and vanish in the first year",
  "On every policy path and for every region, damages are the configured scale times the quantile-scaled regional function (linear, quadratic or logistic) of temperature relative to 1986-2005 plus that of sea-level rise with or without adaptation as configured, each minus its first-year value, so that damages are zero in the first year. In combined mode only the combined quadratic temperature function for the chosen quantile and adaptation setting counts; with the no-damage module damages are zero; reported heat mortality is the regional quadratic in temperature.",
  ["inputs", "configurations", "histories"], "all abatement sequences up to a horizon x all regions x all quantiles x adaptation x combined x scale x module",
  "No test builds a damage function; wrong form, coefficient, quantile or reference year only shows for particular region/quantile/flag combinations.",
  ["mimosa/components/damages/coacch.py", "mimosa/components/damages/nodamage.py", INST],
  [("functional forms and first-year subtraction", "mimosa/components/damages/coacch.py"), ("combined-mode coefficients", INST)],
  ["damage_costs", "damage_costs_slr", "damage_costs_non_slr", "mortality variables"])

p("C16", "GDP, investment, consumption and capital balance in every region and year",
  "On every policy path net GDP is gross GDP minus damages (unless damages are ignored), mitigation costs and financial transfers, and splits exactly into investment and consumption by the savings rate; gross GDP is the Cobb-Douglas product of calibrated productivity, population and capital, and equals baseline GDP in the first year. Capital starts at the regional factor times baseline GDP and changes each step by depreciation and investment; productivity reproduces baseline GDP with the capital that the initial stock accumulates, step by step, from its own previous value and the savings of the previous step's baseline GDP.",
  ["inputs", "configurations", "histories"], "all abatement, trade and transfer sequences up to a horizon x economic parameters x ignore-damages x time grids x scenarios",
  "No test evaluates the economy; the balance must hold on every path, not for one optimum.",
  ["mimosa/components/cobbdouglas.py", "mimosa/common/economics.py"],
  [("production, budget and capital equations", "mimosa/components/cobbdouglas.py"), ("productivity calibration", "mimosa/common/economics.py")],
  ["GDP_gross", "GDP_net", "investments", "consumption", "capital_stock", "TFP"])

p("C17", "Emission trading redistributes abatement cost without creating or losing any",
  "In every year, costs paid for traded reductions sum to zero over regions, traded reductions are the cost balance divided by the population-weighted global carbon price, paid-for reductions are own plus imported reductions, and allowances are baseline minus paid-for reductions. With the cost pool the payments of all regions add up to the total area under the cost curves and reductions are attributed proportionally to payment; without trade, all balances are zero and each region pays exactly its own area under the curve.",
  ["inputs", "configurations", "histories"], "all abatement and trade sequences up to a horizon x trade modules x region sets",
  "No test builds a trade module; conservation must hold for every feasible trade, and one module could not even be constructed.",
  ["mimosa/components/emissiontrade/emissiontrade.py", "mimosa/components/emissiontrade/globalcostpool.py", "mimosa/components/emissiontrade/notrade.py", "mimosa/components/mitigation.py"],
  [("balance and price equations", "mimosa/components/emissiontrade/emissiontrade.py")],
  ["import_export_mitigation_cost_balance", "global_carbonprice", "paid_for_emission_reductions"])

p("C18", "Financial transfers are zero-sum, capped by own damages, and start at zero",
  "With the damage pool, a transfer path is admitted exactly when in every year after the first the transfers sum to zero over regions, in the first year all are zero, and no region receives more than its own damages times gross GDP; relative transfers are transfers divided by gross GDP. Without a transfer module, transfers are zero everywhere.",
  ["inputs", "configurations", "histories"], "all transfer and abatement sequences up to a horizon over an alphabet with compliant, over-cap and unbalanced transfers",
  "No test builds a transfer module; the cap must hold against the damages reached on each path.",
  ["mimosa/components/financialtransfer/globaldamagepool.py", "mimosa/components/financialtransfer/notransfer.py"],
  [("zero-sum, first-year and cap constraints", "mimosa/components/financialtransfer/globaldamagepool.py")],
  ["financial_transfer", "rel_financial_transfer"])

p("C19", "Effort-sharing regimes admit exactly the paths that share effort as documented",
  "With equal mitigation costs every region's relative mitigation cost is within 0.5% of a common yearly level; with equal total costs the same holds for mitigation plus damages plus transfers in years up to and including 2100; with per-capita convergence each region's allowances after the first year are within 0.001 of its share of global emissions. That share moves linearly from the initial emission share to the current population share at the convergence year and stays there (population share throughout if convergence is not after the start, initial share throughout if switched off), shares of all regions sum to one, and without a regime nothing is restricted.",
  ["inputs", "configurations", "histories"], "all abatement/trade sequences and common levels up to a horizon x regimes x convergence years before, at, between, at end of and after the grid, and off",
  "No test builds a regime; band edges, year cut-offs and convergence corner cases need enumeration.",
  ["mimosa/components/effortsharing.py"],
  [("soft equality bands", "mimosa/components/effortsharing.py"), ("share interpolation", "mimosa/components/effortsharing.py")],
  ["percapconv_share", "effort_sharing_common_level", "constraint residuals"])

p("C20", "The objective is the discounted sum of the selected welfare or cost measure",
  "On every policy path utility and yearly welfare follow the selected welfare module (population-weighted regional utility, utility of global per-capita consumption, or inequality-averse aggregation), and the discounted total starts at zero and adds, each later year, the step length times the discount factor since the start year times that year's welfare or, for the cost objective, total mitigation plus damage costs. The solver is asked to maximise the final total for welfare and to minimise it for costs.",
  ["inputs", "configurations", "histories"], "all policy sequences up to a horizon x welfare modules x objective modules x preference parameters x time grids",
  "No test evaluates welfare; sign, discounting and aggregation must hold for every path and module combination.",
  ["mimosa/components/welfare/welfare_loss_minimising.py", "mimosa/components/welfare/cost_minimising.py", "mimosa/components/welfare/inequal_aversion_general.py", "mimosa/components/welfare/utility_fct.py", "mimosa/components/objective/utility.py", "mimosa/components/objective/globalcosts.py"],
  [("welfare and discounting equations", "mimosa/components/objective/utility.py")],
  ["utility", "yearly_welfare", "NPV", "objective"])

p("C21", "Simulation mode pins the given variables and frees exactly the named limits",
  "In simulation mode a path is admitted exactly when each given variable stays within 0.001 of the supplied values (read from a file or given directly, per region or globally, interpolated to the model years and continued after the last year) and all limits except the named deactivated ones hold. With simulation mode off the same entries have no effect, and an unknown variable or limit name, or a region without values, is reported as an error.",
  ["inputs", "configurations", "histories"], "all combinations of pinned variables, data forms, year layouts and deactivated limits in an alphabet x policy paths on and off the pinned values",
  "No test uses simulation mode.",
  ["mimosa/concrete_model/simulation_mode/set_constraints.py", "mimosa/concrete_model/simulation_mode/deactivate_constraints.py", "mimosa/concrete_model/simulation_mode/utils.py"],
  [("band constraints", "mimosa/concrete_model/simulation_mode/set_constraints.py"), ("deactivation by name", "mimosa/concrete_model/simulation_mode/deactivate_constraints.py")],
  ["constraint residuals on policy paths"])

p("C22", "A failed solve is always reported and a successful one always loaded",
  "For every sequence of solver outcomes on one model, each solve call raises an error exactly when the solver did not finish successfully, the recorded status is that of the latest call (none before the first, and none while an attempt crashed), and after a success every variable carries the latest solution. The options given to a solve call reach the solver unchanged and do not leak into later calls, and the remote solver is used exactly when requested.",
  ["histories", "fault_sequences"], "all sequences up to a depth over solver outcomes (optimal, acceptable, infeasible, unbounded, limit, failure, crash, no or garbled answer) x option sets x local/remote",
  "The sandboxed tests run no solver; error handling over sequences of outcomes is untested.",
  ["mimosa/mimosa.py"], [("status handling and exception", "mimosa/mimosa.py")],
  ["MIMOSA.status", "exceptions", "variable values", "solver command line"],
  [("status", "solver status of the last attempt", "mimosa/mimosa.py")])

p("C23", "Saved output contains every result once, with right region, unit and year",
  "Saving writes a table with exactly one row per global variable, per regional variable and region, and per regional time-dependent input, labelled with its region and unit, whose year columns hold that quantity's value in that year to six significant digits, next to a JSON parameter file that holds the model's settings exactly and from which the same model is rebuilt. The file lands in the requested folder under the requested name, with a suffix that is equal for equal settings and different for different settings when requested, the last saved name is recorded, and a write failure at any point is reported.",
  ["configurations", "histories", "fault_sequences"], "all module combinations and grids x distinct sentinel values in every variable x save-option sequences x file-system faults",
  "No test saves a model.",
  ["mimosa/export/save.py", "mimosa/common/pyomo_utils.py", "mimosa/mimosa.py"],
  [("row builder and CSV/JSON writers", "mimosa/export/save.py"), ("variable listing", "mimosa/common/pyomo_utils.py")],
  ["CSV file", "params.json file", "last_saved_filename"])

p("C24", "Every documented configuration builds a model that a policy fully determines",
  "Every combination of the documented modules, regimes and flags (except per-capita convergence without an allowance market), every choice value, and every in-range boundary value (horizon and region type as far as the supplied data cover them) builds a model without error. In that model (for capital elasticities up to 0.9), choosing abatement, trade, transfers and the common effort level for every year determines every reported quantity of every region and later year uniquely and finitely, all equations are consistent, and taking no action is consistent with all of them.",
  ["configurations"], "the full product of modules x regimes x flags, all enum values, all numeric boundaries, region counts 1, 2, 3 and 26",
  "No test builds any model, let alone all combinations; one documented module could not be built at all.",
  ["mimosa/abstract_model.py", "mimosa/mimosa.py", "mimosa/components/emissiontrade/globalcostpool.py"],
  [("module selection and assembly", "mimosa/abstract_model.py")],
  ["concrete model", "forward evaluation of the equation system"])

p("C25", "Pre- and postprocessing change neither the problem nor the reported results",
  "For every policy path, the prepared problem handed to the solver admits the path exactly when the original model equations and limits do, with the same objective value. After a solve, every variable of the original model, including those eliminated or fixed beforehand, carries the value implied by the solution.",
  ["inputs", "configurations", "histories"], "all policy sequences up to a horizon, compliant and violating, x module combinations x one and several regions",
  "No test preprocesses or solves a model.",
  ["mimosa/mimosa.py"], [("aggregation, initialisation and fixing of variables", "mimosa/mimosa.py"), ("restoration after solving", "mimosa/mimosa.py")],
  ["preprocessed concrete model", "variable values after solve"])

p("C26", "Results belong to regions by name, not by position",
  "Listing the same regions in any other order yields the same model: every regional quantity on every policy path is the same for the same region name, and every global quantity and limit is unchanged. The order of rows, and of the columns that describe them, in the supplied tables does not matter either. Adding manual values for one region never changes another region's inputs.",
  ["configurations", "inputs"], "all permutations of small region sets and rotations/reversal of the full set x module combinations x policy paths",
  "No test builds a model; positional mix-ups need models with permuted regions.",
  ["mimosa/abstract_model.py", INST, "mimosa/common/regional_params/main.py", "mimosa/common/data/datastore.py"],
  [("region-indexed sets and parameters", "mimosa/abstract_model.py")], ["policy-path values per region"])

p("C27", "Extensions made as documented take effect as documented",
  "A configuration entry of any documented type added to the declaration is offered with its default, accepts exactly its valid values, and reaches the parameter declared for it (a quantity in its unit); so do the columns of an added regional file (translated to the model's regions, or overridden for one region) and an added time series, also when a parameter chooses its source from other settings. Each documented kind of constraint of an added component, hard or soft, named or not, is enforced at exactly the years and regions it covers and does not skip, and constraints never displace each other. Added variables are loaded by a solve and saved like shipped ones, those without a time dimension with their value in every year.",
  ["inputs", "configurations"], "all values of the added entries, all constraint kinds x relations x skip conditions x index shapes with every assignment of the constrained cells",
  "The unit tests never extend the model; some documented kinds could not even be built.",
  ["mimosa/common/pyomo_utils.py", INST, "mimosa/abstract_model.py", "mimosa/common/config/parseconfig.py", "mimosa/export/save.py"],
  [("constraint kinds and their registration", "mimosa/common/pyomo_utils.py"), ("linking of parameters to their sources", INST)],
  ["concrete model of an extended package", "admitted assignments of new variables", "saved rows"])

p("C28", "The log tells the outcome of every solve",
  "With the documented logging set-up, every solve that returns a solver answer adds exactly one record with its status, a successful one also one record with the final value (the objective in the model's last year) and one with the solve time, and one that ends with a warning an error record. No failed or crashed solve logs a final value or the status ok, whatever happened before in the process, on the same or another model, silent or verbose, local or remote.",
  ["histories", "faults"], "all sequences of solver outcomes up to a depth on one model, and interleaved over two models",
  "The logging test needs a solver and covers a single successful run.",
  ["mimosa/mimosa.py", "mimosa/common/utils.py"], [("status, value and error records", "mimosa/mimosa.py"), ("timing record", "mimosa/common/utils.py")],
  ["records of the MIMOSA logger after each solve"])

p("C29", "The solver starts where every equation can be evaluated",
  "For every configuration that builds, with or without pinned variables, the problem which solve() hands to the solver starts at a point where, after the solver's documented move into the variables' limits, every equation, every limit and the objective has a finite value and finite first and second derivatives (no division by zero, no logarithm or fractional power of a non-positive number, no overflow). The same holds when the model is solved again after an accepted answer.",
  ["configurations", "histories"], "all module and regime combinations, flags, region sets, choices, boundary and extreme values, pins; first solve and solves after an accepted answer",
  "No test reaches a solver, and whether a start is usable depends on the combination of modules, preprocessing and starting values.",
  ["mimosa/mimosa.py", "mimosa/common/pyomo_utils.py", "mimosa/components/cobbdouglas.py", "mimosa/components/mitigation.py", "mimosa/components/welfare/utility_fct.py"],
  [("starting values of the variables", "mimosa/components/cobbdouglas.py"), ("soft_min guards", "mimosa/common/pyomo_utils.py"), ("midpoint initialisation", "mimosa/mimosa.py")],
  ["problem file received by the solver"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        fh.write(json.dumps(x) + "\n")
print(len(P))
