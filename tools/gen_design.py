"""Write DESIGN.md: hand-written parts below, bounds from the checks, seeds from seeded/*/meta.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = """# Model checking MIMOSA

MIMOSA is a single-threaded optimisation model.  A parameter dictionary goes through a configuration layer (`mimosa/common/config`), data loading
(`mimosa/common/data`, `mimosa/common/regional_params`, `mimosa/concrete_model/instantiate_params.py`), equation building
(`mimosa/components/*`, `mimosa/abstract_model.py`), optional simulation limits (`mimosa/concrete_model/simulation_mode`), preprocessing, an external solver,
postprocessing and export (`mimosa/mimosa.py`, `mimosa/export`).  There are no threads and no persistent protocol, so what can vary is the *policy path* through the model's
years, the *configuration*, and the *history of calls*.  Each is a state space, and each is enumerated exhaustively within stated bounds.

1. **Policy paths** (C10-C21, C24-C26).  A *state* is the value of all model variables in one year, an *action* a choice of abatement (and trade, transfers, common effort
   level) for the next year.  All action sequences over a finite alphabet are explored.  **The transition function is the code**: `mc/compilem.py` takes the concrete Pyomo
   model which MIMOSA's own code builds in this run and compiles its constraint expressions into vectorised functions; `mc/forward.py` matches equations with variables
   (maximum matching + strongly connected components) and solves block after block, year by year, for all paths at once.  Nothing is transcribed by hand, so a change of an
   equation, an index, a data file or a preprocessing step is in the explored transition system.  Where no equation determines a variable, or a block is singular, the path
   is reported instead of guessed.  The **monitor** evaluated on every path is a separate reference written from the documentation and from the data files
   (`mc/ref.py`, `mc/rules.py` and each check).
2. **Configurations** (C01-C02, C04-C09, C24, C27).  All values of a per-type alphabet for every documented setting, all insertions of unknown keys at every node, all pairs of
   choices, full products of modules, all boundary values.  The implementation is called on every one; the oracle is an independent reading of the declaration
   file (`mc/config.py: verdict`), of the unit tables and of the data tables.
3. **Call histories** (C03, C09, C22, C23, C25, C28, C29).  All sequences up to a depth of load / change / build / solve(outcome) / save on the real objects.  The local solver is replaced
   by a scripted executable which speaks the AMPL interface (`mc/solverstub.py`), the remote one by a stand-in for Pyomo's solver manager; all outcomes are
   enumerated.  File-system faults are injected with a file-size limit (every byte position class) and with blocked path components inside a scratch directory.

**Binding of explored states to the implementation.**  Types 2 and 3 run the implementation itself.  For type 1 a set of explored paths of every model (always the first and the last) is
replayed through Pyomo's own expression evaluator (`Result.validate_against_pyomo`): the compiled value of every equation and limit must agree with Pyomo's value on the same
point; a mismatch fails the check.  The number is `validated` in the evidence.  No solver verdict decides anything, and nothing is sampled: the seed is not used.

**Tolerances.**  Implementation and reference are compared at 1e-6..1e-9 relative; paths closer to a limit than a stated margin are not judged (each check counts judged paths on
both sides of each limit, and a required-tag mechanism makes a check fail when a class of behaviours it claims to cover was not reached: no vacuous passes).

## Running

`/opt/venv/bin/python -m mc.run C12 [--tier thorough] [--replay FILE]` from `/verif` with `PYTHONPATH=/verif`.  `MC_REPO=/path` points the same machinery at another working tree.
Jobs run in 8 forked workers; every job has a 600 s limit and an unexpected exception is a violation.  `tools/gen_properties.py`, `tools/gen_manifest.py` and
`tools/gen_design.py` regenerate the committed descriptions; `tools/mkseed.py ID [--check]` builds a planted bug from `tools/seed_specs.py`, validates it (patch applies, tests pass,
demo passes before and fails after) and optionally runs the property's check on it.

`tools/mutate.py` makes systematic one-token changes of a source file and runs checks on each (fail fast), to look for blind spots.

No hook was needed in /repo: everything observed is public (the concrete Pyomo model, files, raised errors, recorded status).
"""

METHOD = {
 "C01": ("explicit enumeration of (setting, value) and of pairs, on load_params and MIMOSA()", "own reading of config_default.yaml (type, range, choices, off values) and own unit table",
         "tests load a handful of values"),
 "C02": ("enumeration of every node x every unknown key x every shape of value", "set of documented paths", "a silently ignored typo is invisible to a test of known settings"),
 "C03": ("all call histories build/change/build; state = caller's dictionary + all models so far", "the same model built from a fresh dictionary in a fresh process; deep copy of the caller's dictionary",
         "aliasing shows only after a specific later change"),
 "C04": ("enumeration of targets x patterns x holders, all ordered pairs and triples of 8 targets", "own resolver working on the defaults plus the given settings", "tests hold one reference"),
 "C05": ("enumeration of quantity settings x unit spellings x companions", "own table of unit sizes (SI prefixes, currency base years)", "a wrong factor shows for one spelling only"),
 "C06": ("enumeration of scenario x file x region x variable x grid, histories of 3 builds", "own reader of the CSV, own not-a-knot spline and continuation (mc/ref.py)", "depends on the data year grid and on the time grid"),
 "C07": ("enumeration of coefficients x regions x columns x overrides x mapping relations", "own reader of the tables and mapping", "one wrong region or column among thousands"),
 "C08": ("enumeration of start x horizon x step", "exact rational arithmetic for the grid", "fails for particular steps only"),
 "C09": ("all histories of depth 3 of builds, failures, saves, crashes in one process; all file histories of depth 3, each in a forked process", "signature (parameters, bounds, equations at probe points, objective) of the same build in a fresh process",
         "caches and shared state show only for particular sequences"),
 "C10": ("all abatement paths over the real equations", "own accounting of the carbon cycle", "must hold on every path, not the optimal one"),
 "C11": ("all paths; the explored limits lie between reached values, so that each limit is both met and broken", "compliance predicate on reached values", "an off-by-one year is invisible unless the limit binds there"),
 "C12": ("as C11 for inertia, floors, post-2100 rule", "compliance predicates", "as C11"),
 "C13": ("all abatement x trade paths, parameters at their limits", "MAC, learning and ratio formulas of the documentation", "as C10"),
 "C14": ("all paths; pairs of paths with a common prefix must share the sea level up to it (lag)", "documented rules of the three components", "causality is a relation between histories"),
 "C15": ("all paths x quantiles x flags x regions", "damage functions from the CSV", "regional function forms differ"),
 "C16": ("all abatement x trade x transfer paths", "accounting identities; productivity calibration replayed as a cost-free economy", "as C10"),
 "C17": ("all abatement x trade paths, all modules", "zero-sum and proportionality identities", "hold off the optimum too"),
 "C18": ("all transfer paths incl. unbalanced ones", "compliance predicate", "tests only see optimal transfers"),
 "C19": ("all assignments of in-band/out-of-band deviations to regions and years, steered on the real equations", "documented shares and bands", "as C11"),
 "C20": ("all paths x module product", "discounted sum recomputed from reached consumption, costs", "as C10"),
 "C21": ("all layouts x forms x deviations at every cell; all subsets of freed limits; every constraint name freed alone", "own interpolation/continuation of the supplied values; limits of C11, C12, C18, C19 minus freed ones", "one of hundreds of cells may be unpinned"),
 "C22": ("all sequences of solver outcomes and of option sets on the real solve call", "history automaton: status, raised error, loaded values", "failures cannot be produced by the tests (no solver)"),
 "C23": ("all sequences of 3 saves; a write fault at every byte class; sentinel value in every cell", "own list of rows from the concrete model, file-system model", "a wrong cell among thousands; faults"),
 "C24": ("full module product, pairs of choices, boundary and extreme values; structural determinacy of all equations, all policies of a small alphabet", "matching + residuals of the left-over equations", "thousands of combinations, each of which may be unbuildable"),
 "C25": ("all policies and all single-variable deviations judged by both problems; two successive solves", "the raw model of the same parameters", "a merged or fixed variable changes the problem for some configuration only"),
 "C26": ("all region orders; all row/column listings of 6 tables; manual values for all subsets", "the same model in the reference order, compared by name", "positional mistakes cancel in the default order"),
 "C27": ("all declarations of a bounded family of extensions, installed in a scratch copy of the package; every assignment of {below, at, above} to the constrained cells judged by the built model",
         "the documented meaning of each kind, computed without the package", "no test extends the model"),
 "C28": ("all sequences of solver outcomes on one model and over two models, with a monitor on the documented log file", "history automaton: expected records per outcome, value read back from the model",
         "failures and histories cannot be produced by the tests (no solver)"),
 "C29": ("all configurations of the bounds, solved once and again after accepted answers; every operation of every row of the problem file is evaluated where the solver starts",
         "own reader of the .nl problem file (`mc/nl.py`), confirmed on every accepted answer: it satisfies all equations of the file it is written back to; domain rules of each operation",
         "no test writes a problem file; one combination of modules and starting values among hundreds may be unusable"),
}

LIMITS = """## What is not judged, and why

Cases in which the documentation and the code leave the meaning open are excluded rather than decided by the check:
- C01: numeric 0 for a setting which may be switched off becomes "off"; truth values given for numbers; fractional numbers for whole-number settings; infinity without a documented limit; `null` for a whole section.
- C04: references inside list entries are not resolved by the code; chains of references are not judged.
- C05/C09: a data file which changes while the process runs; data-source target units of another scale.
- C06/C24: horizons starting before 2010 or ending after 2200 (not covered by shipped data); region types SSP5 and World need files the user has to supply.
- C08: year labels with more than six significant digits are rounded by the documented `%.6g`.
- C12/C17: the settings min/max rel payment level have no effect on the model; nothing documents one precisely enough to be judged.
- C16/C24: capital elasticity above 0.9 makes growth within one step exceed any number; finiteness is not judged there.
- C16: without any cost the model does not reproduce baseline GDP exactly: the calibration of productivity accumulates capital explicitly (previous year's stock and savings), the model implicitly. The documentation names neither; the shipped calibration is taken as the definition (C16's statement).
- C19: for a negative common level the documented band `[0.995 x, 1.005 x]` is empty; only non-negative levels are explored.
- C20: the poles elasmu = 1 and inequal_aversion = 1 (documented defaults avoid them).
- C21: the code continues data for 2100+ with a hard-coded year; data which end earlier with growth, layouts with fewer than four points, years before the first value and beyond 2150 are not judged.
- C23: `last_saved_filename` is also recorded when saving fails and carries no suffix; maps with non-text keys become text in JSON; the suffix depends on the listing order of free-form maps ("equal settings" is read as equal order, since region order is the row order).
- Not covered by any property: `mimosa/socialcostofcarbon` (undocumented, imported by nothing, and its constructor calls no longer fit the signatures of the classes it uses, so it cannot be instantiated), the `year2100` parameter (unused), documentation generation, plots.

Technique limits: control values are from finite alphabets; a defect that shows only between the alphabet's levels (e.g. a discontinuity at 0.37 abatement) is outside the bounds.  The alphabets
include zero, small, medium, complete and more-than-complete abatement, and limits are placed between reached values so that each threshold is exercised from both sides.
No property had to be left out (`not_applicable` is empty).

## Genuine defects found

`known_findings.json` lists them; all but one are repaired by `fix:` commits in /repo (0d4822b, 963c759, f078dbd, 8b90bc6, d420380, 1af88e9, a01a067, 9aed661, eb06d47, 2f20c4e, 031ae55,
2fb95a4, e9755e0, b0adb98).
The remaining one (C24): with `percentage reversible` below one and a carbon budget, `components/emissions.py` refers to a variable `overshoot` that does not exist any more.  What the limit should be
in that mode is documented nowhere, so no small repair is certain to be right; it is reported as a KNOWN-FINDING.

## False alarms met and what was done
- C12: inertia given as the number 0 was once judged as a limit of zero; the settings parser lists 0 among the spellings of
  `false` (no limit) by design, so that variant was taken out. A zero *quantity* (`0 GtCO2`, `0 delta_degC`) does stay a limit.
- C23: equal dictionaries listed in another order give another suffix: region order is meaningful, statement reads "equal settings" accordingly.
- C21: continuation before 2100 disagreed with the documented fading; the code's rule is not documented, hence excluded (above).
- C09: a cache of the abstract model or of parsed YAML is behaviour preserving; the check compares built models, not objects, and stays quiet.
- C19: negative common levels (empty band), C24: alpha near one; both excluded (above).
- C10-C13, C17-C19, C21, C24, C25 alarmed on a copy of the repository in which constraint lists were merely reversed: which equation the
  explorer used for which variable depended on the order of the constraints, and in the first year, where some equations are redundant, the
  choice could fall on one whose factor vanishes. The matching (`mc/forward.py`, `match`) is now independent of the order, takes equations in which
  a variable stands alone with a constant factor first, and leaves the same variables undetermined whatever the listing.
- C17: with abatement already in the first year (a limit-breaking policy) the price of that year is zero by definition while the curve is not;
  the relation between cost and price is judged from the second step on for these policies.
- C25: with alpha = 0.999 on 20-year steps the equations of the default policies have no solution; nothing to compare, hence counted but no alarm.

`tools/refactor.py` writes such copies: (1) operands, comparisons, constraint lists, keywords and conditionals turned round, locals renamed, statements
without effect; (2) equations written as `left - right == 0`, expressions through helpers, declarations reordered, constraints named, comprehensions
as generators, constraints added one at a time, early returns as else branches. All checks are quiet on both. `tools/mutate.py` makes one small change
at a time in the package, keeps those that pass the tests and reports which the checks of that file miss.
"""


def main():
    out = [HEAD, "## Properties\n"]
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    for p in props:
        m = importlib.import_module("mc.checks." + p["id"].lower())
        how, oracle, why = METHOD[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n"
                   f"- **Explored**: {how}.\n- **Oracle**: {oracle}.\n- **Quick bounds**: {m.BOUNDS['quick']}.\n- **Thorough bounds**: {m.BOUNDS['thorough']}.\n"
                   f"- **Assumptions**: {'; '.join(m.ASSUMPTIONS)}.\n- **Why tests cannot settle it**: {why}.\n")
    out.append(LIMITS)
    out.append("## Planted bugs\n\nEvery entry of `seeded/` was confirmed (patch applies, stable tests pass, demo fails with it and passes without) and run against its property's quick check.\n"
               "`first miss` marks bugs which an earlier version of the check did not see; the check was then strengthened as described in its bounds.\n")
    out.append("| bug | property | needs | caught |\n|---|---|---|---|")
    res = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        out.append(f"| {s} | {meta['property']} | {meta['needs']} | {res.get(s, '?')} |")
    out.append("")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
