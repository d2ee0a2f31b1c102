"""Extended copies of the package, made the way the documentation describes.

`install(dir)` copies the package and adds to the copy: a section of new
configuration entries, a regional parameter file, a time series file, and one
line at the end of a component file through which a new component is added.
Everything else in the copy is the code under test.  The copy is exercised in
a process of its own (`python -m mc.extension`), because the package reads its
files relative to its own location.
"""
import csv
import json
import os
import shutil
import subprocess
import sys

import yaml

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REJECT = "reject"
CBF = {"can_be_false": True}
# path -> (declaration, [(user value, value the parameter must get, or REJECT)])
ENTRIES = {
    "ext.rate": (dict(type="float", min=0, max=2, default=0.25, descr="a rate"),
                 [(0, 0.0), (2, 2.0), (1.75, 1.75), ("1.5", 1.5), (-0.001, REJECT), (2.001, REJECT), ("abc", REJECT)]),
    "ext.open rate": (dict(type="float", default=-3.5), [(-1e6, -1e6), (1e6, 1e6), (0, 0.0)]),
    "ext.optional rate": (dict(type="float", min=1, max=2, default=False, **CBF), [(1.25, 1.25), (False, False), (0.5, REJECT), (2, 2.0)]),
    "ext.number of things": (dict(type="int", min=1, max=9, default=3), [(1, 1), (9, 9), (0, REJECT), (10, REJECT), ("x", REJECT)]),
    "ext.deep.level 1.flag": (dict(type="bool", default=False), [(True, True), (False, False), ("maybe", REJECT)]),
    "ext.deep.level 1.flag on": (dict(type="bool", default=True), [(True, True), (False, False)]),
    "ext.deep.name": (dict(type="str", default="abc"), [("x y z", "x y z"), ("", "")]),
    "ext.deep.optional name": (dict(type="str", default=False, **CBF), [("name", "name"), (False, False)]),
    "ext.choice": (dict(type="enum", values=["newparam1", "newparam2", "new param 3"], default="newparam1"),
                   [("newparam2", "newparam2"), ("new param 3", "new param 3"), ("newparam", REJECT), (False, REJECT)]),
    "ext.budget": (dict(type="quantity", unit="GtCO2", default="500 GtCO2"),
                   [("250000 MtCO2", 250.0), ("0 GtCO2", 0.0), ("-3 GtCO2", -3.0), ("5 delta_degC", REJECT), ("5 GtCO2/yr", REJECT)]),
    "ext.optional budget": (dict(type="quantity", unit="GtCO2", default=False, **CBF), [("1 GtCO2", 1.0), (False, False), ("1 USD2005", REJECT)]),
    "ext.deep.warming": (dict(type="quantity", unit="delta_degC", default="1.5 delta_degC"), [("2 delta_degC", 2.0), ("1 GtCO2", REJECT)]),
    "ext.deep.level 1.level 2.amount": (dict(type="quantity", unit="MtCO2/yr", default="4 MtCO2/yr"),
                                        [("0.5 GtCO2/yr", 500.0), ("2 MtCO2/yr", 2.0), ("2 GtCO2", REJECT)]),
    "ext.price": (dict(type="quantity", unit="USD2005/tCO2", default="10 USD2005/tCO2"),
                  [("20 USD2005/tCO2", 20.0), ("30000 USD2005/ktCO2", 30.0), ("3 GtCO2", REJECT)]),
    "economics.GDP.new rate": (dict(type="float", min=0, default=0.125), [(4, 4.0), (-1, REJECT)]),
    "new toplevel": (dict(type="int", default=7), [(8, 8)]),
}
QUANTITY_DEFAULT = {"ext.budget": 500.0, "ext.deep.warming": 1.5, "ext.price": 10.0, "ext.deep.level 1.level 2.amount": 4.0}
REGIONAL = ["newparam1", "newparam2", "new param 3"]
COMPONENTS = ["cobbdouglas", "emissions", "sealevelrise", "mitigation"]
SCEN = "{SSP}-Ext-{ext - choice}"


def default_of(path):
    return QUANTITY_DEFAULT.get(path, ENTRIES[path][0]["default"])


def regional_value(region, column):
    """Distinct number per region and column."""
    return round(sum(ord(c) * (i + 7) for i, c in enumerate(region + column)) % 997 / 64.0, 6)


def series_value(ssp, choice, region, year):
    base = regional_value(region, choice) + ord(ssp[-1])
    return round(base * (1 + 0.01 * (year - 2010) - 0.00004 * (year - 2010) ** 2), 6)


SERIES_YEARS = list(range(2010, 2101, 10))


def install(dst, repo, pkg, component, regions):
    """Extended copy of the package at dst/mimosa."""
    new = os.path.join(dst, "mimosa")
    shutil.copytree(pkg, new, ignore=shutil.ignore_patterns("__pycache__"))
    inp = os.path.join(new, "inputdata")
    cfg = os.path.join(inp, "config", "config_default.yaml")
    with open(cfg, encoding="utf8") as fh:
        tree = yaml.safe_load(fh)
    for path, (decl, _) in ENTRIES.items():
        d = tree
        *head, last = path.split(".")
        for k in head:
            d = d.setdefault(k, {})
        d[last] = dict(decl)
    files = tree["regional_parameter_files"]["default"]
    files["newparamgroup"] = {"filename": "inputdata/regionalparams/newfile.csv", "regionstype": "IMAGE26"}
    files["mappedgroup"] = {"filename": "inputdata/regionalparams/newmapped.csv", "regionstype": "COACCH"}
    tree["input"]["variables"]["newdata"] = {
        "descr": "new data", "type": "datasource",
        "default": {"variable": "New|Data", "unit": "emissionsrate_unit", "scenario": SCEN, "model": "EXT", "file": "inputdata/data/newdata.csv"}}
    with open(cfg, "w", encoding="utf8") as fh:
        yaml.safe_dump(tree, fh, sort_keys=False, allow_unicode=True)
    with open(os.path.join(inp, "regionalparams", "newfile.csv"), "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["region"] + REGIONAL)
        for r in regions:
            w.writerow([r] + [regional_value(r, c) for c in REGIONAL])
    with open(os.path.join(inp, "regionalparams", "COACCH.csv"), newline="") as fh:
        other = [row[0] for row in csv.reader(fh)][1:]
    with open(os.path.join(inp, "regionalparams", "newmapped.csv"), "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["region"] + REGIONAL)
        for r in other:
            w.writerow([r] + [regional_value(r, c) for c in REGIONAL])
    with open(os.path.join(inp, "data", "newdata.csv"), "w", newline="") as fh:
        w = csv.writer(fh)
        w.writerow(["Model", "Scenario", "Region", "Variable", "Unit"] + SERIES_YEARS)
        for ssp in range(1, 6):
            for c in REGIONAL:
                for r in regions:
                    w.writerow(["EXT", f"SSP{ssp}-Ext-{c}", r, "New|Data", "Mt CO2/yr"]
                               + [series_value(f"SSP{ssp}", c, r, y) * 1000 for y in SERIES_YEARS])
    with open(os.path.join(new, "components", component + ".py"), "a", encoding="utf8") as fh:
        fh.write("\n\n_shipped_get_constraints = get_constraints\n\n\ndef get_constraints(m):\n"
                 "    import mc_extension_hook\n\n"
                 "    return list(_shipped_get_constraints(m)) + mc_extension_hook.component(m)\n")
    with open(os.path.join(dst, "mc_extension_hook.py"), "w") as fh:
        fh.write("new = []\n\n\ndef component(m):\n    return [c for fn in new for c in fn(m)]\n")


def run(job, out):
    """Exercise one job in a process on an extended copy; fills `out`."""
    from mc import impl
    with impl.scratch_dir() as d:
        install(d, impl.REPO, impl.PKG, job["component"], sorted(r for r in all_regions()))
        with open(os.path.join(d, "job.json"), "w") as fh:
            json.dump(job, fh)
        env = dict(os.environ, MC_REPO=d, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-m", "mc.extension", os.path.join(d, "job.json")], cwd=d, env=env,
                           capture_output=True, text=True, timeout=560)
        try:
            with open(os.path.join(d, "result.json")) as fh:
                res = json.load(fh)
        except FileNotFoundError:
            out.violation("extended copy", f"the extended copy cannot be exercised: {p.stderr[-500:]}")
            return
    out.states += res["states"]
    out.transitions += res["transitions"]
    out.validated += res["validated"]
    out.cases += res["cases"]
    for k, v in res["tags"].items():
        out.tag(k, v)
    for v in res["violations"]:
        out.violation(v["key"], v["text"], **v["detail"])
    for s in res["samples"]:
        out.sample(**s)


def all_regions():
    from mc import impl
    p = impl.params_from()
    return list(p["regions"])


if __name__ == "__main__":
    from mc import report
    from mc.checks import c27
    from mc.report import _plain

    with open(sys.argv[1]) as fh:
        JOB = json.load(fh)
    OUT = report.Out(JOB)
    try:
        c27.work(JOB, OUT)
    except Exception as exc:
        import traceback
        OUT.violation("exception:" + type(exc).__name__, f"unexpected {type(exc).__name__}: {exc}"[:400],
                      traceback=traceback.format_exc().strip().splitlines()[-8:])
    with open(os.path.join(os.path.dirname(sys.argv[1]), "result.json"), "w") as fh:
        json.dump(_plain({k: getattr(OUT, k) for k in ("states", "transitions", "validated", "cases", "tags", "violations", "samples")}), fh)
