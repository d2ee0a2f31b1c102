"""C03: a parameter dictionary belongs to the caller and can be reused."""
import copy
import itertools
import os
import pickle
import shutil
import csv

from mc import config as cf, impl, signature as sg

PROPERTY = "C03"
FRESH = True
BOUNDS = {
    "quick": "all sequences of 3 (loaded dictionary; 2 otherwise) in-place changes out of 10 (top-level, nested, regional, data source, list, map entries, time grid, invalid then "
             "restored), with a model built before and after every change from the same dictionary; dictionary loaded, hand-written, or with shared "
             "sub-dictionaries; after each history the dictionary is scrambled in place; all orders of 4 default loads with scrambling between",
    "thorough": "as quick with sequences of 4 (3) changes",
}
ASSUMPTIONS = ["two regions, 2020-2030 (plus a second grid)"]
REQUIRED_TAGS = ["histories", "builds equal to fresh", "failed builds", "scrambled", "independent loads"]
BASE = [(("time", "start"), 2020), (("time", "end"), 2030), (("time", "dt"), 5), (("regions",), {"CAN": {}, "BRA": {"economics": {"init_capital_factor": 2.5}}}),
        (("simulation", "custom_mapping"), {"MAC_scaling_factor": {"CAN": 1.5, "BRA": 0.75}}),
        (("simulation", "constraint_variables"), {"relative_abatement": {2020: {"CAN": 0.0, "BRA": 0.0}, 2025: {"CAN": 0.1, "BRA": 0.2},
                                                                         2030: {"CAN": 0.2, "BRA": 0.3}, 2035: {"CAN": 0.2, "BRA": 0.3}}}),
        (("simulation", "deactivated_constraints"), [])]
OPS = ["ssp", "region", "source", "quantity", "mapping", "limits", "file", "mapfile", "grid", "invalid"]


def jobs(tier):
    n = 4 if tier == "thorough" else 3
    J = [{"mode": "history", "kind": k, "first": a, "depth": n if k == "loaded" else n - 1, "cost": 50 if k == "loaded" else 4}
         for k in ("loaded", "partial", "aliased") for a in OPS]
    J.append({"mode": "loads"})
    return J


def initial(kind):
    if kind == "loaded":
        return impl.params_from(BASE)
    d = cf.nest(BASE)
    d["input"] = {"variables": {"emissions": copy.deepcopy(impl.default_tree()["input"]["variables"]["emissions"]["default"])}}
    d["regionsmappings"] = copy.deepcopy(impl.default_tree()["regionsmappings"]["default"])
    d["regional_parameter_files"] = copy.deepcopy(impl.default_tree()["regional_parameter_files"]["default"])
    d["emissions"] = {"carbonbudget": "900 GtCO2"}
    d["simulation"]["simulationmode"] = False
    d["SSP"] = "SSP2"
    if kind == "aliased":
        shared = {"economics": {"init_capital_factor": 2.25}}
        d["regions"] = {"CAN": shared, "BRA": shared}
        src = d["input"]["variables"]["emissions"]
        d["input"]["variables"]["GDP"] = dict(src, variable="GDP|PPP", unit="currency_unit")
        d["regional_parameter_files"]["economics"] = d["regional_parameter_files"]["economics"]
    return d


def apply(op, d, folder):
    """In-place change of the caller's dictionary (toggles)."""
    if op == "ssp":
        d["SSP"] = "SSP5" if d["SSP"] != "SSP5" else "SSP1"
    elif op == "region":
        r = d["regions"]["BRA"]
        r.setdefault("economics", {})
        r["economics"]["init_capital_factor"] = 3.5 if r["economics"].get("init_capital_factor") != 3.5 else 1.75
    elif op == "source":
        s = d["input"]["variables"]["emissions"]
        s["scenario"] = "SSP4-Ref-SPA0-V17" if s["scenario"] != "SSP4-Ref-SPA0-V17" else "{SSP}-Ref-SPA0-V17"
    elif op == "quantity":
        d["emissions"]["carbonbudget"] = "500 GtCO2" if d["emissions"]["carbonbudget"] != "500 GtCO2" else False
    elif op == "mapping":
        c = d["simulation"]["custom_mapping"]["MAC_scaling_factor"]
        c["CAN"] = 4.0 if c["CAN"] != 4.0 else 0.5
    elif op == "limits":
        s = d["simulation"]
        if not s["simulationmode"]:
            s["simulationmode"] = True
            s["deactivated_constraints"].append("constraint_cumulative_emissions_postive") if False else None
            s["constraint_variables"]["relative_abatement"][2025]["BRA"] += 0.125
        else:
            s["simulationmode"] = False
    elif op == "file":
        f = d["regional_parameter_files"]["economics"]
        alt = os.path.join(folder, "economics_alt.csv")
        f["filename"] = alt if f["filename"] != alt else "inputdata/regionalparams/economics.csv"
    elif op == "mapfile":
        e = d["regionsmappings"][0]
        alt = os.path.join(folder, "map_alt.csv")
        e["conversiontable"] = alt if e["conversiontable"] != alt else "inputdata/regions/IMAGE26_COACCH.csv"
    elif op == "grid":
        d["time"]["end"] = 2040 if d["time"]["end"] != 2040 else 2030


def prepare(folder):
    with open(os.path.join(impl.DATA, "regionalparams", "economics.csv"), newline="") as fh:
        rows = list(csv.reader(fh))
    rows = [rows[0]] + [[c if i == rows[0].index("region") else str(float(c) * 1.5) if _isnum(c) else c for i, c in enumerate(r)] for r in rows[1:]]
    with open(os.path.join(folder, "economics_alt.csv"), "w", newline="") as fh:
        csv.writer(fh).writerows(rows)
    with open(os.path.join(impl.DATA, "regions", "IMAGE26_COACCH.csv"), newline="") as fh:
        rows = list(csv.reader(fh))
    a, b = rows[0].index("IMAGE26"), rows[0].index("COACCH")
    head, body = rows[0], rows[1:]
    swap = {r[a]: r for r in body}
    src = {"CAN": swap["JAP"][b], "BRA": swap["CHN"][b]}
    for r in body:
        if r[a] in src:
            r[b] = src[r[a]]
    with open(os.path.join(folder, "map_alt.csv"), "w", newline="") as fh:
        csv.writer(fh).writerows([head] + body)


def _isnum(c):
    try:
        float(c)
        return True
    except ValueError:
        return False


def in_fork(fn):
    """fn() in a forked child (pristine with respect to what the child does)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as exc:
                res = ("error", f"{type(exc).__name__}: {exc}"[:300])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def observe(mo):
    s = sg.signature(mo.concrete_model)
    s["regions of object"] = repr(list(mo.regions))
    return s


def scramble(x):
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = "scrambled"
        x["extra"] = 1
        for k in list(x)[:1]:
            del x[k]
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("scrambled")
        x.reverse()


def run_job(spec, out):
    if spec["mode"] == "loads":
        return loads(out)
    with impl.scratch_dir() as folder:
        prepare(folder)
        fresh = {}

        def reference(d):
            key = repr(d)
            if key not in fresh:
                text = pickle.dumps(d)
                fresh[key] = in_fork(lambda: (lambda mo: (observe(mo), mo.params))(impl.build(pickle.loads(text))))
                if fresh[key][0] != "ok":
                    out.violation("fresh build fails", fresh[key][1])
            return fresh[key]

        seqs = [(spec["first"],) + rest for rest in itertools.product(OPS, repeat=spec["depth"] - 1)]
        # references first, in forks of a process that has built nothing
        for seq in seqs:
            d = initial(spec["kind"])
            reference(d)
            for op in seq:
                apply(op, d, folder)
                reference(d)
        for seq in seqs:
            d = initial(spec["kind"])
            models = []
            for op in (None,) + seq:
                if op == "invalid":
                    old = d["time"]["dt"]
                    d["time"]["dt"] = 99
                    d["oops"] = {}
                    snap = copy.deepcopy(d)
                    out.transitions += 1
                    try:
                        impl.build(d)
                        out.violation("accepted", f"invalid settings accepted in history {seq}")
                    except Exception:
                        out.tag("failed builds")
                    if cf.diff(d, snap):
                        out.violation("dictionary changed", f"failed construction changed the caller's dictionary: {cf.diff(d, snap)}", history=seq)
                    d["time"]["dt"] = old
                    del d["oops"]
                elif op is not None:
                    apply(op, d, folder)
                out.transitions += 1
                snap = copy.deepcopy(d)
                mo = impl.build(d)
                ch = cf.diff(d, snap)
                if ch:
                    out.violation("dictionary changed", f"construction changed the caller's dictionary at {ch[0]}: {ch[1]}", history=seq, kind=spec["kind"])
                    d = snap
                got = observe(mo)
                ref = reference(snap)
                if ref[0] == "ok":
                    df = sg.difference(got, ref[1][0]) or cf.diff(mo.params, ref[1][1])
                    if df:
                        out.violation("caller's dictionary shared", f"model built from a reused dictionary differs from a fresh one: {df}"[:400],
                                      history=seq, kind=spec["kind"])
                    else:
                        out.tag("builds equal to fresh")
                        out.validated += 1
                models.append((mo, got, copy.deepcopy(mo.params)))
                out.states += 1
            scramble(d)
            out.tag("scrambled")
            for i, (mo, got, par) in enumerate(models):
                df = cf.diff(mo.params, par) or sg.difference(observe(mo), got)
                if df:
                    out.violation("caller's dictionary shared", f"model {i} changed when the caller's dictionary was changed afterwards: {df}"[:400],
                                  history=seq, kind=spec["kind"])
            out.cases += 1
            out.tag("histories")
        out.sample(kind=spec["kind"], history=seqs[-1], settings_states=len(fresh))


def loads(out):
    D = cf.defaults()
    with impl.scratch_dir() as folder:
        f = os.path.join(folder, "c.yaml")
        with open(f, "w") as fh:
            fh.write("SSP: SSP3\nregions:\n  CAN:\n  BRA: {MAC: {kappa: 2}}\n")
        F = copy.deepcopy(D)
        F["SSP"] = "SSP3"
        F["regions"] = {"CAN": {}, "BRA": {"MAC": {"kappa": 2}}}
        for seq in itertools.product("dfs", repeat=5):
            live = []
            for op in seq:
                out.transitions += 1
                if op == "s":
                    if live:
                        scramble(live.pop()[0])
                    continue
                with impl.quiet():
                    p = impl.load_params() if op == "d" else impl.load_params(f)
                want = D if op == "d" else F
                df = cf.diff(p, want)
                if df:
                    out.violation("loads not independent", f"a later load differs from the documented defaults: {df}", history=seq)
                live.append((p, want))
                for q, w in live:
                    df = cf.diff(q, w)
                    if df:
                        out.violation("loads not independent", f"an earlier load was changed: {df}", history=seq)
                out.states += 1
            out.cases += 1
            out.tag("independent loads")
