"""C26: results belong to regions by name, not by position."""
import csv
import itertools
import os

import numpy as np

from mc import explore as ex, forward as fw, impl
from mc.checks import c24
from mc.compilem import Compiled
from mc.signature import close, difference, signature

PROPERTY = "C26"
BOUNDS = {
    "quick": "full product of modules (with the flag rows rotating through the product): all 6 orders of 3 regions, all policies of 2 levels in 3 periods with "
             "trade/transfer actions; reversal, rotations and interleaving of all 26 regions; every single region moved to the front and to the end; rows reversed, rotated "
             "and sorted and columns rotated in each of 6 supplied tables; manual values for every subset of 3 regions in every category and order",
    "thorough": "as quick with all 8 flag rows, all 24 orders of 4 regions, and 3 levels",
}
ASSUMPTIONS = ["equality up to 1e-7 of each quantity's size (the order of sums differs)", "year columns of the data file stay in year order"]
REQUIRED_TAGS = ["orders compared", "paths compared", "26 regions", "tables permuted", "manual values", "unaffected inputs", "admitted", "rejected"]
M = c24.M
REG3, REG4 = ["USA", "INDIA", "BRA"], ["USA", "INDIA", "BRA", "WEU"]
GRID = (2020, 2080, 20)
CTRL = ["import_export_mitigation_cost_balance", "financial_transfer"]


def combos():
    out = []
    for vals in itertools.product(*[v for _, v in c24.MODULES]):
        sel = [(p, v) for (p, _), v in zip(c24.MODULES, vals)]
        if c24.valid(sel):
            out.append(sel)
    return out


def jobs(tier):
    deep = tier == "thorough"
    C = combos()
    n = 33
    J = [{"mode": "orders", "part": [k, n], "rows": 8 if deep else 1, "regions": REG4 if deep else REG3, "deep": deep, "cost": 20} for k in range(n)]
    J += [{"mode": "all26", "sel": s, "part": [k, 4], "cost": 100} for s in range(4) for k in range(4)]
    J += [{"mode": "tables", "table": t, "cost": 15} for t in TABLES]
    J += [{"mode": "manual", "category": c, "cost": 15} for c in MANUAL]
    return J


# -- evaluating the same policy in differently listed models ---------------
def policies(regions, T, has, levels, full=True):
    """{control: {region: (T, B)}}, keyed by name."""
    joint = []
    for a in itertools.product(levels, repeat=len(regions)) if full else [[levels[(i + k) % len(levels)] for i in range(len(regions))] for k in range(len(levels))]:
        for b in ([0.0, 0.02] if has[CTRL[0]] else [0.0]):
            for c in ([0.0, 0.01] if has[CTRL[1]] else [0.0]):
                joint.append((a, b, c))
    first = [0] * (1 if T > 1 else 0)
    seqs = list(itertools.product(range(len(joint)), repeat=min(T - 1, 2))) if len(joint) <= 40 else [(i, (i * 7 + 3) % len(joint)) for i in range(len(joint))]
    B = len(seqs)
    out = {"relative_abatement": {r: np.zeros((T, B)) for r in regions}}
    for k in CTRL:
        if has[k]:
            out[k] = {r: np.zeros((T, B)) for r in regions}
    for b, s in enumerate(seqs):
        for t in range(1, T):
            a, x, y = joint[s[min(t - 1, len(s) - 1)]]
            for i, r in enumerate(regions):
                out["relative_abatement"][r][t, b] = a[i]
                # money moves between the first regions of the reference listing, by name
                for k, v in ((CTRL[0], x), (CTRL[1], y)):
                    if has[k]:
                        out[k][r][t, b] = v * (1 if i == 0 else -1 if i == 1 else 0)
    return out, B


def evaluate(C, pol, B, names):
    """names: fixed list of regions whose action is given (by name) for the balanced controls."""
    arrs = {}
    for k, by in pol.items():
        regs = names if k == "relative_abatement" else names[:-1]
        if regs:
            arrs[k] = (np.stack([by[r] for r in regs], axis=1), regs)
    if C.has_var("effort_sharing_common_level"):
        arrs["effort_sharing_common_level"] = np.broadcast_to((0.02 * (np.arange(len(C.t)) > 0))[:, None], (len(C.t), B)).copy()
    return fw.forward(C, arrs)


def has_of(C):
    import pyomo.environ as pyo
    return {k: C.has_var(k) for k in CTRL}


def compare(out, base, res, label, order):
    """Every quantity by name."""
    C, D = base.C, res.C
    if set(C.key2i) != set(D.key2i):
        k = sorted(set(C.key2i) ^ set(D.key2i), key=str)[0]
        out.violation("other quantities", f"{k} exists for one listing only ({label})", order=order)
        return
    perm = np.array([D.key2i[k] for k in C.keys])
    ok = base.ok & res.ok
    if (base.ok != res.ok).any():
        out.violation("evaluability", f"{int((base.ok != res.ok).sum())} paths can be evaluated for one listing only ({label})", order=order)
        return
    A, X = base.X[:, ok], res.X[perm][:, ok]
    und = {C.keys[v] for v in base.plan.undetermined} | {D.keys[v] for v in res.plan.undetermined}
    judge = np.array([k not in und for k in C.keys])
    scale = np.maximum(np.abs(A), np.abs(X))
    size = {}
    for i, k in enumerate(C.keys):
        size[k[0]] = max(size.get(k[0], 0.0), float(scale[i].max()) if scale.shape[1] else 0.0)
    tol = 1e-7 * scale + 1e-9 * np.array([max(1e-6, size[k[0]]) for k in C.keys])[:, None]
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(A - X) <= tol) & judge[:, None]
    if bad.any():
        i, b = np.argwhere(bad)[0]
        out.violation("region mixed up", f"{C.keys[i]} is {X[i, b]:.9g} when the regions are listed as {order[:5]}, otherwise {A[i, b]:.9g} ({label})"[:400], order=order)
        return
    if (np.abs(np.nan_to_num(C.lb - D.lb[perm])) > 1e-9).any() or (np.abs(np.nan_to_num(C.ub - D.ub[perm])) > 1e-9).any():
        out.violation("bounds", f"variable bounds depend on the listing ({label})", order=order)
        return
    va, wa = base.admissible()
    vb, wb = res.admissible()
    sure = ok & (np.abs(wa) > 1e-6) & (np.abs(wb) > 1e-6)
    sure |= ok & (wa >= -1e-9) & (wb >= -1e-9)
    if (va != vb)[sure].any():
        b = int(np.nonzero(sure & (va != vb))[0][0])
        out.violation("limits", f"a path is admissible for one listing only: {base.violated(b)[:2]} / {res.violated(b)[:2]} ({label})"[:400], order=order)
        return
    out.tag("admitted", va[ok].sum())
    out.tag("rejected", (~va[ok]).sum())
    if C.objs and D.objs:
        oa, ob = base.objective()[0][ok], res.objective()[0][ok]
        if not np.allclose(oa, ob, rtol=1e-7, atol=1e-9, equal_nan=True) or C.objs[0]["sense"] != D.objs[0]["sense"]:
            out.violation("objective", f"the objective depends on the listing ({label})", order=order)
            return
    out.tag("orders compared")
    out.tag("paths compared", ok.sum())
    out.validated += int(ok.sum())


def params_equal(out, m1, m2, label, order, only=None):
    d = difference(signature(m1, equations=False), signature(m2, equations=False), 1e-9)
    if d:
        out.violation("inputs", f"{d} when the regions are listed as {order[:5]} ({label})"[:400], order=order)
        return False
    return True


def run_job(job, out):
    globals()["do_" + job["mode"]](job, out)


def do_orders(job, out):
    k0, n = job["part"]
    C = combos()
    todo = []
    for row in range(job["rows"]):
        for i, sel in enumerate(C):
            extra = [(path, vals[b]) for (path, vals), b in zip(c24.FLAGS, c24.COVER[(row * 4 + i) % 8])]
            todo.append(sel + extra + ([] if row % 2 else [(("emissions", "inertia", "global"), -0.05)]))
    regs = job["regions"]
    levels = [0.0, 0.5, 1.1] if job["deep"] else [0.0, 0.6]
    for sel in todo[k0::n]:
        label = f"{[v for _, v in sel]}"
        m0 = ex.build(ex.spec(regs, GRID, sel))[2]
        C0 = Compiled(m0)
        pol, B = policies(regs, len(C0.t), has_of(C0), levels)
        base = evaluate(C0, pol, B, regs)
        for order in itertools.permutations(regs):
            if list(order) == regs:
                continue
            m1 = ex.build(ex.spec(order, GRID, sel))[2]
            out.states += B
            out.transitions += B * (len(C0.t) - 1)
            out.cases += 1
            if params_equal(out, m0, m1, label, list(order)):
                compare(out, base, evaluate(Compiled(m1), pol, B, regs), label, list(order))
    out.sample(config=label, orders=len(list(itertools.permutations(regs))))


def step(B):
    return max(1, B // 24) | 1              # odd: every joint action stays represented


def do_all26(job, out):
    k0, n = job["part"]
    R = list(c24.all_regions())
    orders = [R[::-1], R[1:] + R[:1], R[13:] + R[:13], R[::2] + R[1::2], sorted(R), sorted(R, key=lambda r: r[::-1])]
    orders += [[r] + [q for q in R if q != r] for r in R] + [[q for q in R if q != r] + [r] for r in R]
    sels = c24.BASES + [[(("effort sharing", "regime"), "equal_mitigation_costs"), (M("financialtransfer"), "globaldamagepool")]]
    for si, sel in [(job["sel"], sels[job["sel"]])]:
        m0 = ex.build(ex.spec(R, (2020, 2110, 45 / 3), sel))[2]
        C0 = Compiled(m0)
        pol, B = policies(R, len(C0.t), has_of(C0), [0.0, 0.3, 0.7, 1.2], full=False)
        pol, B = {k: {r: x[:, ::step(B)] for r, x in v.items()} for k, v in pol.items()}, len(range(0, B, step(B)))
        base = evaluate(C0, pol, B, R)
        for oi, order in [x for x in enumerate(orders) if x[0] < 6 or x[0] % len(sels) == si][k0::n]:
            m1 = ex.build(ex.spec(order, (2020, 2110, 45 / 3), sel))[2]
            out.states += B
            out.transitions += B * (len(C0.t) - 1)
            out.cases += 1
            out.tag("26 regions")
            if params_equal(out, m0, m1, f"26 regions, selection {si}", order):
                compare(out, base, evaluate(Compiled(m1), pol, B, R), f"26 regions, selection {si}", order)


# -- order of rows and columns in the supplied tables -----------------------
P = "regional_parameter_files"
TABLES = {"economics": ("inputdata/regionalparams/economics.csv", (P, "economics", "filename")), "MAC": ("inputdata/regionalparams/mac.csv", (P, "MAC", "filename")),
          "COACCH": ("inputdata/regionalparams/COACCH.csv", (P, "COACCH", "filename")), "mortality": ("inputdata/regionalparams/mortality.csv", (P, "mortality", "filename")),
          "mapping": ("inputdata/regions/IMAGE26_COACCH.csv", ("regionsmappings", 0, "conversiontable")),
          "data": ("inputdata/data/data_IMAGE_SSP_harmonised_2020.csv", None)}


def variants(head, rows, fixed):
    """Other listings of the same table; columns from `fixed` on keep their place."""
    yield "rows reversed", head, rows[::-1]
    yield "rows rotated", head, rows[len(rows) // 3:] + rows[:len(rows) // 3]
    yield "rows sorted", head, sorted(rows, key=lambda r: r[0][::-1] + r[1])
    for k in (1, fixed // 2 + 1, fixed - 1):
        if fixed > 1:
            perm = [(i + k) % fixed for i in range(fixed)] + list(range(fixed, len(head)))
            yield f"columns rotated by {k}", [head[i] for i in perm], [[r[i] for i in perm] for r in rows[::-1]]


def do_tables(job, out):
    rel, path = TABLES[job["table"]]
    with open(os.path.join(impl.PKG, rel), newline="", encoding="utf8") as fh:
        rows = list(csv.reader(fh))
    head, rows = rows[0], rows[1:]
    fixed = next((i for i, h in enumerate(head) if h[:2] in ("19", "20") and h.isdigit()), len(head))
    confs = [[], [(("economics", "damages", "coacch_combined_slr_nonslr_damages"), True), (("SSP",), "SSP1")]]
    with impl.scratch_dir() as d:
        for n, (what, h, rs) in enumerate(variants(head, rows, fixed)):
            name = os.path.join(d, f"t{n}.csv")
            with open(name, "w", newline="", encoding="utf8") as fh:
                csv.writer(fh).writerows([h] + rs)
            for regs, conf in itertools.product((REG3, c24.all_regions()), confs):
                def make(custom):
                    p = ex.params_of(ex.spec(regs, (2020, 2100, 20), conf))
                    if custom:
                        if job["table"] == "data":
                            for v in p["input"]["variables"].values():
                                if os.path.basename(v["file"]) == os.path.basename(rel):
                                    v["file"] = name
                        elif job["table"] == "mapping":
                            p["regionsmappings"][0]["conversiontable"] = name
                        else:
                            p[P][job["table"]]["filename"] = name
                    return impl.build(p).concrete_model
                a, b = make(False), make(True)
                out.states += 1
                out.cases += 1
                diff = difference(signature(a), signature(b), 1e-9)
                if diff:
                    out.violation("table order", f"{job['table']} table with {what}: {diff}"[:400], table=job["table"])
                else:
                    out.tag("tables permuted")
                    out.validated += 1


# -- manual values ------------------------------------------------------------
MORT = [f"{a}_{b}" for a in ("oldest", "older", "young") for b in "abc"]
MANUAL = {"economics": ["init_capital_factor"], "MAC": ["kappa_rel_abatement_0.75_2050"], "mortality": MORT,
          "COACCH": ["NoSLR_a (q=0.5)", "NoSLR_b1", "NoSLR_b2", "SLR-Ad_a (q=0.5)", "SLR-Ad_b1", "SLR-Ad_b2"],
          "COACCH form": ["NoSLR_form", "SLR-Ad_form"]}


def do_manual(job, out):
    cat = job["category"].split()[0]
    for name in MANUAL[job["category"]]:
        for regs in (REG3, REG3[::-1]):
            base = signature(ex.build(ex.spec(regs, (2020, 2040, 10), []))[2], equations=False)
            for k in (1, 2):
                for who in itertools.combinations(regs, k):
                    for n, val in enumerate(("Robust-Linear", "Robust-Logistic") if "form" in name else (0.777, 3) if job["category"] == "mortality" else (0.777, 2, 0)):
                        man = {r: ({cat: {name: val}} if r in who else {}) for r in regs}
                        for form in ("plain", "others none"):
                            if form == "others none":
                                man = {r: (v or {cat: {}}) for r, v in man.items()}
                            try:
                                m = ex.build(ex.spec([], (2020, 2040, 10), [(("regions",), man)]))[2]
                            except Exception as e:
                                out.violation("manual value", f"{cat} {name}={val} for {who}: {type(e).__name__} {e}"[:300])
                                continue
                            got = signature(m, equations=False)
                            out.states += 1
                            out.cases += 1
                            changed = {x for x in base if not close(base[x], got.get(x), 0.0)} | {x for x in got if x not in base}
                            wrong = [x for x in changed if not any(f"[{w}]" in x or f", '{w}')" in x or f",{w}]" in x for w in who)]
                            if wrong:
                                out.violation("manual value", f"{cat} {name}={val} for {who} changes {sorted(wrong)[:3]}", who=list(who))
                            if "form" not in name and not any(x.startswith("param") for x in changed):
                                out.violation("manual value", f"{cat} {name}={val} for {who} changes nothing", who=list(who))
                            out.tag("manual values")
                            out.tag("unaffected inputs", len(base) - len(changed))
                            out.validated += 1
