"""C22: a failed solve is always reported and a successful one always loaded."""
import itertools
import json
import os

import pyomo.environ as pyo
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition

from mc import explore as ex, impl, solverstub

PROPERTY = "C22"
BOUNDS = {
    "quick": "17 outcomes (13 of the local solver process, 4 of the remote service): all sequences of 2 on a fresh model and all windows of 3 inside long "
             "histories on one model; all pairs of 12 option sets (twice local, and mixed with remote); all sequences of 3 solves over two models x "
             "{success, reported failure, crash}",
    "thorough": "as quick with all windows of 4 outcomes and all triples of option sets",
}
ASSUMPTIONS = ["the solver process is replaced by a scripted executable that speaks the AMPL interface, the remote service by a stand-in of pyomo's "
               "solver manager; everything in between is the shipped code",
               "an answer with a success code (0-99) is a successful solve, whatever numbers it carries"]
REQUIRED_TAGS = ["success loaded", "failure reported", "crash reported", "status warning", "status cleared", "options exact", "remote used", "local used",
                 "window histories", "two models", "output file"]
L = lambda **k: dict(where="local", **k)
N = lambda **k: dict(where="neos", **k)
OUTCOMES = {
    "optimal": L(do="ok", code=0), "acceptable": L(do="ok", code=1), "imprecise": L(do="ok", code=100), "infeasible": L(do="ok", code=200),
    "infeasible?": L(do="ok", code=299), "unbounded": L(do="ok", code=300), "limit": L(do="ok", code=400), "time limit": L(do="ok", code=401),
    "failure": L(do="ok", code=500), "nonzero exit": L(do="ok", code=0, exit=3), "crash": L(do="crash", exit=1),
    "nothing": L(do="nothing"), "garbled": L(do="garbled"),
    "neos optimal": N(status="ok"), "neos warning": N(status="warning"), "neos error": N(status="error"), "neos crash": N(status=None),
}
GOOD = {"optimal", "acceptable", "neos optimal"}
WARN = {"imprecise", "infeasible", "infeasible?", "unbounded", "limit", "time limit", "neos warning"}
OPTS = [dict(), dict(ipopt_maxiter=7), dict(ipopt_maxiter=2500), dict(ipopt_output_file="out a.txt"), dict(halt_on_ampl_error="yes"),
        dict(halt_on_ampl_error="yes", ipopt_maxiter=0), dict(ipopt_maxiter=1, ipopt_output_file="b.txt"), dict(verbose=True),
        dict(verbose=False, ipopt_maxiter=12), dict(halt_on_ampl_error="no"), dict(halt_on_ampl_error="yes", ipopt_maxiter=3, ipopt_output_file="c.txt"),
        dict(ipopt_output_file="out a.txt", ipopt_maxiter=99)]
CONF = [ex.spec(["USA", "INDIA"], (2020, 2040, 10), [(("economics", "GDP", "savings rate"), 0)]), ex.spec(["BRA"], (2020, 2035, 5))]


def de_bruijn(k, n):
    """Cyclic sequence over range(k) containing every window of n once."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq


def jobs(tier):
    J = []
    names = list(OUTCOMES)
    deep = tier == "thorough"
    for a in names:
        J.append({"mode": "fresh", "first": a, "cost": 6})
    seq = de_bruijn(len(names), 4 if deep else 3)
    w = 4 if deep else 3
    seq = seq + seq[:w - 1]
    n = 200 if deep else 40
    step = -(-len(seq) // n)
    for k in range(0, len(seq), step):
        J.append({"mode": "window", "seq": [names[i] for i in seq[k:k + step + w - 1]], "conf": (k // step) % 2, "cost": 15})
    for a in range(len(OPTS)):
        J.append({"mode": "options", "first": a, "depth": 3 if deep else 2, "cost": 30 if deep else 6})
    kinds = ["optimal", "infeasible", "crash"]
    for first in itertools.product((0, 1), kinds):
        J.append({"mode": "two", "first": list(first), "cost": 20})
    return J


class Neos:
    """Stand-in of the remote solver manager."""

    def __init__(self, box):
        self.box = box

    def solve(self, model, *args, **kwds):
        act = self.box["plan"].pop(0)
        self.box["calls"].append({"email": os.environ.get("NEOS_EMAIL"), "opt": kwds.get("opt")})
        if act["status"] is None:
            raise RuntimeError("stand-in: connection lost")
        res = SolverResults()
        res.solver.status = {"ok": SolverStatus.ok, "warning": SolverStatus.warning, "error": SolverStatus.error}[act["status"]]
        res.solver.termination_condition = TerminationCondition.optimal if act["status"] == "ok" else TerminationCondition.infeasible
        for v in model.component_data_objects(pyo.Var, descend_into=True):
            if not v.fixed:
                v.set_value(sentinel(v.name, act["per_name"]), skip_validation=True)
                v.stale = False
        return res


def sentinel(name, k):
    return sum(ord(c) * (i + 3) for i, c in enumerate(name)) % 9973 / 9973.0 + k


class Session:
    def __init__(self, s, out):
        self.s, self.out, self.k = s, out, 0
        self.box = {"plan": [], "calls": []}
        fac = type(pyo.SolverManagerFactory)
        self.orig = fac.__call__

        def call(factory, name=None, *a, **kw):
            if name == "neos":
                return Neos(self.box)
            return self.orig(factory, name, *a, **kw)

        fac.__call__ = call

    def close(self):
        type(pyo.SolverManagerFactory).__call__ = self.orig

    def model(self, k):
        return ex.build(CONF[k], raw=False)[1]

    def solve(self, mo, outcome, opts, history):
        """One solve call; judges everything about it."""
        out = self.out
        self.k += 1
        act = dict(OUTCOMES[outcome], per_name=self.k)
        kw = dict(opts)
        want_file = kw.get("ipopt_output_file")
        if want_file:
            kw["ipopt_output_file"] = os.path.join(self.s.dir, want_file)
        if act["where"] == "neos":
            kw = {k: v for k, v in kw.items() if k == "verbose"}
            kw.update(use_neos=True, neos_email=f"a{self.k}@b.org")
            self.box["plan"] = [act]
            self.s.plan([])
        else:
            self.box["plan"] = []
            self.s.plan([act])
        self.box["calls"] = []
        exc = None
        try:
            with impl.quiet(), impl.in_dir(self.s.dir):
                mo.solve(**kw)
        except Exception as e:
            exc = e
        out.states += 1
        out.transitions += 1
        local, remote = self.s.calls(), self.box["calls"]
        h = dict(history=list(history), outcome=outcome, options=opts)

        def bad(key, text):
            out.violation(key, f"{text} (call {len(history)}: {outcome} after {history[:-1][-3:]})"[:400], **h)

        if act["where"] == "neos":
            if local:
                bad("wrong solver", "the local solver ran although the remote one was requested")
            if len(remote) != 1:
                bad("wrong solver", f"{len(remote)} remote solves for one request")
            elif remote[0]["email"] != kw["neos_email"]:
                bad("options", f"remote e-mail {remote[0]['email']}")
            else:
                out.tag("remote used")
        else:
            if remote:
                bad("wrong solver", "the remote solver was used without being requested")
            if len(local) != 1:
                bad("wrong solver", f"{len(local)} solver runs for one solve call")
            else:
                out.tag("local used")
                given = dict(a.split("=", 1) for a in local[0]["argv"] if "=" in a)
                want = {"halt_on_ampl_error": kw.get("halt_on_ampl_error", "no")}
                if kw.get("ipopt_maxiter") is not None:
                    want["max_iter"] = str(kw["ipopt_maxiter"])
                if want_file:
                    want["output_file"] = kw["ipopt_output_file"]
                have = {k: v for k, v in given.items() if k in ("halt_on_ampl_error", "max_iter", "output_file")}
                if have != want:
                    bad("options", f"solver options {have}, requested {want}")
                else:
                    out.tag("options exact")
                    if want_file and os.path.exists(kw["ipopt_output_file"]):
                        out.tag("output file")
                        os.remove(kw["ipopt_output_file"])
        st = mo.status
        if outcome in GOOD:
            if exc is not None:
                bad("success reported as failure", f"{type(exc).__name__}: {exc}")
                return
            if st != SolverStatus.ok:
                bad("status", f"status {st} after a successful solve")
            self.loaded(mo, local[0]["names"] if local else None, bad)
        else:
            if exc is None:
                bad("failure not reported", "no error is raised")
            elif not isinstance(exc, Exception):
                bad("failure not reported", repr(exc))
            if outcome in WARN:
                if st != SolverStatus.warning:
                    bad("status", f"status {st}, the solver reported a warning")
                else:
                    out.tag("status warning")
                out.tag("failure reported")
            elif outcome == "neos error":
                if st != SolverStatus.error:
                    bad("status", f"status {st}, the solver reported an error")
                out.tag("failure reported")
            else:
                if st not in (None, SolverStatus.error, SolverStatus.warning, SolverStatus.aborted, SolverStatus.unknown):
                    bad("status", f"status {st} although the attempt crashed")
                elif st is None:
                    out.tag("status cleared")
                out.tag("crash reported")

    def loaded(self, mo, names, bad):
        m = mo.concrete_model
        info = getattr(m, "_var_aggregator_info", None)
        member = {}
        if info is not None:
            for z in info.z.values():
                for v in info.z_to_vars[z]:
                    member[v.name] = z
        n = 0
        for v in m.component_data_objects(pyo.Var, descend_into=True):
            if v.fixed:
                continue
            src = member.get(v.name)
            if src is not None:
                want = src.value if src.fixed else sentinel(src.name, self.k)
            else:
                if names is not None and v.name not in names:
                    continue
                want = sentinel(v.name, self.k)
            n += 1
            if v.value is None or abs(v.value - want) > 1e-12 * max(1.0, abs(want)):
                bad("solution not loaded", f"{v.name} reads {v.value}, the solver answered {want}")
                return
        if n < 10:
            bad("solution not loaded", f"only {n} variables reached the solver")
            return
        self.out.tag("success loaded")
        self.out.validated += 1


def run_job(job, out):
    with solverstub.Local() as s:
        se = Session(s, out)
        try:
            go(job, out, se)
        finally:
            se.close()


def go(job, out, se):
    if job["mode"] == "fresh":
        mo = se.model(0)
        if mo.status is not None:
            out.violation("status", f"status {mo.status} before the first solve")
        for b in OUTCOMES:
            mo = se.model(0)
            se.solve(mo, job["first"], {}, [job["first"]])
            se.solve(mo, b, OPTS[len(b) % len(OPTS)], [job["first"], b])
            out.cases += 1
    elif job["mode"] == "window":
        mo = se.model(job["conf"])
        for k, o in enumerate(job["seq"]):
            se.solve(mo, o, OPTS[(k * 5 + len(o)) % len(OPTS)], job["seq"][:k + 1])
            out.cases += 1
        out.tag("window histories", len(job["seq"]))
        out.sample(history=job["seq"][:6], length=len(job["seq"]))
    elif job["mode"] == "options":
        for rest in itertools.product(range(len(OPTS)), repeat=job["depth"] - 1):
            mo = se.model(1)
            h = []
            for k, o in enumerate((job["first"],) + rest):
                what = ("optimal", "infeasible", "neos optimal")[(o + k) % 3] if k < job["depth"] - 1 else "optimal"
                h.append(what)
                se.solve(mo, what, OPTS[o], h)
            out.cases += 1
    else:
        kinds = ["optimal", "infeasible", "crash"]
        for rest in itertools.product(itertools.product((0, 1), kinds), repeat=2):
            ms = [se.model(0), se.model(1)]
            want = [None, None]
            h = []
            for which, o in [tuple(job["first"])] + list(rest):
                h.append(f"{which}:{o}")
                other = ms[1 - which]
                before = (other.status, [v.value for v in other.concrete_model.component_data_objects(pyo.Var)])
                se.solve(ms[which], o, {}, h[:-1] + [o])
                after = (other.status, [v.value for v in other.concrete_model.component_data_objects(pyo.Var)])
                if before != after:
                    out.violation("other model changed", f"solving one model changed another one after {h}", history=h)
            out.cases += 1
            out.tag("two models")
