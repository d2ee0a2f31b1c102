"""C28: the log tells the outcome of every solve."""
import itertools
import logging
import logging.handlers
import os
import re

import pyomo.environ as pyo

from mc import explore as ex, impl, solverstub
from mc.checks import c22

PROPERTY = "C28"
BOUNDS = {
    "quick": "17 outcomes (13 of the local solver process, 4 of the remote service) x silent/verbose: all sequences of 2 on a fresh model, all windows of 2 "
             "inside long histories on one model (4 configurations: both objectives, short, long and fractional grids); all sequences of 3 solves over two models x {success, reported failure, crash}; "
             "the log file of the documentation compared record by record after every solve",
    "thorough": "as quick with all windows of 3 outcomes",
}
ASSUMPTIONS = ["the solver process is replaced by a scripted executable that speaks the AMPL interface, the remote service by a stand-in of pyomo's "
               "solver manager; everything in between is the shipped code",
               "the wording of a record is taken from the documented examples (Status, Final NPV, Model solve took); the logged value is compared to 5 digits"]
REQUIRED_TAGS = ["status logged", "value logged", "time logged", "failure logged", "no value after failure", "crash without value", "two models"]
CONF = [ex.spec(["BRA"], (2020, 2035, 5)), ex.spec(["USA", "INDIA"], (2020, 2040, 10), [(("model", "objective module"), "globalcosts"),
                                                                                     (("model", "welfare module"), "cost_minimising")]),
        ex.spec(["WEU"], (2020, 2200, 20)), ex.spec(["CHN", "OCE"], (2025, 2035, 2.5), [(("model", "welfare module"), "inequal_aversion_general")])]
REC = re.compile(r"\[(?P<level>\w+), (?P<time>[0-9-:, ]+)\] (?P<name>\S+) - (?P<text>.*)")


class Log:
    """The handler of the documented logging example, on a scratch file."""

    def __init__(self, path):
        self.path, self.pos = path, 0
        self.handler = logging.handlers.WatchedFileHandler(path)
        self.handler.setFormatter(logging.Formatter("[%(levelname)s, %(asctime)s] %(name)s - %(message)s"))
        self.root = logging.getLogger()
        self.level = self.root.level
        self.disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.root.setLevel("INFO")
        self.root.addHandler(self.handler)
        logging.getLogger("MIMOSA").propagate = impl.LOG_PROPAGATES

    def close(self):
        self.root.removeHandler(self.handler)
        self.root.setLevel(self.level)
        logging.getLogger("MIMOSA").propagate = False
        logging.disable(self.disabled)
        self.handler.close()

    def new(self):
        """Records written since the last call: (level, logger, text)."""
        self.handler.flush()
        with open(self.path) as fh:
            fh.seek(self.pos)
            text = fh.read()
            self.pos = fh.tell()
        recs = []
        for line in text.splitlines():
            x = REC.match(line)
            if x:
                recs.append((x["level"], x["name"], x["text"]))
            elif recs:
                recs[-1] = recs[-1][:2] + (recs[-1][2] + "\n" + line,)
        return recs


class Session(c22.Session):
    def __init__(self, s, out):
        super().__init__(s, out)
        self.log = Log(os.path.join(s.dir, "mainlog.log"))

    def close(self):
        self.log.close()
        super().close()

    def model(self, k):
        mo = ex.build(CONF[k], raw=False)[1]
        self.log.new()
        return mo

    def solve(self, mo, outcome, verbose, history):
        out = self.out
        self.k += 1
        act = dict(c22.OUTCOMES[outcome], per_name=self.k)
        kw = {"verbose": verbose}
        self.box["plan"] = [act] if act["where"] == "neos" else []
        self.s.plan([] if act["where"] == "neos" else [act])
        if act["where"] == "neos":
            kw.update(use_neos=True, neos_email="a@b.org")
        self.box["calls"] = []
        self.log.new()
        exc = None
        try:
            with impl.quiet(), impl.in_dir(self.s.dir):
                mo.solve(**kw)
        except Exception as e:
            exc = e
        recs = self.log.new()
        mine = [r for r in recs if r[1] == "MIMOSA"]
        out.states += 1
        out.transitions += 1

        def bad(key, text):
            out.violation(key, f"{text} (call {len(history)}: {outcome} after {list(history[:-1])[-3:]}; log {mine})"[:500],
                          history=list(history), outcome=outcome, verbose=verbose)

        status = [t.split(":", 1)[1].strip() for _, _, t in mine if t.startswith("Status:")]
        npv = [t.split(":", 1)[1].strip() for _, _, t in mine if t.startswith("Final NPV:")]
        took = [t for _, _, t in mine if t.startswith("Model solve took")]
        errors = [t for level, _, t in mine if level in ("ERROR", "CRITICAL", "WARNING")]
        if outcome in c22.GOOD:
            if exc is not None:
                bad("success reported as failure", f"{type(exc).__name__}: {exc}")
                return
            if status != ["ok"]:
                bad("status record", f"a successful solve logs the status {status}")
            else:
                out.tag("status logged")
            m = mo.concrete_model
            last = m.t.last()
            try:
                got = float(npv[0]) if len(npv) == 1 else None
            except ValueError:
                got = None
            want = pyo.value(m.NPV[last])
            if got is None or abs(got - want) > 1e-5 * max(1.0, abs(want)):
                bad("value record", f"the log shows the final value {npv}, the model reads {want}")
            else:
                out.tag("value logged")
                out.validated += 1
            if len(took) != 1 or not re.search(r"took [0-9.e+-]+ seconds", took[0]):
                bad("time record", f"the log shows the solve time {took}")
            else:
                out.tag("time logged")
            if errors:
                bad("error record", f"a successful solve logs errors {errors}")
        else:
            if npv:
                bad("value record", f"a failed solve logs a final value {npv}")
            else:
                out.tag("no value after failure")
            if "ok" in status:
                bad("status record", "a failed solve logs the status ok")
            if outcome in c22.WARN:
                if status != ["warning"]:
                    bad("status record", f"the solver answered with a warning, the log shows the status {status}")
                if not any("warning" in e for e in errors):
                    bad("error record", f"a solve that ends with a warning logs no error: {errors}")
                else:
                    out.tag("failure logged")
            elif outcome == "neos error":
                if status != ["error"]:
                    bad("status record", f"the solver answered with an error, the log shows the status {status}")
            else:
                out.tag("crash without value")


def jobs(tier):
    names = list(c22.OUTCOMES)
    J = [{"mode": "fresh", "first": a, "cost": 6} for a in names]
    w = 3 if tier == "thorough" else 2
    seq = c22.de_bruijn(len(names), w)
    seq = seq + seq[:w - 1]
    step = -(-len(seq) // (100 if w == 3 else 16))
    for k in range(0, len(seq), step):
        J.append({"mode": "window", "seq": [names[i] for i in seq[k:k + step + w - 1]], "conf": (k // step) % len(CONF), "cost": 10})
    for first in itertools.product((0, 1), ("optimal", "infeasible", "crash")):
        J.append({"mode": "two", "first": list(first), "cost": 10})
    return J


def run_job(job, out):
    with solverstub.Local() as s:
        se = Session(s, out)
        try:
            go(job, out, se)
        finally:
            se.close()


def go(job, out, se):
    if job["mode"] == "fresh":
        for k, b in enumerate(c22.OUTCOMES):
            mo = se.model(k % len(CONF))
            se.solve(mo, job["first"], bool(k & 4), [job["first"]])
            se.solve(mo, b, bool(k & 1), [job["first"], b])
            out.cases += 1
    elif job["mode"] == "window":
        mo = se.model(job["conf"])
        for k, o in enumerate(job["seq"]):
            se.solve(mo, o, bool(k % 3 == 0), job["seq"][:k + 1])
            out.cases += 1
        out.sample(history=job["seq"][:6], length=len(job["seq"]))
    else:
        for rest in itertools.product(itertools.product((0, 1), ("optimal", "infeasible", "crash")), repeat=2):
            ms = [se.model(0), se.model(1)]
            h = []
            for which, o in [tuple(job["first"])] + list(rest):
                h.append(f"{which}:{o}")
                se.solve(ms[which], o, False, h[:-1] + [o])
            out.cases += 1
            out.tag("two models")
