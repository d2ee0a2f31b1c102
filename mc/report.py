"""Runner: parallel jobs -> verdict, evidence file, KNOWN-FINDING / VIOLATION lines."""
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)["findings"]


FAST = bool(os.environ.get("MC_FAILFAST"))  # development only (tools/mutate.py): stop at the first violation


class _Enough(BaseException):
    pass


class Out:
    """What one job observed."""

    def __init__(self, spec=None):
        self.spec = spec
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.cases = 0
        self.violations = []       # dicts: key, text, detail
        self.samples = []
        self.tags = {}             # counters of outcomes (vacuity control)

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + int(n)

    def violation(self, key, text, **detail):
        if len(self.violations) < 25:
            self.violations.append({"key": key, "text": text, "detail": _plain(detail), "spec": _plain(self.spec)})
            if FAST and not any(k["key"] == key for k in load_known() if k["status"] == "known"):
                raise _Enough
        else:
            self.tag("violations_not_listed")

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(_plain(kw))


def _plain(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v) for v in x]
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else str(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return _plain(x.tolist())
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)


_CHECK = None
JOB_LIMIT = int(os.environ.get("MC_JOB_LIMIT", "600"))


def _run_one(spec):
    out = Out(spec)
    t0 = time.time()
    def late(signum, frame):
        raise TimeoutError(f"no answer within {JOB_LIMIT} s")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT)
    try:
        _CHECK.run_job(spec, out)
    except _Enough:
        pass
    except Exception as exc:  # the implementation (or its model) cannot be exercised
        tb = traceback.format_exc().strip().splitlines()
        try:
            out.violation("exception:" + type(exc).__name__,
                          f"unexpected {type(exc).__name__}: {exc}"[:400], traceback=tb[-8:])
        except _Enough:
            pass
    finally:
        signal.alarm(0)
    out.wall = time.time() - t0
    return out


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _first(check, specs, nproc):
    known = [k["key"] for k in load_known() if k["status"] == "known"]
    specs = sorted(specs, key=lambda s: zlib.crc32(json.dumps(_plain(s), sort_keys=True).encode()))
    with mp.get_context("fork").Pool(nproc, initializer=_init, maxtasksperchild=1 if getattr(check, "FRESH", False) else None) as pool:
        tags = set()
        for o in pool.imap_unordered(_run_one, specs, chunksize=1):
            tags |= set(o.tags)
            real = [v for v in o.violations if v["key"] not in known]
            if real:
                print(f"VIOLATION property={check.PROPERTY} replay=- :: {real[0]['key']} :: {real[0]['text']}"[:300])
                sys.stdout.flush()
                pool.terminate()
                return 1
    missing = [t for t in getattr(check, "REQUIRED_TAGS", ()) if t not in tags]
    if missing:
        print(f"VIOLATION property={check.PROPERTY} replay=- :: vacuous:{missing[0]} ::")
        return 1
    return 0


def main(check, argv=None):
    """check: module with PROPERTY, TITLE, jobs(tier), run_job(spec, out),
    optional finish(outs, summary) and FRESH (one process per job)."""
    global _CHECK
    _CHECK = check
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    argv = sys.argv[1:] if argv is None else argv
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = check.PROPERTY
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fh:
            spec = json.load(fh)["spec"]
        specs = [spec]
    else:
        specs = list(check.jobs(tier))
    nproc = int(os.environ.get("MC_PROCS", str(min(8, os.cpu_count() or 1))))
    outs = []
    if FAST:
        return _first(check, specs, nproc)
    if nproc == 1 or len(specs) == 1 and not getattr(check, "FRESH", False):
        outs = [_run_one(s) for s in specs]
    else:
        ctx = mp.get_context("fork")
        # longest-first hint: jobs may carry "cost"
        order = sorted(range(len(specs)), key=lambda i: -float(specs[i].get("cost", 1)))
        res = [None] * len(specs)
        with ctx.Pool(nproc, initializer=_init,
                      maxtasksperchild=1 if getattr(check, "FRESH", False) else None) as pool:
            for i, o in zip(order, pool.imap(_run_one, [specs[i] for i in order], chunksize=1)):
                res[i] = o
        outs = res
    summary = {"states": sum(o.states for o in outs), "transitions": sum(o.transitions for o in outs),
               "traces_validated_against_impl": sum(o.validated for o in outs),
               "cases": sum(o.cases for o in outs)}
    tags = {}
    for o in outs:
        for k, v in o.tags.items():
            tags[k] = tags.get(k, 0) + v
    violations = [v for o in outs for v in o.violations]
    # vacuity: every outcome class the check relies on must have been exercised
    if "--replay" not in argv:
        for need in getattr(check, "REQUIRED_TAGS", ()):
            if not tags.get(need):
                violations.append({"key": "vacuous:" + need, "text": f"outcome class '{need}' was never reached",
                                   "detail": {}, "spec": None})
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    shown, real, hit = set(), [], set()
    for v in violations:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k is None:
            real.append(v)
        else:
            hit.add(k["key"])
            if k["key"] not in shown:
                shown.add(k["key"])
                print(f"KNOWN-FINDING: property={pid} {k['text']}")
    samples = [s for o in outs for s in o.samples]
    if len(samples) > 6:
        step = max(1, len(samples) // 6)
        samples = samples[::step][:6]
    coverage = dict(summary)
    coverage["jobs"] = len(specs)
    coverage["outcome_counts"] = tags
    coverage["bounds"] = getattr(check, "BOUNDS", {}).get(tier, getattr(check, "BOUNDS", {}).get("quick", ""))
    coverage["exhaustive"] = True
    coverage["samples"] = samples or [{"note": "no sample"}]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": coverage,
          "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    if "--replay" not in argv:
        edir = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f"{pid}.json"), "w") as fh:
            json.dump(_plain(ev), fh, indent=1)
    slow = max((o.wall for o in outs), default=0)
    print(f"{pid} tier={tier} jobs={len(specs)} states={summary['states']} transitions={summary['transitions']} "
          f"validated={summary['traces_validated_against_impl']} cases={summary['cases']} "
          f"wall={time.time() - t0:.1f}s slowest_job={slow:.1f}s tags={json.dumps(tags, sort_keys=True)[:600]}")
    if os.environ.get("MC_PROFILE"):
        for o in sorted(outs, key=lambda o: -o.wall)[:8]:
            print(f"  {o.wall:.1f}s {json.dumps(_plain(o.spec))[:200]}")
    if real:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, v in enumerate(real):
            if v["key"] in seen and len(seen) > 0:
                continue
            seen.add(v["key"])
            if len(seen) > 8:
                break
            path = os.path.join(rdir, f"{pid}-{len(seen)}.json")
            with open(path, "w") as fh:
                json.dump(_plain({"property": pid, **v,
                                  "how": f"/opt/venv/bin/python -m mc.run {pid} --replay {path}"}), fh, indent=1)
            print(f"VIOLATION property={pid} replay={path} :: {v['key']} :: {v['text']}"[:700])
        print(f"{len(real)} violation(s)")
        sys.stdout.flush()
        return 1
    return 0
