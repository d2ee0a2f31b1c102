"""Development tool: create and validate planted bugs.

  mkseed.py <id> ...    ids defined in tools/seed_specs.py; writes seeded/<id>/
Validates in a scratch copy of /repo: patch applies, stable tests pass, demo
passes without and fails with the change.  With --check also runs the property's
check against the changed copy (MC_REPO).
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = importlib.util.spec_from_file_location("seed_specs", os.path.join(V, "tools", "seed_specs.py"))
S = importlib.util.module_from_spec(spec)
spec.loader.exec_module(S)


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(S.SEEDS)
    for sid in ids:
        s = S.SEEDS[sid]
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory(prefix="mkseed_") as tmp:
            w = os.path.join(tmp, "repo")
            sh(f"git -C /repo worktree prune; git clone -q /repo {w}", "/")
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                txt = open(p).read()
                assert txt.count(old) == 1, (sid, f, txt.count(old), old)
                open(p, "w").write(txt.replace(old, new))
            rc, diff = sh("git diff", w)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            with open(os.path.join(d, "demo.py"), "w") as fh:
                fh.write(S.PRELUDE + s["demo"].lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as fh:
                fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            if s.get("engine", True):
                e = os.path.join(d, "engine")
                os.makedirs(e, exist_ok=True)
                for n in ("__init__.py", "impl.py", "compilem.py", "forward.py"):
                    shutil.copy(os.path.join(V, "mc", n), e)
                    t = open(os.path.join(e, n)).read().replace("from mc import", "from engine import").replace("from mc.", "from engine.")
                    open(os.path.join(e, n), "w").write(t)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            clean = os.path.join(tmp, "clean")
            sh(f"git clone -q /repo {clean}", "/")
            res = {}
            res["demo_clean"] = sh(["bash", os.path.join(d, "demo.sh")], clean, {"MC_REPO": clean})
            res["demo_bug"] = sh(["bash", os.path.join(d, "demo.sh")], w, {"MC_REPO": w})
            res["tests"] = sh(f"{PY} -m pytest tests/unittests -q -p no:cacheprovider -x --timeout=300 2>&1 | tail -3", w)
            res["imports"] = sh(f"{PY} -c 'import mimosa; print(mimosa.__file__)'", w)
            ok = res["demo_clean"][0] == 0 and res["demo_bug"][0] != 0 and "38 passed" in res["tests"][1] and w in res["imports"][1]
            line = f"{sid} {s['property']} {'OK' if ok else 'BAD'}"
            if not ok:
                line += "\n" + "".join(f"   {k} {a} {b[-350:]}" for k, (a, b) in res.items() if k[:4] == "demo" or a)
            if "--check" in sys.argv:
                rc, o = sh([PY, "-m", "mc.run", s["property"]], V, {"MC_REPO": w, "MC_EVIDENCE": tmp})
                v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
                line += f"  caught={rc == 1 and bool(v)} {v[0][:230] if v else o[-300:]}"
                res_f = os.path.join(V, "tools", "seed_results.json")
                known = json.load(open(res_f)) if os.path.exists(res_f) else {}
                hit = rc == 1 and bool(v)
                known[sid] = ("yes" if known.get(sid, "yes") == "yes" else "yes, first missed") if hit else "first missed"
                json.dump(known, open(res_f, "w"), indent=1, sort_keys=True)
            print(line, flush=True)


main()
