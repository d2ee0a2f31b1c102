"""Systematic small changes to /repo, to look for blind spots of the checks.

    tools/mutate.py list FILE...            number and print the changes of the files
    tools/mutate.py run OUT FILE:CHECKS...  try every change against the checks (fail fast), append results to OUT (jsonl)

Works on scratch copies under /tmp only.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SKIP = {"_is_none", "to_markdown", "to_string", "__repr__", "error"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def docstrings(tree):
    res = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            res.add(id(n.value))
    return res


def variants(node, docs):
    """(description, function that changes the node in place) for one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        new = CMP[type(node.ops[0])]
        yield f"{type(node.ops[0]).__name__}->{new.__name__}", lambda n: n.ops.__setitem__(0, new())
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        new = BIN[type(node.op)]
        yield f"{type(node.op).__name__}->{new.__name__}", lambda n: setattr(n, "op", new())
        yield "left operand only", lambda n: n.__dict__.update(op=ast.Add(), right=ast.Constant(0)) if not isinstance(n.op, (ast.Mult, ast.Div, ast.Pow)) \
            else n.__dict__.update(op=ast.Mult(), right=ast.Constant(1))
    if isinstance(node, ast.BoolOp):
        new = ast.Or if isinstance(node.op, ast.And) else ast.And
        yield f"{type(node.op).__name__}->{new.__name__}", lambda n: setattr(n, "op", new())
        for k in range(len(node.values)):
            yield f"drop operand {k}", lambda n, k=k: n.values.pop(k)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield f"drop {type(node.op).__name__}", lambda n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else setattr(n, "operand", ast.UnaryOp(
            op=ast.Not(), operand=n.operand))
    if isinstance(node, ast.Constant) and id(node) not in docs:
        v = node.value
        if v is True or v is False:
            yield f"{v}->{not v}", lambda n: setattr(n, "value", not v)
        elif isinstance(v, int):
            yield f"{v}->{v + 1}", lambda n: setattr(n, "value", v + 1)
            if v:
                yield f"{v}->{v - 1}", lambda n: setattr(n, "value", v - 1)
        elif isinstance(v, float):
            yield f"{v}->{v * 1.05 + (v == 0) * .01}", lambda n: setattr(n, "value", v * 1.05 + (v == 0) * .01)
    if isinstance(node, ast.IfExp):
        yield "swap branches", lambda n: n.__dict__.update(body=n.orelse, orelse=n.body)
        yield "always first branch", lambda n: setattr(n, "test", ast.Constant(True))
        yield "always second branch", lambda n: setattr(n, "test", ast.Constant(False))
    if isinstance(node, (ast.If, ast.While)):
        yield "condition negated", lambda n: setattr(n, "test", ast.UnaryOp(op=ast.Not(), operand=n.test))
        yield "condition true", lambda n: setattr(n, "test", ast.Constant(True))
        yield "condition false", lambda n: setattr(n, "test", ast.Constant(False))
    if isinstance(node, ast.List) and len(node.elts) > 1 and not isinstance(getattr(node, "ctx", None), ast.Store):
        for k in range(len(node.elts)):
            yield f"drop element {k}", lambda n, k=k: n.elts.pop(k)
    if isinstance(node, ast.Call):
        for k in range(len(node.keywords)):
            if node.keywords[k].arg and not (node.keywords[k].arg == "initialize" and getattr(node.func, "id", "") == "Var"):
                yield f"drop keyword {node.keywords[k].arg}", lambda n, k=k: n.keywords.pop(k)
        if len(node.args) == 2:
            yield "swap arguments", lambda n: n.args.reverse()
    if hasattr(node, "body") and isinstance(node.body, list):
        for k, s in enumerate(node.body):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.If, ast.For)) and not (
                    isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                if isinstance(s, ast.Return) and s.value is None:
                    continue
                yield f"drop statement '{ast.unparse(s)[:40]}'", lambda n, k=k: n.body.__setitem__(k, ast.Pass())


def mutants(path):
    with open(path) as fh:
        src = fh.read()
    base = ast.parse(src)
    plain = ast.unparse(base)
    count = 0
    nodes = []

    def walk(n, inside):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            inside = n.name
        if inside in SKIP:
            return
        nodes.append((n, inside))
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.keyword) and c.arg == "initialize" and getattr(n.func, "id", "") == "Var":
                continue  # the starting point of the solver
            walk(c, inside)

    walk(base, None)
    docs = docstrings(base)
    order = {id(n): k for k, n in enumerate(ast.walk(base))}
    for n, inside in nodes:
        for desc, _ in variants(n, docs):
            tree = copy.deepcopy(base)
            same = list(ast.walk(tree))[order[id(n)]]
            for d2, fn in variants(same, docstrings(tree)):
                if d2 == desc:
                    fn(same)
                    break
            ast.fix_missing_locations(tree)
            try:
                new = ast.unparse(tree)
                compile(new, path, "exec")
            except Exception:
                continue
            if new != plain:
                yield {"n": count, "line": getattr(n, "lineno", 0), "in": inside, "what": desc}, new
                count += 1


def attempt(rel, info, text, checks, procs):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for x in ("mimosa", "tests", "setup.py", "requirements.txt"):
            s = os.path.join(REPO, x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns("__pycache__"))
            elif os.path.exists(s):
                shutil.copy(s, d)
        with open(os.path.join(d, rel), "w") as fh:
            fh.write(text)
        env = dict(os.environ, MC_REPO=d, MC_FAILFAST="1", MC_PROCS=str(procs), MC_EVIDENCE=os.path.join(d, "ev"), PYTHONPATH=VERIF,
                   PYTHONDONTWRITEBYTECODE="1")
        t = subprocess.run([sys.executable, "-m", "pytest", "-q", "-x", "tests/unittests"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
        if t.returncode != 0:
            return dict(info, file=rel, caught="tests", how="")
        for c in checks:
            try:
                p = subprocess.run([sys.executable, "-m", "mc.run", c], cwd=d, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(info, file=rel, caught=c, how="timeout")
            if p.returncode != 0:
                line = next((x for x in p.stdout.splitlines() if x.startswith("VIOLATION")), (p.stderr or "")[-200:])
                return dict(info, file=rel, caught=c, how=line[:200])
        return dict(info, file=rel, caught=None, how="survived")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for info, _ in mutants(os.path.join(REPO, f)):
                print(f, info)
        return
    out = sys.argv[2]
    workers, procs = int(os.environ.get("MUT_WORKERS", "4")), int(os.environ.get("MUT_PROCS", "2"))
    done = set()
    if os.path.exists(out):
        with open(out) as fh:
            done = {(r["file"], r["n"]) for r in map(json.loads, fh)}
    work = []
    for a in sys.argv[3:]:
        f, checks = a.split(":")
        work += [(f, i, t, checks.split(",")) for i, t in mutants(os.path.join(REPO, f)) if (f, i["n"]) not in done
                 and not any(i["what"].startswith(x) for x in os.environ.get("MUT_SKIP", "").split(",") if x)]
    print(len(work), "changes")
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as fh:
        for r in (f.result() for f in as_completed([ex.submit(attempt, *w, procs) for w in work])):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
