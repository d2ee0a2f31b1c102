"""Development tool: rewrite /repo without changing what it does, to look for false alarms of the checks.

    tools/refactor.py DEST [1|2]   copies the repository to DEST (under /tmp) and rewrites every module of the package there
    1: operands, comparisons, constraint lists, keywords, conditionals turned round; locals renamed; statements without effect
    2: equations as `left - right == 0`, expressions through helpers, declarations reordered, unnamed constraints named, list and
       dict comprehensions as loops over generators, constraints added one by one, early returns as else branches
"""
import ast
import os
import shutil
import sys

REPO = os.environ.get("MC_REPO", "/repo")
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
TEXT = (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp, ast.Dict)


def texty(n):
    return isinstance(n, TEXT) or isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) or any(
        isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n))


class Rewrite(ast.NodeTransformer):
    def __init__(self, component):
        self.component = component
        self.depth = 0

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) or isinstance(n.op, ast.Add) and self.component:
            if not texty(n.left) and not texty(n.right):
                n.left, n.right = n.right, n.left
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [FLIP[type(n.ops[0])]()]
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.component and isinstance(n.func, ast.Attribute) and n.func.attr == "extend" and len(n.args) == 1 and isinstance(n.args[0], ast.List):
            n.args[0].elts.reverse()
        n.keywords.reverse() if all(k.arg for k in n.keywords) else None
        return n

    def visit_FunctionDef(self, n):
        if n.name == "<lambda>":
            return n
        args = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
        banned = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                banned |= set(x.names)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
                return n
        stores = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        inner = {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n}
        new = {v: f"{v}_local" for v in stores - args - banned - inner if not v.startswith("_")}
        if self.depth == 0:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in new:
                    x.id = new[x.id]
                if isinstance(x, ast.ExceptHandler) and x.name in new:
                    x.name = new[x.name]
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        at = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(at, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0)))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        return n


def is_var(n):
    return isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == "m"


def declared(st):
    """Name X of a statement `m.X = ...`."""
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and isinstance(st.targets[0].value, ast.Name) \
            and st.targets[0].value.id == "m" and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "Var":
        return st.targets[0].attr
    return None


class Rewrite2(ast.NodeTransformer):
    count = 0

    def __init__(self, component):
        self.component = component


    def visit_Lambda(self, n):
        self.generic_visit(n)
        if self.component:
            n.body = ast.Call(ast.Name("_same", ast.Load()), [n.body], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.component and len(n.ops) == 1 and isinstance(n.ops[0], ast.Eq) and is_var(n.left):
            n.left, n.comparators = ast.BinOp(n.left, ast.Sub(), n.comparators[0]), [ast.Constant(0)]
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("dict", ast.Load()), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.component and isinstance(n.func, ast.Name) and n.func.id in ("GlobalConstraint", "RegionalConstraint", "GlobalInitConstraint",
                                                                            "RegionalInitConstraint", "RegionalSoftEqualityConstraint"):
            if n.func.id != "RegionalSoftEqualityConstraint" and len(n.args) == 1 and not n.keywords:
                Rewrite2.count += 1
                n.keywords.append(ast.keyword("name", ast.Constant(f"equation_{self.count}")))
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if self.component and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "extend" and len(c.args) == 1 and isinstance(c.args[0], ast.List):
            return ast.For(ast.Name("one_more", ast.Store()), c.args[0], [ast.Expr(ast.Call(ast.Attribute(c.func.value, "append", ast.Load()), [ast.Name("one_more", ast.Load())], []))], [])
        return n

    def block(self, body):
        out, run = [], []
        for st in body + [None]:
            d = declared(st) if st is not None and self.component else None
            if d and not any(isinstance(x, ast.Attribute) and x.attr in [r[0] for r in run] for x in ast.walk(st)):
                run.append((d, st))
                continue
            out += [x[1] for x in reversed(run)]
            run = []
            if d:
                run = [(d, st)]
            elif st is not None:
                out.append(st)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        for k, st in enumerate(n.body[:-1]):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)):
                st.orelse = n.body[k + 1:]
                n.body = n.body[:k + 1]
                break
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        if self.component:
            at = next((k for k, st in enumerate(n.body) if not (isinstance(st, ast.Expr) or isinstance(st, ast.ImportFrom) and st.module == "__future__")), len(n.body))
            n.body.insert(at, ast.parse("def _same(value_of_expression):\n    return value_of_expression").body[0])
        return n


def main():
    dest = os.path.abspath(sys.argv[1])
    assert dest.startswith("/tmp/")
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    for x in ("mimosa", "tests", "setup.py", "requirements.txt"):
        s = os.path.join(REPO, x)
        shutil.copytree(s, os.path.join(dest, x), ignore=shutil.ignore_patterns("__pycache__")) if os.path.isdir(s) else os.path.exists(s) and shutil.copy(s, dest)
    for base, _, files in os.walk(os.path.join(dest, "mimosa")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                with open(p) as fh:
                    tree = ast.parse(fh.read())
                tree = ast.fix_missing_locations((Rewrite2 if sys.argv[2:] == ["2"] else Rewrite)("/components/" in p).visit(tree))
                with open(p, "w") as fh:
                    fh.write(ast.unparse(tree) + "\n")


if __name__ == "__main__":
    main()
