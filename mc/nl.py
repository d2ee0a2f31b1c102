"""Reads the problem file (AMPL .nl, text form) which the implementation hands to
the solver, and evaluates every row where the solver starts.

Only what a solver needs is kept: start, limits, linear and non-linear parts.
"""
import math

BINARY = {0: "+", 1: "-", 2: "*", 3: "/", 5: "^"}
UNARY = {15: "abs", 16: "neg", 37: "tanh", 38: "tan", 39: "sqrt", 40: "sinh", 41: "sin", 42: "log10", 43: "log", 44: "exp", 45: "cosh", 46: "cos", 49: "atan",
         51: "asin", 53: "acos"}


class Problem:
    def __init__(self, path):
        with open(path, encoding="latin1") as fh:
            lines = [x.split("#")[0].rstrip() for x in fh]
        self.nvar, self.ncon, self.nobj = (int(x) for x in lines[1].split()[:3])
        self.con = [None] * self.ncon
        self.obj = [None] * self.nobj
        self.lin = [[] for _ in range(self.ncon)]
        self.olin = [[] for _ in range(self.nobj)]
        self.defined = {}
        self.rhs = [None] * self.ncon
        self.x0 = [0.0] * self.nvar
        self.lb = [-math.inf] * self.nvar
        self.ub = [math.inf] * self.nvar
        self.L, self.p = lines, 10
        while self.p < len(lines):
            s = lines[self.p]
            self.p += 1
            if not s:
                continue
            k = s[0]
            w = s[1:].split()
            if k == "C":
                self.con[int(w[0])] = self.expr()
            elif k == "O":
                self.obj[int(w[0])] = self.expr()
            elif k == "V":
                lin = [self.pair() for _ in range(int(w[1]))]
                self.defined[int(w[0])] = (lin, self.expr())
            elif k == "x":
                for _ in range(int(w[0])):
                    i, v = self.pair()
                    self.x0[i] = v
            elif k == "d":
                self.p += int(w[0])
            elif k == "r":
                for i in range(self.ncon):
                    b = self.L[self.p].split()
                    self.p += 1
                    self.rhs[i] = float(b[1]) if b[0] == "4" else None
            elif k == "b":
                for i in range(self.nvar):
                    b = self.L[self.p].split()
                    self.p += 1
                    if b[0] == "0":
                        self.lb[i], self.ub[i] = float(b[1]), float(b[2])
                    elif b[0] == "1":
                        self.ub[i] = float(b[1])
                    elif b[0] == "2":
                        self.lb[i] = float(b[1])
                    elif b[0] == "4":
                        self.lb[i] = self.ub[i] = float(b[1])
            elif k == "k":
                self.p += int(w[0])
            elif k == "J":
                self.lin[int(w[0])] = [self.pair() for _ in range(int(w[1]))]
            elif k == "G":
                self.olin[int(w[0])] = [self.pair() for _ in range(int(w[1]))]
            elif k == "S":
                self.p += int(w[1])
            else:
                raise ValueError(f"unknown segment {s!r}")

    def pair(self):
        a, b = self.L[self.p].split()[:2]
        self.p += 1
        return int(a), float(b)

    def expr(self):
        s = self.L[self.p]
        self.p += 1
        if s[0] == "n":
            return float(s[1:])
        if s[0] == "v":
            return ("v", int(s[1:]))
        if s[0] != "o":
            raise ValueError(f"unknown expression {s!r}")
        op = int(s[1:])
        if op in BINARY:
            a = self.expr()
            return (BINARY[op], a, self.expr())
        if op in UNARY:
            return (UNARY[op], self.expr())
        if op == 54:
            n = int(self.L[self.p].split()[0])
            self.p += 1
            return ("sum",) + tuple(self.expr() for _ in range(n))
        raise ValueError(f"unknown operator {s!r}")

    # -- where the solver begins ----------------------------------------------
    def start(self, push=1e-2):
        """The given start moved into the limits, as an interior point method does (ipopt: bound_push, bound_frac)."""
        x = []
        for v, lo, up in zip(self.x0, self.lb, self.ub):
            if lo == up:
                v = lo
            else:
                if lo > -math.inf:
                    v = max(v, lo + (min(push * max(1, abs(lo)), push * (up - lo)) if up < math.inf else push * max(1, abs(lo))))
                if up < math.inf:
                    v = min(v, up - (min(push * max(1, abs(up)), push * (up - lo)) if lo > -math.inf else push * max(1, abs(up))))
            x.append(v)
        return x

    def faults(self, x):
        """(row, operation) for every row without finite value and derivatives (up to second order) at x."""
        res = []
        memo = {}
        for name, rows, lin in (("row", self.con, self.lin), ("objective", self.obj, self.olin)):
            for i, e in enumerate(rows):
                why = []
                v = self.val(e, x, memo, why) if e is not None else 0.0
                v += sum(c * x[j] for j, c in lin[i])
                if not math.isfinite(v) and not why:
                    why.append(f"value {v}")
                if why:
                    res.append((name, i, why[0]))
        return res

    def confirmed(self, x, tol=1e-6):
        """Numbers of equations which hold, and which do not hold, at x."""
        good = bad = 0
        memo = {}
        for i, e in enumerate(self.con):
            if self.rhs[i] is not None:
                parts = [self.val(e, x, memo, []) if e is not None else 0.0] + [c * x[j] for j, c in self.lin[i]]
                ok = abs(sum(parts) - self.rhs[i]) <= tol * max(1.0, max(abs(p) for p in parts))
                good, bad = good + ok, bad + (not ok)
        return good, bad

    def val(self, e, x, memo, why):
        if isinstance(e, float):
            return e
        k = e[0]
        if k == "v":
            if e[1] < self.nvar:
                return x[e[1]]
            if e[1] not in memo:
                w = []
                lin, sub = self.defined[e[1]]
                memo[e[1]] = (self.val(sub, x, memo, w) + sum(c * (x[j] if j < self.nvar else self.val(("v", j), x, memo, w)) for j, c in lin), w)
            v, w = memo[e[1]]
            why += w
            return v
        a = [self.val(s, x, memo, why) for s in e[1:]]
        if any(not math.isfinite(v) for v in a):
            if not why:
                why.append(f"{k} of {a}")
            return math.nan
        try:
            if k == "+":
                return a[0] + a[1]
            if k == "-":
                return a[0] - a[1]
            if k == "*":
                return a[0] * a[1]
            if k == "sum":
                return math.fsum(a)
            if k == "neg":
                return -a[0]
            if k == "abs":
                return abs(a[0])
            if k == "/":
                if a[1] == 0:
                    raise ValueError
                return a[0] / a[1]
            if k == "^":
                b, p = a
                const = not self.varies(e[2])
                if const and p == int(p) and (p >= 0 or b != 0):
                    return b ** p
                if const and b == 0 and p > 2:
                    return 0.0
                if b <= 0 and (const or self.varies(e[1]) or b < 0):
                    raise ValueError
                return b ** p
            if k in ("log", "log10", "sqrt") and a[0] <= 0:
                raise ValueError
            return getattr(math, k)(a[0])
        except (ValueError, OverflowError):
            if not why:
                why.append(f"{k} of {', '.join('%.6g' % v for v in a)}")
            return math.nan

    def varies(self, e):
        if isinstance(e, float):
            return False
        if e[0] == "v":
            return True
        return any(self.varies(s) for s in e[1:])
