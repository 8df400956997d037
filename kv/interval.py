"""Interval bounds of value-graph nodes along one trace (real arithmetic)."""
import math
from .dag import Node

INF = math.inf


class Bounds:
    def __init__(self, conds=(), leaf=None):
        self.ref = {}
        self.leaf = leaf or {}
        for a, b, rel, loc in conds:
            for x, y, r in ((a, b, rel), (b, a, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(rel, rel))):
                if y.op == "c":
                    lo, hi = self.ref.get(x.id, (-INF, INF))
                    c = y.args[0]
                    if r in ("lt", "le", "eq"):
                        hi = min(hi, c)
                    if r in ("gt", "ge", "eq"):
                        lo = max(lo, c)
                    self.ref[x.id] = (lo, hi)
        self.memo = {}

    def __call__(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.raw(n)
            lo, hi = self.ref.get(n.id, (-INF, INF))
            r = (max(r[0], lo), min(r[1], hi))
            self.memo[n.id] = r
        return r

    def raw(self, n):
        op, a = n.op, n.args
        if op == "c":
            return (a[0], a[0])
        if op in ("in", "leaf"):
            return self.leaf.get(a[0], (-INF, INF))
        if op == "acos":
            return (0., math.pi)
        if op == "atan":
            x = self(a[0])
            return (math.atan(x[0]), math.atan(x[1]))
        if op == "asin":
            return (-math.pi / 2, math.pi / 2)
        if op == "atan2":
            return (-math.pi, math.pi)
        if op in ("sin", "cos", "tanh"):
            return (-1., 1.)
        if op in ("sqrt", "fabs", "exp"):
            x = self(a[0])
            if op == "fabs":
                m = max(abs(x[0]), abs(x[1]))
                return (0. if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), m)
            if op == "sqrt":
                return (math.sqrt(max(x[0], 0)), math.sqrt(max(x[1], 0)))
            return (0., INF)
        if op == "cosh":
            return (1., INF)
        if op in ("fmod", "remainder"):
            y = self(a[1])
            m = max(abs(y[0]), abs(y[1]))
            if op == "remainder":
                return (-m / 2, m / 2)
            x = self(a[0])
            return (0. if x[0] >= 0 else -m, 0. if x[1] <= 0 else m)
        if op in ("add", "sub"):
            x, y = self(a[0]), self(a[1])
            if op == "sub":
                y = (-y[1], -y[0])
            return (x[0] + y[0], x[1] + y[1])
        if op == "neg":
            x = self(a[0])
            return (-x[1], -x[0])
        if op in ("mul", "div"):
            x, y = self(a[0]), self(a[1])
            if op == "div":
                if y[0] <= 0 <= y[1]:
                    return (-INF, INF)
                y = (1 / y[1], 1 / y[0])
            if op == "mul" and a[0] is a[1]:
                m = sorted((abs(x[0]), abs(x[1])))
                return (0. if x[0] <= 0 <= x[1] else m[0] ** 2, m[1] ** 2)
            c = [mul(p, q) for p in x for q in y]
            return (min(c), max(c))
        return (-INF, INF)


def mul(p, q):
    return 0. if p == 0 or q == 0 else p * q
