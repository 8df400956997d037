"""Interval abstract domain for the value graph: sound bounds of every node over a box of inputs.

Bounds are rounded outwards, so a condition reported as holding (or failing) on a box does so for every input of the
box.  Nodes outside the domain get the whole line.
"""
import math
from .dag import Node, exact, topo

INF = math.inf
TOP = (-INF, INF)
UP = lambda x: math.nextafter(x, INF)
DN = lambda x: math.nextafter(x, -INF)
PI = (DN(math.pi), UP(math.pi))
REL = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def out(lo, hi, n=2):
    if lo != lo or hi != hi:
        return TOP
    for _ in range(n):
        lo, hi = DN(lo), UP(hi)
    return lo, hi


def mono(f, lo=-INF, hi=INF, dec=False):
    """A monotone function on [lo, hi]."""
    def g(x):
        a, b = max(x[0], lo), min(x[1], hi)
        if a > b:
            return None
        try:
            p, q = lim(f, a), lim(f, b)
        except (ValueError, OverflowError):
            return TOP
        if dec:
            p, q = q, p
        return out(p, q, 3)
    return g


def lim(f, x):
    try:
        return f(x)
    except OverflowError:
        return INF if x > 0 else -INF if f is math.sinh else 0.
    except ValueError:
        return -INF if x <= 0 else INF


def cosr(x):
    lo, hi = x
    if hi - lo >= 6.3 or math.isinf(lo) or math.isinf(hi) or max(abs(lo), abs(hi)) > 1e8:
        return (-1., 1.)
    a, b = math.cos(lo), math.cos(hi)
    r = out(min(a, b), max(a, b), 3)
    k0 = math.ceil((lo - 1e-9) / math.pi)
    k1 = math.floor((hi + 1e-9) / math.pi)
    mn, mx = r
    for k in range(int(k0), int(k1) + 1):
        if k % 2:
            mn = -1.
        else:
            mx = 1.
    return (max(mn, -1.), min(mx, 1.))


def sinr(x):
    return cosr((DN(x[0] - math.pi / 2) - 1e-15 * abs(x[0]), UP(x[1] - math.pi / 2) + 1e-15 * abs(x[1])))


Z = (0., 0.)


def mul(x, y):
    if x == Z or y == Z:
        return Z
    c = [0. if p == 0 or q == 0 else p * q for p in x for q in y]
    return out(min(c), max(c), 1)


def div(x, y):
    if x == Z and not y[0] <= 0 <= y[1]:
        return Z
    if y[0] <= 0 <= y[1]:
        if y[0] == y[1]:
            return TOP
        if y[0] == 0:
            q = (1 / y[1] if y[1] else INF, INF)
        elif y[1] == 0:
            q = (-INF, 1 / y[0])
        else:
            return TOP
        return mul(x, q)
    return mul(x, out(1 / y[1], 1 / y[0], 1))


UN = {
    "sqrt": mono(math.sqrt, 0.), "exp": mono(math.exp), "log": mono(math.log, 0.), "sinh": mono(math.sinh),
    "tanh": mono(math.tanh), "atan": mono(math.atan), "asinh": mono(math.asinh), "acosh": mono(math.acosh, 1.),
    "asin": mono(math.asin, -1., 1.), "acos": mono(math.acos, -1., 1., dec=True), "cbrt": mono(math.cbrt),
    "atanh": mono(math.atanh, -1., 1.), "cos": cosr, "sin": sinr,
}


class Box:
    """box: {leaf name: (lo, hi)}; byid: {node id: (lo, hi)} for unknowns."""

    def __init__(self, box, byid=None):
        self.box = box
        self.memo = dict(byid or {})
        self.undefined = set()

    def __call__(self, n):
        r = self.memo.get(n.id)
        if r is None:
            for m in topo([n]):
                if m.id not in self.memo:
                    r = self.step(m)
                    if r is None:
                        self.undefined.add(m.id)
                        r = TOP
                    self.memo[m.id] = r
            r = self.memo[n.id]
        return r

    def step(self, n):
        op, a = n.op, n.args
        if op == "c":
            q, k = exact(a[0])
            if k:
                return out(a[0], a[0], 2)
            return (a[0], a[0])
        if op in ("in", "leaf", "int"):
            return self.box.get(a[0] if a else None, TOP)
        m = self.memo
        x = m[a[0].id] if a and isinstance(a[0], Node) else TOP
        y = m[a[1].id] if len(a) > 1 and isinstance(a[1], Node) else TOP
        if op == "add":
            return x if y == Z else y if x == Z else out(x[0] + y[0], x[1] + y[1], 1)
        if op == "sub":
            if a[0] is a[1]:
                return (0., 0.)
            return x if y == Z else out(x[0] - y[1], x[1] - y[0], 1)
        if op == "neg":
            return (-x[1], -x[0])
        if op == "mul":
            if a[0] is a[1]:
                return self.square(x)
            return mul(x, y)
        if op == "div":
            return div(x, y)
        if op == "fabs":
            return (0. if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
        if op == "cosh":
            h = self.abs(x)
            return UN_COSH(h)
        if op == "tan":
            k = math.floor((x[0] + math.pi / 2) / math.pi) if math.isfinite(x[0]) else None
            if k is None or not x[1] < (k + .5) * math.pi - 1e-12 or x[0] < (k - .5) * math.pi + 1e-12:
                return TOP
            return out(math.tan(x[0]), math.tan(x[1]), 4)
        if op == "atan2":
            return atan2(x, y)
        if op == "pow":
            if a[1].op == "c":
                e = a[1].args[0]
                if e == int(e) and abs(e) < 64:
                    r = (1., 1.)
                    if int(e) % 2 == 0:
                        x = self.abs(x)
                    for _ in range(abs(int(e))):
                        r = mul(r, x)
                    return r if e >= 0 else div((1., 1.), r)
                x = (max(x[0], 0.), x[1])
                if x[0] > x[1]:
                    return None
                p = [lim(lambda v: v ** e if v > 0 or e > 0 else INF, v) for v in x]
                return out(min(p), max(p), 4)
            return TOP
        if op in ("floor", "ceil", "trunc"):
            f = getattr(math, op)
            return tuple(float(f(v)) if math.isfinite(v) else v for v in x)
        if op in ("fmod", "remainder"):
            if y[0] > 0 and y[0] == y[1] or op == "fmod":
                t = y[1] if y[1] > 0 else INF
                if op == "fmod":
                    if abs(x[0]) < y[0] and abs(x[1]) < y[0]:
                        return x
                    return (0. if x[0] >= 0 else -t, 0. if x[1] <= 0 else t)
            h = max(abs(y[0]), abs(y[1])) / 2
            if max(abs(x[0]), abs(x[1])) < min(abs(y[0]), abs(y[1])) / 2:
                return x
            return (-h, h)
        if op == "copysign":
            h = self.abs(x)
            if y[0] > 0:
                return h
            if y[1] < 0:
                return (-h[1], -h[0])
            return (-h[1], h[1])
        f = UN.get(op)
        if f:
            return f(x)
        return TOP

    @staticmethod
    def abs(x):
        return (0. if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))

    def square(self, x):
        h = self.abs(x)
        return (max(0., DN(h[0] * h[0])), UP(h[1] * h[1]))

    def decide(self, a, b, rel):
        """True / False when the relation holds / fails on the whole box, else None."""
        x, y = self(a), self(b)
        if a is b:
            return rel in ("eq", "le", "ge")
        if self.undefined and any(n.id in self.undefined for n in topo([a, b])):
            return None
        if rel in ("gt", "ge"):
            x, y, rel = y, x, REL[rel]
        if rel == "lt":
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        if rel == "le":
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        disj = x[1] < y[0] or y[1] < x[0]
        same = x[0] == x[1] == y[0] == y[1]
        if rel == "eq":
            return False if disj else True if same else None
        return True if disj else False if same else None

    def follows(self, p):
        """Does every input of the box follow trace p?  True / False (none does) / None."""
        r = True
        for a, b, rel, loc in p.conds:
            d = self.decide(a, b, rel)
            if d is False:
                return False
            if d is None:
                r = None
        return r


def UN_COSH(h):
    try:
        return out(max(1., math.cosh(h[0])), math.cosh(h[1]), 3)
    except OverflowError:
        return (1., INF)


def atan2(y, x):
    if x[0] > 0 or y[0] > 0 or y[1] < 0:
        c = [math.atan2(p, q) for p in y for q in x]
        return out(min(c), max(c), 3)
    return (-PI[1], PI[1])


def point(v):
    return (v, v)
