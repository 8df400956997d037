"""Hash-consed value graph of double computations (value numbers).

A node is (op, args); leaves are inputs, constants, unknowns.  Two structurally
equal computations share one node, so node identity is Herbrand equivalence;
kv.field adds the algebraic equivalences on top of it.
"""
import math
import struct
from fractions import Fraction

PI = "pi"


def bits2float(b):
    return struct.unpack("<d", struct.pack("<Q", b & 0xFFFFFFFFFFFFFFFF))[0]


def float2bits(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


_cache = {}


def exact(f):
    """The exact number a double literal stands for: (rational q, power k of pi) = q*pi**k."""
    r = _cache.get(f)
    if r is not None:
        return r
    r = _exact(f)
    _cache[f] = r
    return r


def _exact(f):
    if f == 0 or math.isinf(f) or math.isnan(f):
        return Fraction(0), 0
    if f == int(f) and abs(f) < 2 ** 53:
        return Fraction(int(f)), 0
    fr = Fraction(repr(f))
    if fr.denominator <= 10 ** 9:
        return fr, 0
    s = Fraction(f).limit_denominator(100000)
    if s != 0 and float(s) == f:
        return s, 0
    for k in (1, -1, 2, -2):
        g = f / math.pi ** k
        s = Fraction(g).limit_denominator(100000)
        if s != 0 and abs(float(s) * math.pi ** k - f) <= 4e-16 * abs(f):
            return s, k
    return fr, 0


class Node:
    __slots__ = ("op", "args", "id", "loc", "sz")

    def __init__(self, op, args, id, loc):
        self.op = op
        self.args = args
        self.id = id
        self.loc = loc

    def __repr__(self):
        return fmt(self, 3)


def fmt(n, depth=6):
    if not isinstance(n, Node):
        return str(n)
    if n.op == "c":
        q, k = exact(n.args[0])
        return repr(n.args[0]) if k == 0 else f"{q}*pi^{k}"
    if n.op in ("in", "leaf"):
        return str(n.args[0])
    if depth <= 0:
        return "…"
    b = {"add": "+", "sub": "-", "mul": "*", "div": "/"}.get(n.op)
    if b:
        return f"({fmt(n.args[0], depth - 1)} {b} {fmt(n.args[1], depth - 1)})"
    return f"{n.op}({', '.join(fmt(a, depth - 1) for a in n.args)})"


# integers computed from others, by name: (operation, operand, operand) or ("f2i", node)
INTS = {}
_serial = [0]


class Dag:
    def __init__(self):
        _serial[0] += 1
        self.serial = _serial[0]
        self.tab = {}
        self.nodes = []

    def mk(self, op, args, loc=None):
        k = (op, args)
        n = self.tab.get(k)
        if n is None:
            n = Node(op, args, len(self.nodes), loc)
            self.nodes.append(n)
            self.tab[k] = n
        return n

    def const(self, f):
        # keep +0/-0 identical, NaN canonical
        f = float(f)
        if f == 0:
            f = 0.0
        if f != f:
            return self.mk("nan", ())
        return self.mk("c", (f,))

    def leaf(self, name, loc=None):
        return self.mk("in", (name,), loc)

    def unknown(self, *key):
        return self.mk("leaf", key)

    def bin(self, op, a, b, loc=None):
        if a.op == "nan" or b.op == "nan":
            return self.mk("nan", ())
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            try:
                if op == "add":
                    v = x + y
                elif op == "sub":
                    v = x - y
                elif op == "mul":
                    v = x * y
                elif op == "div":
                    v = x / y if y != 0 else (math.nan if x == 0 or x != x else math.copysign(math.inf, x))
                else:
                    v = None
            except OverflowError:
                v = None
            if v is not None:
                # fold only when the folded literal is as exact as its operands
                ex = True
                if math.isfinite(v):
                    qx, kx = exact(x)
                    qy, ky = exact(y)
                    qv, kv = exact(v)
                    if op == "add":
                        ex = (kx == ky or qx == 0 or qy == 0) and (qv == qx + qy)
                    elif op == "sub":
                        ex = (kx == ky or qx == 0 or qy == 0) and (qv == qx - qy)
                    elif op == "mul":
                        ex = qv == qx * qy and (kv == kx + ky or qv == 0)
                    elif op == "div":
                        ex = qv == qx / qy and (kv == kx - ky or qv == 0)
                if ex:
                    return self.const(v)
        # identities that hold for all reals (keeps the graph small)
        if op == "add":
            if a.op == "c" and a.args[0] == 0:
                return b
            if b.op == "c" and b.args[0] == 0:
                return a
        elif op == "sub":
            if b.op == "c" and b.args[0] == 0:
                return a
            if a.op == "c" and a.args[0] == 0:
                return self.neg(b, loc)
        elif op == "mul":
            for x, y in ((a, b), (b, a)):
                if x.op == "c":
                    if x.args[0] == 0:
                        return x
                    if x.args[0] == 1:
                        return y
                    if x.args[0] == -1:
                        return self.neg(y, loc)
        elif op == "div":
            if b.op == "c" and b.args[0] == 1:
                return a
            if a.op == "c" and a.args[0] == 0:
                return a
        return self.mk(op, (a, b), loc)

    def neg(self, a, loc=None):
        if a.op == "c":
            return self.const(-a.args[0])
        if a.op == "nan":
            return a
        if a.op == "neg":
            return a.args[0]
        return self.mk("neg", (a,), loc)

    _un = {"sqrt": math.sqrt, "fabs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
           "sin": math.sin, "cos": math.cos, "exp": math.exp, "cosh": math.cosh, "sinh": math.sinh,
           "tan": math.tan, "tanh": math.tanh, "atan": math.atan, "log": math.log}

    def un(self, op, a, loc=None):
        if a.op == "nan":
            return a
        if a.op == "c":
            x = a.args[0]
            if op in ("fabs", "floor", "ceil", "trunc"):
                if math.isinf(x):
                    return self.const(abs(x) if op == "fabs" else x)
                return self.const(float(self._un[op](x)))
            if x == 0:
                if op in ("sin", "sinh", "tan", "tanh", "atan", "sqrt", "asin", "asinh", "atanh", "cbrt"):
                    return self.const(0.0)
                if op in ("cos", "cosh", "exp"):
                    return self.const(1.0)
            if x == 1 and op in ("sqrt", "cbrt"):
                return a
            if op == "sqrt" and x > 0:
                q, k = exact(x)
                if k == 0:
                    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if n * n == q.numerator and d * d == q.denominator:
                        return self.const(float(Fraction(n, d)))
        return self.mk(op, (a,), loc)

    def pow(self, a, b, loc=None):
        if b.op == "c":
            y = b.args[0]
            if y == 1:
                return a
            if y == 0:
                return self.const(1.0)
            if y == 2:
                return self.bin("mul", a, a, loc)
            if y == 0.5:
                return self.un("sqrt", a, loc)
        return self.mk("pow", (a, b), loc)


def topo(roots):
    """Nodes reachable from roots, in dependency order (ids are topological)."""
    seen = {}
    st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                st.append(a)
    return [seen[i] for i in sorted(seen)]
