"""Truncated Laurent series of a value-graph node in one unknown, around zero (from above)."""
from .dag import Node
from .field import P, Reject, inv, sqrt, topo_missing, INV3
from .dag import exact

N = 12


class Ser:
    __slots__ = ("v", "c")

    def __init__(self, v, c):
        # value = X^v * sum c[i] X^i, truncated to N terms, c[0] != 0 unless zero
        i = 0
        while i < len(c) and c[i] % P == 0:
            i += 1
        self.v, self.c = v + i, [x % P for x in c[i:]]
        if not self.c:
            self.v = 0


def const(x):
    return Ser(0, [x] + [0] * (N - 1))


def add(a, b, s=1):
    if not a.c:
        return b if s == 1 else Ser(b.v, [-x for x in b.c])
    if not b.c:
        return a
    v = min(a.v, b.v)
    n = min(a.v + len(a.c), b.v + len(b.c)) - v
    c = [0] * n
    for i, x in enumerate(a.c):
        if a.v - v + i < n:
            c[a.v - v + i] += x
    for i, x in enumerate(b.c):
        if b.v - v + i < n:
            c[b.v - v + i] += s * x
    return Ser(v, c)


def mul(a, b):
    if not a.c or not b.c:
        return Ser(0, [])
    n = min(len(a.c), len(b.c))
    c = [sum(a.c[j] * b.c[i - j] for j in range(i + 1)) for i in range(n)]
    return Ser(a.v + b.v, c)


def recip(a):
    if not a.c:
        raise Reject("series division by zero")
    k = inv(a.c[0])
    out = [k]
    for i in range(1, len(a.c)):
        out.append(-k * sum(a.c[j] * out[i - j] for j in range(1, i + 1)) % P)
    return Ser(-a.v, out)


def ssqrt(a):
    if not a.c or a.v % 2:
        raise Reject("series sqrt")
    r0 = sqrt(a.c[0])
    out = [r0]
    k = inv(2 * r0)
    for i in range(1, len(a.c)):
        t = a.c[i] - sum(out[j] * out[i - j] for j in range(1, i))
        out.append(t * k % P)
    return Ser(a.v // 2, out)


def compose(a, sgn, par):
    """sum over n of parity par of sgn^(n//2) a^n/n! for a with positive valuation."""
    if a.c and a.v < 1:
        raise Reject("series of a function away from zero")
    s = const(1) if par == 0 else a
    t, f = s, 1
    n = par
    a2 = mul(a, a)
    while t.c and t.v < N + 2:
        t = mul(t, a2)
        n += 2
        f = f * n * (n - 1) % P
        s = add(s, mul(t, const(inv(f) * (sgn if ((n - par) // 2) % 2 else 1))))
        if n > 2 * N:
            break
    return s


def series(ev, n, X):
    """Series of n in X, other leaves at their values in ev (n must not have been evaluated through X there)."""
    memo = {X.id: Ser(1, [1] + [0] * (N - 1))}
    dep = {X.id}
    order = topo_missing(n, {})
    for m in order:
        if m.id == X.id:
            continue
        if not any(isinstance(y, Node) and y.id in dep for y in m.args):
            continue
        dep.add(m.id)

    def get(y):
        r = memo.get(y.id)
        if r is None:
            if y.id in dep:
                raise Reject("order")
            r = memo[y.id] = const(ev.num(y))
        return r

    for m in order:
        if m.id not in dep or m.id == X.id:
            continue
        a = m.args
        op = m.op
        if op == "add":
            r = add(get(a[0]), get(a[1]))
        elif op == "sub":
            r = add(get(a[0]), get(a[1]), -1)
        elif op == "neg":
            x = get(a[0])
            r = Ser(x.v, [-y for y in x.c])
        elif op == "mul":
            r = mul(get(a[0]), get(a[1]))
        elif op == "div":
            r = mul(get(a[0]), recip(get(a[1])))
        elif op == "sqrt":
            r = ssqrt(get(a[0]))
        elif op in ("sin", "cos"):
            r = compose(get(a[0]), -1, int(op == "sin"))
        elif op in ("sinh", "cosh"):
            r = compose(get(a[0]), 1, int(op == "sinh"))
        elif op == "pow" and a[1].op == "c" and exact(a[1].args[0])[0].denominator in (1, 2):
            q = exact(a[1].args[0])[0]
            k = q.numerator
            x = get(a[0]) if q.denominator == 1 else ssqrt(get(a[0]))
            if k < 0:
                x, k = recip(x), -k
            r = const(1)
            for _ in range(k):
                r = mul(r, x)
        else:
            raise Reject("no series for " + op)
        memo[m.id] = r
    return get(n)


def slope_at_zero(ev, f, X):
    s = series(ev, f, X)
    if not s.c or s.v > 1 or s.v < 0:
        raise Reject("series")
    if s.v == 1:
        return s.c[0]
    if len(s.c) < 2:
        raise Reject("series")
    return s.c[1]
