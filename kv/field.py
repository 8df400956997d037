"""Algebraic value numbering of the value graph.

Every node gets a value number in a prime field F_p by a homomorphic hash
("random interpretation", Gulwani & Necula): rational operations map to field
operations, so nodes that are equal as rational functions of the inputs get
equal numbers, and different ones differ except with probability ~2^-55 per
sample.  Square roots, circular and hyperbolic functions are interpreted by
field elements obeying the same algebraic laws:
  * "positive" is modelled by "quadratic residue" (p = 3 mod 4: exactly one of
    x, -x is; closed under products), sqrt takes the residue root;
  * an angle is a point on the circle c^2+s^2=1, sums are complex products;
    inverse functions look the point up;
  * exp is a homomorphism from sums to products.
Decisions taken along a trace constrain signs; samples violating them are
rejected.  Root-finder unknowns are free symbols subject to f(X)=0.
"""
import hashlib
import math
import random
from fractions import Fraction
from .dag import INTS, Node, exact, topo

# p = 7 mod 8 and 2 mod 3; every prime up to 47, hence every small positive rational, is a quadratic residue
P = 2305843009213057079
EXPSQ = (P + 1) // 4


def _setp():
    global P, EXPSQ
    from . import field


class Reject(Exception):
    pass


class Unknown(Exception):
    pass


def inv(a):
    if a % P == 0:
        raise Reject("division by zero")
    return pow(a, P - 2, P)


def isqr(a):
    a %= P
    return a != 0 and pow(a, (P - 1) // 2, P) == 1


def sqrt(a):
    a %= P
    if a == 0:
        raise Reject("sqrt0")
    r = pow(a, EXPSQ, P)
    if r * r % P != a:
        raise Reject("sqrt of a negative value")
    if not isqr(r):
        r = P - r
    return r


# angles are powers of generic points, in a group of order prime to 30, where roots are unique
ANGK = 8 * 3 * 5 * 13 * 29
ANGN = (P + 1) // ANGK
INV3 = pow(3, -1, P - 1) if (P - 1) % 3 else None


def frac(q):
    return q.numerator % P * inv(q.denominator) % P


def cmul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cpow(a, n):
    if n < 0:
        a = (a[0], -a[1] % P)
        n = -n
    r = (1, 0)
    while n:
        if n & 1:
            r = cmul(r, a)
        a = cmul(a, a)
        n >>= 1
    return r


def chalf(a):
    """Half angle with positive cosine."""
    c = sqrt((1 + a[0]) * inv(2))
    return (c, a[1] * inv(2 * c) % P)


class Eval:
    """One sample of the value numbering."""

    def __init__(self, seed, assign=None, byid=None, hook=None):
        self.seed = seed
        self.assign = assign or {}
        self.byid = byid or {}
        self.hook = hook
        self.v = {}
        self.pi = self.prf("pi")
        self.circ_of = {}     # (c,s) -> num
        self.exp_of = {}      # E -> num
        self.num2circ = {0: (1, 0), self.pi: (P - 1, 0), P - self.pi: (P - 1, 0), 2 * self.pi % P: (1, 0),
                         -2 * self.pi % P: (1, 0)}
        self.circ_of[(1, 0)] = 0
        self.circ_of[(P - 1, 0)] = self.pi
        self.num2exp = {0: 1}
        self.full = {}        # node id -> circle point of inverse trig nodes
        self.fullE = {}
        self.g = {}
        self.lin_memo = {}
        self.ints = {}
        self.delta = {}
        self.halves = {}      # num -> prescribed circle point of half the angle

    def prf(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, "little") % (P - 2) + 1

    def leafval(self, n):
        if n.id in self.byid:
            return self.byid[n.id]
        if n.op == "in" and n.args[0] in self.assign:
            return self.assign[n.args[0]]
        if n.op == "int":
            return self.intval(n.args[0])
        return self.prf("leaf", n.op, tuple(str(a) for a in n.args))

    def intval(self, x):
        """Integers: ring operations on known ones, anything else an unknown function of its operands.  The truncation
        of a real differs from it by delta (none by default)."""
        if isinstance(x, int):
            return x % P
        if not isinstance(x, str):
            return (self.intval(x.base) + x.off) % P
        r = self.ints.get(x)
        if r is None:
            r = self.ints[x] = self._intval(x)
        return r

    def _intval(self, x):
        if x in self.assign:
            return self.assign[x]
        k = INTS.get(x)
        if k is None:
            return self.prf("leaf", "int", (x,))
        if k[0] == "f2i":
            return (self.num(k[1]) + self.delta.get(x, 0)) % P
        op, a, b = k
        if not all(isinstance(v, int) or hasattr(v, "base") for v in (a, b)):
            return self.prf("leaf", "int", (x,))
        va, vb = self.intval(a), self.intval(b)
        if op == "add":
            return (va + vb) % P
        if op == "sub":
            return (va - vb) % P
        if op == "mul":
            return va * vb % P
        if op == "shl" and isinstance(b, int):
            return va * pow(2, b, P) % P
        return self.prf("iop", op, va, vb)

    # -- linear decompositions ------------------------------------------------
    def lin(self, n):
        """n as pi-multiple + sum of rational multiples of atoms."""
        r = self.lin_memo.get(n.id)
        if r is None:
            r = self._lin(n)
            self.lin_memo[n.id] = r
        return r

    def _lin(self, n):
        op = n.op
        if op == "c":
            q, k = exact(n.args[0])
            if q == 0:
                return (Fraction(0), {})
            if k == 1:
                return (q, {})
            return (Fraction(0), {("c", k): q})
        if op in ("add", "sub"):
            a, b = self.lin(n.args[0]), self.lin(n.args[1])
            s = 1 if op == "add" else -1
            d = dict(a[1])
            for k, q in b[1].items():
                d[k] = d.get(k, 0) + s * q
                if d[k] == 0:
                    del d[k]
            return (a[0] + s * b[0], d)
        if op == "neg":
            a = self.lin(n.args[0])
            return (-a[0], {k: -q for k, q in a[1].items()})
        if op in ("mul", "div"):
            a, b = self.lin(n.args[0]), self.lin(n.args[1])
            pure = lambda x: x[0] == 0 and set(x[1]) == {("c", 0)}
            if pure(b):
                q = b[1][("c", 0)]
                q = q if op == "mul" else 1 / q
                return (a[0] * q, {k: v * q for k, v in a[1].items()})
            if op == "mul" and pure(a):
                q = a[1][("c", 0)]
                return (b[0] * q, {k: v * q for k, v in b[1].items()})
            if op == "mul":
                for x, y in ((a, n.args[1]), (b, n.args[0])):
                    if x[1] == {} and x[0] % 2 == 0 and y.op in ("floor", "ceil", "trunc", "round", "rint"):
                        return (Fraction(0), {})
            ta, tb = self.terms(a), self.terms(b)
            if len(ta) * len(tb) <= 16 and (op == "mul" or len(tb) == 1):
                d = {}
                for qa, va in ta:
                    for qb, vb in tb:
                        v = va * vb % P if op == "mul" else va * inv(vb) % P
                        k = ("v", v)
                        d[k] = d.get(k, 0) + (qa * qb if op == "mul" else qa / qb)
                return (Fraction(0), d)
            return (Fraction(0), {("v", self.num(n)): Fraction(1)})
        if op in ("fmod", "remainder"):
            b = self.lin(n.args[1])
            if b[1] == {} and b[0] in (2, -2):
                return self.lin(n.args[0])
        if op in ("atan2", "acos", "asin", "atan"):
            self.num(n)
            return (Fraction(0), {("t", n.id): Fraction(1)})
        if op in ("log", "asinh", "acosh", "atanh"):
            self.num(n)
            return (Fraction(0), {("h", n.id): Fraction(1)})
        return (Fraction(0), {("v", self.num(n)): Fraction(1)})

    def terms(self, l):
        out = []
        if l[0] != 0:
            out.append((l[0], self.pi))
        for k, q in l[1].items():
            out.append((q, self.atomnum(k)))
        return out or [(Fraction(0), 0)]

    def atomnum(self, k):
        if k[0] == "v":
            return k[1]
        if k[0] == "c":
            return pow(self.pi, k[1] % (P - 1), P)
        return self.v[k[1]]

    def atom_half(self, k):
        """Circle point of half the atom."""
        if k[0] == "v":
            if k[1] in self.halves:
                return self.halves[k[1]]
            w = self.atom_quarter(k)
            return cmul(w, w)
        if k[0] == "c":
            w = self.atom_quarter(k)
            return cmul(w, w)
        if k[0] == "h":
            return self.atom_half(("v", self.v[k[1]]))
        return chalf(self.full[k[1]])

    def atom_quarter(self, k):
        i = 0
        # odd symmetry: value -v gets the conjugate point
        v = self.prf("cst", k[1]) if k[0] == "c" else k[1]
        neg = v > P - v
        if neg:
            v = P - v
        while True:
            t = self.prf("angle", v, i)
            d = 1 + t * t
            z = ((1 - t * t) * inv(d) % P, 2 * t * inv(d) % P)
            c, s = cpow(z, ANGK)
            if isqr(c):
                return (c, -s % P if neg else s)
            i += 1

    def circ(self, n):
        """(cos, sin) of node n."""
        r = self.num2circ.get(self.num(n))
        if r is not None:
            return r
        pq, d = self.lin(n)
        k = pq * 2
        r = (1, 0)
        if k.denominator == 1:
            r = [(1, 0), (0, 1), (P - 1, 0), (0, P - 1)][int(k) % 4]
        else:
            # rational multiple of pi outside the axes
            den = k.denominator
            if den in (2, 4):
                h = (0, 1)
                for _ in range(den.bit_length() - 1):
                    h = chalf(h)
                r = cpow(h, int(k.numerator))
            elif den == 3:
                s3 = sqrt(3)
                h = (s3 * inv(2) % P, inv(2))
                r = cpow(h, int(k.numerator))
            else:
                # no root of unity of that order: a generic angle, periodic and odd
                q = pq % 2
                if q > 1:
                    q -= 2
                d = dict(d)
                d["c", 1] = q
        for a, q in d.items():
            if a[0] == "t" and q.denominator == 1:
                r = cmul(r, cpow(self.full[a[1]], int(q)))
                continue
            if (a[0] == "v" and a[1] not in self.halves) or a[0] == "c":
                q4 = q * 4
                if math.gcd(q4.denominator, ANGN) > 1:
                    raise Unknown("angle fraction %s" % q)
                e = int(q4) if q4.denominator == 1 else q4.numerator * pow(q4.denominator, -1, ANGN) % ANGN
                r = cmul(r, cpow(self.atom_quarter(a), e))
                continue
            q2 = q * 2
            h = self.atom_half(a)
            while q2.denominator % 2 == 0 and q2.denominator > 1:
                q2 *= 2
                h = chalf(h)
            if q2.denominator != 1:
                h, q2 = self.odd_part(a, q)
            r = cmul(r, cpow(h, int(q2)))
        self.register(r, self.num(n))
        return r

    def odd_part(self, a, q):
        """(point, exponent) for the fraction q of an atom, q with an odd part in its denominator."""
        q2 = q * 2
        m = q2.denominator
        e2 = 0
        while m % 2 == 0:
            m //= 2
            e2 += 1
        if math.gcd(m, P + 1) > 1:
            raise Unknown("angle fraction %s" % q)
        h = self.atom_half(a)
        for _ in range(e2):
            h = chalf(h)
        return h, q2.numerator * pow(m, -1, P + 1) % (P + 1)

    def register(self, c, num):
        t = self.circ_of
        self.num2circ.setdefault(num, c)
        self.num2circ.setdefault(-num % P, (c[0], -c[1] % P))
        t.setdefault(c, num)
        t.setdefault((c[0], -c[1] % P), -num % P)
        t.setdefault((-c[0] % P, c[1]), (self.pi - num) % P)
        t.setdefault((-c[0] % P, -c[1] % P), (num - self.pi) % P)

    def angle(self, n, c):
        """Number of the angle at circle point c (inverse trigonometric result)."""
        self.full[n.id] = c
        r = self.circ_of.get(c)
        if r is None:
            r = self.prf("ang", c)
            if c[1] > P - c[1]:
                r = -self.prf("ang", (c[0], P - c[1])) % P
            self.register(c, r)
        return r

    def expo(self, n):
        """exp of node n."""
        r = self.num2exp.get(self.num(n))
        if r is not None:
            return r
        pq, d = self.lin(n)
        r = 1
        if pq != 0:
            r = self.expatom(("v", self.pi), pq)
        for a, q in d.items():
            r = r * self.expatom(a, q) % P
        num = self.num(n)
        self.regexp(r, num)
        return r

    def regexp(self, r, num):
        self.num2exp.setdefault(num, r)
        self.num2exp.setdefault(-num % P, inv(r))
        self.exp_of.setdefault(r, num)
        self.exp_of.setdefault(inv(r), -num % P)

    def expatom(self, a, q):
        if a[0] == "h":
            e = self.fullE[a[1]]
        else:
            v = self.atomnum(a)
            neg = v > P - v
            w = self.prf("exp", P - v if neg else v)
            e = pow(w, 48, P)
            if neg:
                e = inv(e)
        # residues form a group of odd order: unique roots of every order prime to it
        h = (P - 1) // 2
        if math.gcd(q.denominator, h) != 1:
            raise Unknown("exp fraction")
        return pow(e, q.numerator * pow(q.denominator, -1, h) % h, P)

    def logr(self, n, E):
        if not isqr(E):
            raise Reject("log of a negative value")
        self.fullE[n.id] = E
        r = self.exp_of.get(E)
        if r is None:
            Ei = inv(E)
            r = self.prf("log", E) if E < Ei else -self.prf("log", Ei) % P
            self.regexp(E, r)
        return r

    # -- numbers ---------------------------------------------------------------
    def num(self, n):
        v = self.v.get(n.id)
        if v is None:
            for m in topo_missing(n, self.v):
                self.v[m.id] = self.step(m)
            v = self.v[n.id]
        return v

    def step(self, n):
        op, a = n.op, n.args
        v = self.v
        if op == "add":
            return (v[a[0].id] + v[a[1].id]) % P
        if op == "sub":
            return (v[a[0].id] - v[a[1].id]) % P
        if op == "mul":
            return v[a[0].id] * v[a[1].id] % P
        if op == "div":
            return v[a[0].id] * inv(v[a[1].id]) % P
        if op == "neg":
            return -v[a[0].id] % P
        if op == "c":
            f = a[0]
            if f != f or f in (float("inf"), float("-inf")):
                raise Reject("infinite")
            q, k = exact(f)
            r = frac(q)
            if k:
                r = r * pow(self.pi, k % (P - 1), P) % P
            return r
        if op in ("in", "leaf", "int"):
            return self.leafval(n)
        if op == "sqrt":
            return sqrt(v[a[0].id])
        if op == "fabs":
            x = v[a[0].id]
            if x == 0:
                raise Reject("zero")
            return x if isqr(x) else P - x
        if op == "pow":
            x = v[a[0].id]
            if a[1].op == "c":
                q, k = exact(a[1].args[0])
                if k == 0:
                    den = q.denominator
                    while den % 2 == 0:
                        x = sqrt(x)
                        den //= 2
                    while den % 3 == 0:
                        x = pow(x, INV3, P)
                        den //= 3
                    if den == 1:
                        if x == 0:
                            raise Reject("pow0")
                        return pow(x, int(q.numerator) % (P - 1), P)
            return self.prf("pow", x, v[a[1].id])
        if op == "cbrt":
            return pow(v[a[0].id], INV3, P)
        if op in ("sin", "cos", "tan"):
            c, s = self.circ(a[0])
            if op == "sin":
                return s
            if op == "cos":
                return c
            return s * inv(c) % P
        if op == "atan2":
            y, x = v[a[0].id], v[a[1].id]
            h = sqrt(x * x + y * y)
            hi = inv(h)
            return self.angle(n, (x * hi % P, y * hi % P))
        if op == "acos":
            c = v[a[0].id]
            return self.angle(n, (c, sqrt(1 - c * c)))
        if op == "asin":
            s = v[a[0].id]
            return self.angle(n, (sqrt(1 - s * s), s))
        if op == "atan":
            t = v[a[0].id]
            c = inv(sqrt(1 + t * t))
            return self.angle(n, (c, t * c % P))
        if op in ("exp", "sinh", "cosh", "tanh"):
            e = self.expo(a[0])
            if op == "exp":
                return e
            if op == "tanh":
                e2 = e * e % P
                return (e2 - 1) * inv(e2 + 1) % P
            ei = inv(e)
            return (e - ei if op == "sinh" else e + ei) * inv(2) % P
        if op == "log":
            return self.logr(n, v[a[0].id])
        if op == "asinh":
            t = v[a[0].id]
            return self.logr(n, (t + sqrt(t * t + 1)) % P)
        if op == "acosh":
            t = v[a[0].id]
            return self.logr(n, (t + sqrt(t * t - 1)) % P)
        if op == "atanh":
            t = v[a[0].id]
            return self.logr(n, sqrt((1 + t) * inv(1 - t)))
        if op == "copysign":
            x, y = v[a[0].id], v[a[1].id]
            if x == 0 or y == 0:
                raise Reject("zero")
            return x if isqr(x) == isqr(y) else P - x
        if op in ("fmod", "remainder"):
            return (v[a[0].id] - v[a[1].id] * (self.prf("fmod", v[a[1].id]) % 7)) % P
        if op == "minv":
            i, m = a[0], a[1]
            key = ("minv",) + tuple(x.id for x in a[2:])
            r = self.v.get(key)
            if r is None:
                r = matinv([v[x.id] for x in a[2:]], m)
                self.v[key] = r
            return r[i]
        if op == "nan":
            raise Reject("nan")
        if self.hook:
            r = self.hook(self, n)
            if r is not None:
                return r
        return self.prf("op", op, tuple(v[x.id] if isinstance(x, Node) else x for x in a))

    # -- derivatives ------------------------------------------------------------
    def grad(self, n, seeds):
        """Gradient of n with respect to seeds (dict leaf node id -> index)."""
        key = id(seeds)
        memo = self.g.setdefault(key, {})
        r = memo.get(n.id)
        if r is not None:
            return r
        self.num(n)
        nd = len(set(seeds.values()))
        zero = (0,) * nd
        for m in topo_missing(n, memo):
            memo[m.id] = self.gstep(m, memo, seeds, nd, zero)
        return memo[n.id]

    def gstep(self, n, g, seeds, nd, zero):
        if n.id in seeds:
            return tuple(1 if i == seeds[n.id] else 0 for i in range(nd))
        op, a, v = n.op, n.args, self.v
        if op in ("c", "in", "leaf", "int", "nan"):
            return zero
        if op == "minv":
            return self.gminv(n, g, nd, zero)
        gs = [g[x.id] for x in a if isinstance(x, Node)]
        if all(x is zero for x in gs):
            return zero
        if op == "add":
            return tuple((x + y) % P for x, y in zip(*gs))
        if op == "sub":
            return tuple((x - y) % P for x, y in zip(*gs))
        if op == "neg":
            return tuple(-x % P for x in gs[0])
        if op == "mul":
            p, q = v[a[0].id], v[a[1].id]
            return tuple((x * q + p * y) % P for x, y in zip(*gs))
        if op == "div":
            q = inv(v[a[1].id])
            r = v[n.id]
            return tuple((x - r * y) * q % P for x, y in zip(*gs))
        val = v[n.id]
        if op == "sqrt":
            k = inv(2 * val)
        elif op == "fabs":
            k = 1 if val == v[a[0].id] else -1
        elif op == "pow" and a[1].op == "c":
            q, e = exact(a[1].args[0])
            k = frac(q) * val * inv(v[a[0].id])
        elif op == "cbrt":
            k = val * inv(3 * v[a[0].id])
        elif op == "sin":
            k = self.circ(a[0])[0]
        elif op == "cos":
            k = -self.circ(a[0])[1]
        elif op == "tan":
            k = 1 + val * val
        elif op == "atan2":
            y, x = v[a[0].id], v[a[1].id]
            d = inv(x * x + y * y)
            return tuple((x * gy - y * gx) * d % P for gy, gx in zip(*gs))
        elif op == "acos":
            k = -inv(sqrt(1 - v[a[0].id] ** 2))
        elif op == "asin":
            k = inv(sqrt(1 - v[a[0].id] ** 2))
        elif op == "atan":
            k = inv(1 + v[a[0].id] ** 2)
        elif op == "exp":
            k = val
        elif op in ("sinh", "cosh"):
            e = self.expo(a[0])
            ei = inv(e)
            k = (e + ei if op == "sinh" else e - ei) * inv(2)
        elif op == "tanh":
            k = 1 - val * val
        elif op == "log":
            k = inv(v[a[0].id])
        elif op == "asinh":
            k = inv(sqrt(v[a[0].id] ** 2 + 1))
        elif op == "acosh":
            k = inv(sqrt(v[a[0].id] ** 2 - 1))
        elif op == "atanh":
            k = inv(1 - v[a[0].id] ** 2)
        elif op == "copysign":
            k = 1 if val == v[a[0].id] else -1
        elif op in ("floor", "ceil", "trunc", "round"):
            return zero
        elif op in ("fmod", "remainder"):
            k = 1
        else:
            if self.hook:
                r = self.hook(self, n, g, nd)
                if r is not None:
                    return r
            # uninterpreted: derivative symbols per argument
            out = [0] * nd
            for j, x in enumerate(y for y in a if isinstance(y, Node)):
                c = self.prf("dop", op, j, tuple(v[y.id] if isinstance(y, Node) else y for y in a))
                for i in range(nd):
                    out[i] = (out[i] + c * g[x.id][i]) % P
            return tuple(out)
        return tuple(k * x % P for x in gs[0])

    def gminv(self, n, g, nd, zero):
        a = n.args
        m = a[1]
        key = ("gminv", id(g)) + tuple(x.id for x in a[2:])
        r = self.v.get(key)
        if r is None:
            iv = matinv([self.v[x.id] for x in a[2:]], m)
            # storage order does not matter: d(A^-1) = -A^-1 dA A^-1 in either
            r = []
            per = []
            for d in range(nd):
                dA = [g[x.id][d] for x in a[2:]]
                t = matmul(iv, dA, m)
                t = matmul(t, iv, m)
                per.append([-x % P for x in t])
            r = per
            self.v[key] = r
        return tuple(r[d][a[0]] for d in range(nd))


def topo_missing(n, have):
    order, st, seen = [], [n], set()
    out = {}
    while st:
        x = st.pop()
        if x.id in have or x.id in out:
            continue
        out[x.id] = x
        for y in x.args:
            if isinstance(y, Node):
                st.append(y)
    return [out[i] for i in sorted(out)]


def matmul(a, b, m):
    return [sum(a[i * m + k] * b[k * m + j] for k in range(m)) % P for i in range(m) for j in range(m)]


def matinv(a, m):
    A = [[a[i * m + j] for j in range(m)] + [int(i == j) for j in range(m)] for i in range(m)]
    for c in range(m):
        p = next((r for r in range(c, m) if A[r][c] % P), None)
        if p is None:
            raise Reject("singular matrix")
        A[c], A[p] = A[p], A[c]
        k = inv(A[c][c])
        A[c] = [x * k % P for x in A[c]]
        for r in range(m):
            if r != c and A[r][c]:
                k = A[r][c]
                A[r] = [(x - k * y) % P for x, y in zip(A[r], A[c])]
    return [A[i][m + j] for i in range(m) for j in range(m)]


def check_cond(ev, c, zero_ok=False):
    a, b, rel, loc = c[:4]
    if a.op == "c" and a.args[0] in (float("inf"), float("-inf")):
        return
    d = (ev.num(a) - ev.num(b)) % P
    if rel == "eq":
        if d:
            raise Reject("eq")
        return
    if d == 0:
        if zero_ok:
            return
        raise Reject("ne")
    if rel == "ne":
        return
    pos = isqr(d)
    if pos != (rel in ("gt", "ge")):
        raise Reject("cond")


def solve_roots(mk, roots, pivots):
    """Assign pivot inputs so that the root equations hold (each affine in its pivot)."""


class Sampler:
    """Draws samples of the value numbering consistent with one trace."""

    def __init__(self, path, assign=None, pivots=None, positive=(), hook=None, seed=1, extra_conds=(), need=(),
                 filt=None, slope=True, byid=None):
        self.need = need
        self.filt = filt
        self.slope = slope
        self.byid = byid or {}
        self.path = path
        self.assign = assign
        self.pivots = pivots or []
        self.positive = positive
        self.hook = hook
        self.seed = seed
        self.extra = extra_conds
        self.tried = 0

    def draw(self, max_tries=20000):
        for t in range(max_tries):
            self.tried += 1
            s = (self.seed, self.tried)
            try:
                return self.one(s)
            except Reject:
                continue
        return None

    def one(self, s):
        rng = random.Random(repr(s))
        a = self.assign(rng) if self.assign else {}
        for nm in self.positive:
            if nm not in a:
                while True:
                    x = rng.randrange(1, P)
                    if isqr(x):
                        break
                a[nm] = x
        byid = dict(self.byid)
        roots = [r for r in self.path.roots if r["done"]]
        pivots = list(self.pivots) + [None] * len(roots)
        for k, r in enumerate(roots):
            pv = pivots[k]
            # the same equation solved twice has the same root
            if k and self.unify(r, roots[:k], s, a, byid):
                pivots.insert(k, None)
                continue
            if pv is None:
                continue
            if isinstance(pv, str):
                p1, p2 = rng.randrange(1, P), rng.randrange(1, P)
                vals = []
                for p in (p1, p2):
                    b = dict(a)
                    b[pv] = p
                    e = Eval(s, b, byid, self.hook)
                    vals.append(e.num(r["f0"]))
                sl = (vals[1] - vals[0]) * inv(p2 - p1) % P
                if sl == 0:
                    raise Reject("pivot")
                a[pv] = (p1 - vals[0] * inv(sl)) % P
            else:
                raise Unknown("pivot kind")
        ev = Eval(s, a, byid, self.hook)
        for c in list(self.extra) + self.path.conds:
            check_cond(ev, c)
        for r, pv in zip(roots, pivots):
            if pv is not None and ev.num(r["f0"]) != 0:
                raise Reject("pivot not affine")
            if self.slope:
                # the equations solved are monotone: the slope at the root has the sign it has at the origin
                seeds = self.path.extra.setdefault("xseed%d" % r["var"].id, {r["var"].id: 0})
                b2 = dict(byid)
                b2[r["var"].id] = 0
                try:
                    ref = Eval(s, a, b2, self.hook).grad(r["f0"], seeds)[0]
                except Reject:
                    from .series import slope_at_zero
                    ref = slope_at_zero(ev, r["f0"], r["var"])
                if isqr(ref) != isqr(ev.grad(r["f0"], seeds)[0]):
                    raise Reject("slope")
        for n in self.need:
            ev.num(n)
        if self.filt:
            self.filt(ev)
        return ev


    def unify(self, r, prev, s, a, byid):
        for q in prev:
            if q["f0"] is r["f0"] or q["kind"] != r["kind"]:
                continue
            b = dict(byid)
            e = Eval(s, a, byid, self.hook)
            b[r["var"].id] = e.num(q["var"])
            try:
                e = Eval(s, a, b, self.hook)
                if e.num(r["f0"]) == e.num(q["f0"]):
                    byid.update(b)
                    return True
            except Reject:
                pass
        return False


def root_seeds(inputs, roots):
    """Seed map for inputs (list of nodes) followed by root unknowns."""
    seeds = {}
    for i, n in enumerate(inputs):
        seeds[n.id] = i
    for r in roots:
        seeds[r["var"].id] = len(seeds)
    return seeds


def total_grad(ev, n, inputs, roots, seeds):
    """Gradient with the root unknowns eliminated by the implicit function theorem."""
    k = len(inputs)
    dX = []
    for j, r in enumerate(roots):
        g = ev.grad(r["f0"], seeds)
        den = g[k + j]
        row = list(g[:k])
        for jj in range(j):
            for i in range(k):
                row[i] = (row[i] + g[k + jj] * dX[jj][i]) % P
        q = -inv(den)
        dX.append([x * q % P for x in row])
    g = ev.grad(n, seeds)
    out = list(g[:k])
    for j in range(len(roots)):
        for i in range(k):
            out[i] = (out[i] + g[k + j] * dX[j][i]) % P
    return out


def equal_mod_turn(ev, x, y):
    d = (x - y) * inv(2 * ev.pi) % P
    return d <= 6 or P - d <= 6
