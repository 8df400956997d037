"""Models shared by the Lambert checks."""
from .field import P, inv, isqr, sqrt

N = ["ax", "ay", "az", "bx", "by", "bz", "tof", "mu"]
F64 = ("l", "double", 8)


def householder(I, mod, dem, args, ins):
    """The solver's contract: the unknown becomes a free value."""
    h = I.res.extra.setdefault("house", [])
    x = I.fresh("x", len(h))
    h.append({"T": I.fl(args[1]), "guess": I.load_leaf(args[2], "double", 8), "N": args[3], "var": x,
              "loc": I.cur_loc()})
    I.store(F64, x, args[2])
    return 5


def x2tof(I, mod, dem, args, ins):
    I.store(F64, I.fresh("tofx"), args[1])


IC = {"kep3::lambert_problem::householder": householder, "kep3::lambert_problem::x2tof": x2tof}


def norm(v):
    return sqrt(sum(x * x for x in v))


def cross(a, b):
    return [(a[1] * b[2] - a[2] * b[1]) % P, (a[2] * b[0] - a[0] * b[2]) % P, (a[0] * b[1] - a[1] * b[0]) % P]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P


def isnormed(v):
    return isqr(sum(x * x for x in v))


def vec(rng):
    while True:
        v = [rng.randrange(1, P) for _ in range(3)]
        if isnormed(v):
            return v


def triangle(rng):
    """Two positions whose chord, semiperimeter and its excesses are 'positive'."""
    i2 = inv(2)
    while True:
        a = vec(rng)
        b = vec(rng)
        d = [(x - y) % P for x, y in zip(b, a)]
        if not isnormed(d) or not isnormed(cross(a, b)):
            continue
        A, B, C = norm(a), norm(b), norm(d)
        s = (A + B + C) * i2 % P
        if all(isqr(x) for x in (s, s - A, s - B, s - C)):
            return a, b, A, B, C, s


def lam(cw, a, b, c, s):
    l = sqrt(1 - c * inv(s))
    up = isqr(cross(a, b)[2])
    return l if up != cw else -l % P
