"""The propagator's contract as seen by the impulsive leg: the flow of an autonomous, time-reversible field.

propagate(x, t, mu) becomes six uninterpreted values, its state transition matrix 36 more; the only facts used are
d/dt = (v, -mu r/|r|^3), d/dx = the transition matrix, and reversibility (negating velocities reverses time)."""
import hashlib
from .field import P, inv, isqr, sqrt
from .interp import Ptr

F64 = ("l", "double", 8)
PROPS = ("kep3::propagate_lagrangian", "kep3::propagate_lagrangian_u", "kep3::propagate_keplerian")


def propagate(I, mod, dem, args, ins):
    sret, ptr, tof, mu, stm = args[:5]
    x = [I.load_leaf(Ptr(ptr.obj, ptr.off + 8 * i), "double", 8) for i in range(6)]
    x = [I.fl(v) for v in x]
    a = tuple(x) + (I.fl(tof), I.fl(mu))
    loc = I.mkloc(mod, ins)
    for i in range(6):
        I.store(F64, I.dag.mk("kflow", (i,) + a, loc), Ptr(sret.obj, sret.off + 8 * i))
    flag = I.truth(stm) if not isinstance(stm, int) else bool(stm & 1)
    if flag:
        for i in range(36):
            I.store(F64, I.dag.mk("kstm", (i,) + a, loc), Ptr(sret.obj, sret.off + 48 + 8 * i))
    I.store(("l", "i8", 1), int(flag), Ptr(sret.obj, sret.off + 48 + 288))
    I.res.extra.setdefault("props", []).append(a)


IC = {k: propagate for k in PROPS}


def flow(seed, x, t, mu):
    """(state, transition matrix): y_r = A r + B t v, y_v = C t (v.v)/(r.r) r + D v with A..D unknown functions of the
    rotation and unit invariants, as planar, reversible, isotropic and dimensionally consistent as the true flow."""
    r, v = x[:3], x[3:]
    rr, vv, rv = (sum(p * q for p, q in zip(*w)) % P for w in ((r, r), (v, v), (r, v)))
    irr, imu = inv(rr), inv(mu)
    # invariants and their derivatives with respect to rr, vv, rv
    I = [vv * vv * rr * imu * imu % P, rv * t * irr % P, t * t * vv * irr % P]
    dI = [(vv * vv * imu * imu, 2 * vv * rr * imu * imu, 0), (-rv * t * irr * irr, 0, t * irr),
          (-t * t * vv * irr * irr, t * t * irr, 0)]
    k = 0
    while True:
        c = [h(seed, k, i, tuple(I)) for i in range(4)]
        y = [(c[0] * r[i] + c[1] * t * v[i]) % P for i in range(3)]
        if isqr(sum(p * p for p in y)) or k > 200:
            break
        k += 1
    w = t * vv * irr % P
    y += [(c[2] * w * r[i] + c[3] * v[i]) % P for i in range(3)]
    dc = []
    for i in range(4):
        s = [h(seed, "d", i, j, tuple(I)) for j in range(3)]
        d = [sum(s[j] * dI[j][q] for j in range(3)) % P for q in range(3)]
        dc.append([(2 * d[0] * r[m] + d[2] * v[m]) % P for m in range(3)]
                  + [(2 * d[1] * v[m] + d[2] * r[m]) % P for m in range(3)])
    dw = [-2 * w * irr * r[m] % P for m in range(3)] + [2 * t * irr * v[m] % P for m in range(3)]
    M = [[0] * 6 for _ in range(6)]
    for i in range(3):
        for j in range(6):
            M[i][j] = r[i] * dc[0][j] + t * v[i] * dc[1][j]
            M[3 + i][j] = r[i] * (dc[2][j] * w + c[2] * dw[j]) + v[i] * dc[3][j]
        M[i][i] += c[0]
        M[i][3 + i] += c[1] * t
        M[3 + i][i] += c[2] * w
        M[3 + i][3 + i] += c[3]
    return y, [[q % P for q in row] for row in M]


def h(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "little") % (P - 2) + 1


def rhs(y, mu):
    r2 = (y[0] * y[0] + y[1] * y[1] + y[2] * y[2]) % P
    k = -mu * inv(r2 * sqrt(r2)) % P
    return [y[3], y[4], y[5], k * y[0] % P, k * y[1] % P, k * y[2] % P]


def hook(ev, n, g=None, nd=None):
    if n.op not in ("kflow", "kstm"):
        return None
    a = n.args
    v = [ev.num(x) for x in a[1:]]
    memo = ev.__dict__.setdefault("flows", {})
    k = tuple(v)
    if k not in memo:
        memo[k] = flow(ev.seed, v[:6], v[6], v[7])
    y, M = memo[k]
    if g is None:
        return y[a[0]] if n.op == "kflow" else M[a[0] // 6][a[0] % 6]
    if n.op != "kflow":
        return None
    f = rhs(y, v[7])
    out = [0] * nd
    for d in range(nd):
        s = f[a[0]] * g[a[7].id][d]
        for j in range(6):
            s += M[a[0]][j] * g[a[1 + j].id][d]
        out[d] = s % P
    return tuple(out)


BASE = ["r0x", "r0y", "r0z", "v0x", "v0y", "v0z", "ms", "r1x", "r1y", "r1z", "v1x", "v1y", "v1z", "mf", "tof",
        "thrust", "isp", "mu", "cut"]
SRC = ["leg/sims_flanagan.cpp", "leg/sf_checks.cpp"]


def names(n, pre=""):
    return [pre + x for x in BASE] + [pre + f"u{i}{c}" for i in range(n) for c in "xyz"]


def assign(n, pre="", free=()):
    """Valid parameters: positive masses, times, thrust..., throttles of positive norm; cut within (0,1)."""
    from .states import qr

    def f(rng):
        a = {}
        for x in ("ms", "mf", "tof", "thrust", "isp", "mu"):
            a[pre + x] = qr(rng)
        while True:
            c = qr(rng)
            if isqr(1 - c):
                break
        a[pre + "cut"] = c
        for i in range(n):
            while True:
                u = [rng.randrange(1, P) for _ in range(3)]
                if isqr(sum(x * x for x in u)):
                    break
            for k, x in zip("xyz", u):
                a[pre + f"u{i}{k}"] = x
        for k in free:
            a.pop(pre + k, None)
        return a
    return f


def expo(ev, x):
    """exp of a field value, consistent with the exponentials of the value graph."""
    from fractions import Fraction
    r = ev.num2exp.get(x % P)
    return r if r is not None else ev.expatom(("v", x % P), Fraction(1))


def g0():
    from .dag import exact
    from .field import frac
    return frac(exact(9.80665)[0])


def propagate_num(ev, x, t, mu):
    memo = ev.__dict__.setdefault("flows", {})
    k = tuple(v % P for v in x) + (t % P, mu % P)
    if k not in memo:
        memo[k] = flow(ev.seed, list(k[:6]), k[6], k[7])
    return list(memo[k][0])


def half(ev, x, m, us, dt, thrust, ve, mu, sgn):
    """One half of the documented transfer: sgn=1 forward, -1 backward."""
    i2 = inv(2)
    if us:
        x = propagate_num(ev, x, sgn * dt * i2, mu)
    for i, u in enumerate(us):
        k = thrust * dt * inv(m) % P
        for j in range(3):
            x[3 + j] = (x[3 + j] + sgn * k * u[j]) % P
        u2 = sum(y * y for y in u) * k % P
        ndv = k * sqrt(sum(y * y for y in u)) % P if u2 else 0
        m = m * expo(ev, -sgn * ndv * inv(ve)) % P
        x = propagate_num(ev, x, sgn * dt * (i2 if i == len(us) - 1 else 1), mu)
    return x, m


def counts(v):
    """Possible truncations of segments * cut, the cut being in [0,1]."""
    n = 1
    if v.op == "mul":
        for x in v.args:
            if x.op == "c" and 0 <= x.args[0] < 100:
                n = int(x.args[0])
    return range(0, n + 1)


def few(v):
    """As counts, but only some of the splits when there are many."""
    r = counts(v)
    n = len(r) - 1
    return r if n < 13 else sorted({0, 1, n // 3, n // 2, n - 1, n})


def two(v):
    """As counts, but two of the splits only."""
    n = len(counts(v)) - 1
    return sorted({n // 3, n})
