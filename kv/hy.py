"""The stand-in for heyoka: symbols, and integrators as uninterpreted flows of the (separately checked) dynamics."""
from .field import P, inv, isqr, sqrt
from .interp import Ptr
from .sf import h

F64 = ("l", "double", 8)


def cstr(I, p):
    s = ""
    while isinstance(p, Ptr) and len(s) < 64:
        c = I.load_leaf(Ptr(p.obj, p.off + len(s)), "i8", 1)
        if not isinstance(c, int) or c == 0:
            break
        s += chr(c)
    return s


def var(I, mod, dem, args, ins):
    return I.dag.leaf("var " + cstr(I, args[0]))


def par(I, mod, dem, args, ins):
    return I.dag.leaf(f"par {args[0]}") if isinstance(args[0], int) else I.fresh("unk", "par")


SYM = {"kv_hy_var": var, "kv_hy_par": par}


# ---------------------------------------------------------------------------------------------------- the Stark flow
def advance(I, mod, dem, args, ins):
    """State and sensitivities advanced by dt: uninterpreted values of (state, mu, veff, thrust, dt, tol)."""
    st, pars, dt, tol, neq, ncodes, codes = args
    loc = I.mkloc(mod, ins)
    at = lambda p, i: I.fl(I.load_leaf(Ptr(p.obj, p.off + 8 * i), "double", 8))
    d = I.dag
    x = [at(st, i) for i in range(neq)]
    a = tuple(x) + tuple(at(pars, i) for i in range(5)) + (I.fl(dt), I.fl(tol))
    y = [d.mk("hflow", (i,) + a, loc) for i in range(neq)]
    new = list(y)
    if ncodes:
        cs = [I.load_leaf(Ptr(codes.obj, codes.off + 4 * j), "i32", 4) for j in range(ncodes)]
        S0 = [[at(st, neq + ncodes * i + j) for j in range(ncodes)] for i in range(neq)]
        sens = lambda i, k: d.mk("hsens", (i, k) + a, loc)
        for i in range(neq):
            for j, c in enumerate(cs):
                if not isinstance(c, int):
                    new.append(I.fresh("unk", "sensitivity"))
                    continue
                # chain rule through the initial sensitivities
                s = None
                for k in range(neq):
                    z = S0[k][j]
                    if z.op == "c" and z.args[0] == 0:
                        continue
                    t = sens(i, k) if z.op == "c" and z.args[0] == 1 else d.mul(sens(i, k), z, loc)
                    s = t if s is None else d.add(s, t, loc)
                if c >= 100:
                    t = sens(i, c)
                    s = t if s is None else d.add(s, t, loc)
                new.append(s if s is not None else d.const(0.0))
    for i, v in enumerate(new):
        I.store(F64, v, Ptr(st.obj, st.off + 8 * i))
    I.res.extra.setdefault("advances", []).append((a, loc))
    return 0


IC = dict(SYM, kv_hy_advance=advance)


def stark(x, mu, ve, u):
    r2 = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) % P
    k = -mu * inv(r2 * sqrt(r2)) % P
    u2 = sum(w * w for w in u) % P
    im = inv(x[6])
    return [x[3], x[4], x[5]] + [(k * x[i] + u[i] * im) % P for i in range(3)] + [-(sqrt(u2) if u2 else 0) * inv(ve) % P]


def flow(seed, v):
    """(state, 7x7 sensitivity to the state, 7x3 to the thrust): unknown but for the mass, which falls at the rate
    |u|/veff, and for the flow property M f(x0) = f(x1)."""
    x, mu, ve, u, dt, tol = v[:7], v[7], v[8], v[9:12], v[12], v[13]
    key = tuple(v)
    if dt % P == 0:
        return list(x), [[int(i == j) for j in range(7)] for i in range(7)], [[0] * 3 for _ in range(7)]
    u2 = sum(w * w for w in u) % P
    un = sqrt(u2) if u2 else 0
    k = 0
    while True:
        y = [h(seed, "y", k, i, key) for i in range(6)]
        if isqr(sum(w * w for w in y[:3])):
            break
        k += 1
    y.append((x[6] - un * dt * inv(ve)) % P)
    M = [[h(seed, "M", i, j, key) for j in range(7)] for i in range(6)] + [[0] * 6 + [1]]
    U = [[h(seed, "U", i, j, key) for j in range(3)] for i in range(6)]
    U.append([-dt * inv(ve) * w * inv(un) % P for w in u] if un else [0] * 3)
    f0, f1 = stark(x, mu, ve, u), stark(y, mu, ve, u)
    c = next((j for j in range(6) if f0[j] % P), None)
    if c is not None:
        i0 = inv(f0[c])
        for i in range(7):
            M[i][c] = (f1[i] - sum(M[i][j] * f0[j] for j in range(7) if j != c)) * i0 % P
    return y, M, U


def flown(ev, v):
    memo = ev.__dict__.setdefault("hflows", {})
    k = tuple(w % P for w in v)
    if k not in memo:
        memo[k] = flow(ev.seed, list(k))
    return memo[k]


def hook(ev, n, g=None, nd=None):
    if n.op not in ("hflow", "hsens"):
        return None
    k = 1 if n.op == "hflow" else 2
    a = n.args
    v = [ev.num(x) for x in a[k:]]
    y, M, U = flown(ev, v)
    if g is None:
        if n.op == "hflow":
            return y[a[0]]
        return M[a[0]][a[1]] if a[1] < 100 else U[a[0]][a[1] - 102]
    if n.op != "hflow":
        return None
    f = stark(y, v[7], v[8], v[9:12])
    i = a[0]
    out = [0] * nd
    for d in range(nd):
        s = f[i] * g[a[1 + 12].id][d]
        for j in range(7):
            s += M[i][j] * g[a[1 + j].id][d]
        for j in range(3):
            s += U[i][j] * g[a[1 + 9 + j].id][d]
        out[d] = s % P
    return tuple(out)


BASE = ["r0x", "r0y", "r0z", "v0x", "v0y", "v0z", "ms", "r1x", "r1y", "r1z", "v1x", "v1y", "v1z", "mf", "tof",
        "thrust", "isp", "mu", "cut", "tol"]
SRC = ["leg/sims_flanagan_hf.cpp", "leg/sf_checks.cpp", "stark_problem.cpp"]


def names(n, pre=""):
    return [pre + x for x in BASE] + [pre + f"u{i}{c}" for i in range(n) for c in "xyz"]


def assign(n, pre="", thrust=True):
    """Valid parameters, both boundary positions at a distance; tol within (0,1)."""
    from .states import qr
    from . import sf
    base = sf.assign(n, pre)

    def f(rng):
        a = base(rng)
        while True:
            t = qr(rng)
            if isqr(1 - t):
                break
        a[pre + "tol"] = t
        for s in "01":
            while True:
                r = [rng.randrange(1, P) for _ in range(3)]
                if isqr(sum(w * w for w in r)):
                    break
            for c, w in zip("xyz", r):
                a[f"{pre}r{s}{c}"] = w
        return a
    return f
