import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.report import main
from kv.build import AnalysisError
from kv.dag import Node
from kv.field import P, Reject
from kv.pyi import Arr, Inst, PyRaise, Sym, Text, isnum, uf, un, CUR
from kv.pymodel import Axes, Epoch, Planet, Udpla, constants
from kv.pymodel import interp as plain
from kv.pyeval import differ, flat, nd, samples

RULE = ("The plotting, planet and utility functions are interpreted from their syntax tree on symbolic legs, states, epochs and "
        "planets, with the propagator, ephemerides, SPICE and SGP4 as uninterpreted functions (Keplerian propagation "
        "composes).  Every curve, marker and arrow drawn must be that of the trajectory documented (Sims-Flanagan "
        "transcription, ballistic arc, Lambert arc from r0 to r1, planet orbit) divided by the units; ephemerides must be "
        "those of the library queried, at the epoch given, in SI units, alike in scalar and vector form.")
DAY = 86400


def known(op, a, b):
    """Gravitational parameters of the library's planets are positive."""
    for x, y, up in ((a, b, False), (b, a, True)):
        if x.op in ("uf_pl_mucentral", "uf_pl_mu_self", "uf_pl_radius", "uf_pl_safe_radius") and y.op == "c" and y.args[0] <= 0:
            return op != "eq" and up
    return None


def interp():
    return plain(known)


def leaf(I, n):
    return Sym(I.dag.leaf(n))


def leaves(I, n, k):
    return [leaf(I, f"{n}{i}") for i in range(k)]


class Ctx:
    def __init__(self, rep, key, where):
        self.rep, self.key, self.where = rep, key, where

    def same(self, I, what, a, b):
        d = differ(I, a, b)
        if d is None:
            self.rep.undecided(f"{self.key}: {what}", "no admissible sample")
        else:
            self.rep.check(d == -1, f"{self.key}: {what}", self.where,
                           what + (f" differs at entry {d}" if not isinstance(d, str) else ": " + d))

    def check(self, c, what, detail=""):
        self.rep.check(c, f"{self.key}: {what}", self.where, detail or what)


def traces(ctx, I, thunk, what="interprets without an exception", **k):
    r = I.explore(thunk, **k)
    bad = [v for o, v, _ in r if o == "raise"]
    if bad:
        ctx.check(False, what, f"{type(bad[0].exc).__name__}: {bad[0].exc} ({bad[0].where})")
        return []
    ctx.rep.count("traces", len(r))
    return [(v, c) for o, v, c in r]


def pk(I, *path):
    m = I.imp("pykep")
    for p in path:
        m = I.getattr(m, p)
    return m


def call(I, path, *a, **k):
    return I.call(pk(I, *path.split(".")), list(a), k)


def meth(I, o, m, *a, **k):
    return I.call(I.getattr(o, m), list(a), k)


# --- what is drawn ------------------------------------------------------------------------------------------------------
def cols(a, n=3):
    c = [flat(v) for v in a[:n]]
    if len(c) < n or len({len(v) for v in c}) != 1:
        return None
    return list(zip(*c))


def drawing(ax):
    """(curves, marked points, arrows): lists of points; markers are scatter calls and plots in a marker style."""
    curves, marks, arrows, odd = [], [], [], []
    for n, a, k, w in ax.calls:
        if n in ("plot", "plot3D"):
            p = cols(a)
            if p is None:
                odd.append(w)
            elif (len(a) > 3 and isinstance(a[3], str) and "-" not in a[3]) or k.get("linestyle", k.get("ls")) in ("", "None"):
                marks += p
            else:
                curves.append(p)
        elif n in ("scatter", "scatter3D"):
            p = cols(a)
            if p is None:
                odd.append(w)
            else:
                marks += p
        elif n == "quiver":
            p = cols(a, 6)
            if p is None:
                odd.append(w)
            else:
                arrows += [q + (k.get("length"),) for q in p]
    return curves, marks, arrows, odd


def fps(I, ev, x):
    """Fingerprint of a nested value."""
    if isinstance(x, (list, tuple)):
        return tuple(fps(I, ev, y) for y in x)
    return x if x is None or isinstance(x, str) else ev.num(nd(I, x))


def curve(f):
    return min(f, f[::-1])


def compare(ctx, I, ax, curves=(), marks=(), arrows=(), only_curves=False):
    c, m, a, odd = drawing(ax)
    if odd:
        ctx.rep.undecided(f"{ctx.key}: drawing", f"coordinates at {odd[0]}")
        return

    def f(ev):
        cv = lambda s: sorted(curve(fps(I, ev, x)) for x in s)
        st = lambda s: sorted(set(fps(I, ev, list(s))))
        return cv(c) == cv(curves), st(m) == st(marks), st(a) == st(arrows)
    s = samples(f)
    if s is None:
        ctx.rep.undecided(f"{ctx.key}: drawing", "no admissible sample")
        return
    ok = [any(r[k] for r in s) for k in range(3)]
    ctx.check(ok[0], "curves drawn are those of the trajectory", f"{len(c)} curves drawn, {len(list(curves))} expected, or other points")
    if not only_curves:
        ctx.check(ok[1], "points marked are those of the trajectory", f"{len(m)} points marked, {len(list(marks))} expected, or others")
        ctx.check(ok[2], "arrows are the throttles where they apply", f"{len(a)} arrows drawn, {len(list(arrows))} expected, or others")


def lin(a, b, n):
    return [a + (b - a) * (k / (n - 1)) for k in range(n)]


def arc(I, rv, tof, mu, n):
    out = []
    for k in range(n):
        # k/(n-1) as an exact ratio of the time of flight
        out.append(call(I, "propagate_lagrangian", rv, tof * k / (n - 1), mu, False)[0])
    return out


def scaled(pts, u):
    return [[v / u for v in p] for p in pts]


# --- arcs ---------------------------------------------------------------------------------------------------------------
def check_ballistic(rep, n):
    ctx = Ctx(rep, f"add_ballistic_arc(N={n})", "pykep/plot/_ballistic.py")
    I = interp()

    def run(I):
        rv = [leaves(I, "r", 3), leaves(I, "v", 3)]
        keep = [list(rv[0]), list(rv[1])]
        ax, tof, mu, u = Axes(), leaf(I, "tof"), leaf(I, "mu"), leaf(I, "units")
        ret = call(I, "plot.add_ballistic_arc", ax, rv, tof, mu, units=u, N=n)
        ax2 = Axes()
        call(I, "plot.add_ballistic_arc", ax2, rv, tof, mu, N=n)
        return ax, ret, scaled(arc(I, rv, tof, mu, n), u), rv == keep, ax2, scaled(arc(I, rv, tof, mu, n), constants()["AU"])
    for (ax, ret, pts, same, ax2, pts2), _ in traces(ctx, I, run):
        CUR[0] = I
        compare(ctx, I, ax, [pts])
        compare(ctx, I, ax2, [pts2])
        ctx.check(ret is ax, "returns the axes")
        ctx.check(same, "the state given is left as it was")


def dot(a, b):
    s = a[0] * b[0]
    for p, q in zip(a[1:], b[1:]):
        s = s + p * q
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return dot(a, a) ** 0.5


def kepler_theta(r0, v0, th, mu):
    """State at the true anomaly difference th on the orbit through (r0, v0)."""
    R, h = norm(r0), cross(r0, v0)
    H = norm(h)
    er = [x / R for x in r0]
    et = [x / (R * H) for x in cross(h, r0)]
    vh = cross(v0, h)
    e = [x / mu - y for x, y in zip(vh, er)]
    c, s = un("cos", th), un("sin", th)
    d = [c * x + s * y for x, y in zip(er, et)]          # direction at th
    r = H * H / mu / (dot(e, d) + 1)
    vel = [x * (mu / (H * H)) for x in cross(h, [x + y for x, y in zip(e, d)])]
    return [r * x for x in d], vel


def check_theta(rep):
    ctx = Ctx(rep, "propagate_lagrangian_theta_v", "pykep/plot/__init__.py")
    I = interp()

    def run(I):
        r0, v0, mu = leaves(I, "r", 3), leaves(I, "v", 3), leaf(I, "mu")
        th = leaves(I, "th", 3)
        res = call(I, "plot.propagate_lagrangian_theta_v", rv=[r0, v0], thetas=Arr.of(th), mu=mu, stm=False)
        res2 = call(I, "plot.propagate_lagrangian_theta_v", [Arr.of(r0), Arr.of(v0)], th, mu)
        ref = [[v for h in kepler_theta(r0, v0, t, mu) for v in h] for t in th]
        try:
            call(I, "plot.propagate_lagrangian_theta_v", rv=[r0, v0], thetas=th, mu=mu, stm=True)
            refused = False
        except PyRaise as e:
            refused = isinstance(e.exc, NotImplementedError)
        z = call(I, "plot.propagate_lagrangian_theta_v", rv=[r0, v0], thetas=[0.0], mu=mu)
        return res, res2, ref, refused, z, r0 + v0
    for (res, res2, ref, refused, z, x0), _ in traces(ctx, I, run):
        CUR[0] = I
        ctx.check(isinstance(res, Arr) and res.shape == (3, 6), "one row of six per angle")
        ctx.same(I, "states at the true anomaly differences asked for", res, ref)
        ctx.same(I, "arrays and lists alike", res2, ref)
        ctx.same(I, "the initial state at angle zero", z, x0)
        ctx.check(refused, "the state transition matrix is refused")


def fval(n, env, memo):
    """A node over the reals; None if it has other operations."""
    if n.id in memo:
        return memo[n.id]
    import math
    r = None
    if n.op == "c":
        r = n.args[0]
    elif n.op in ("in", "uf_lambert_v0"):
        r = env(n)
    else:
        a = [fval(x, env, memo) if isinstance(x, Node) else None for x in n.args]
        if None not in a:
            try:
                r = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
                     "div": lambda x, y: x / y, "neg": lambda x: -x, "sqrt": math.sqrt, "fabs": abs, "acos": math.acos,
                     "atan2": math.atan2, "cos": math.cos, "sin": math.sin, "fmin": min, "fmax": max,
                     "uf_clip": lambda x, y, z: min(max(x, y), z)}[n.op](*a)
            except (KeyError, ValueError, ZeroDivisionError, TypeError):
                r = None
    memo[n.id] = r
    return r


def check_lambert(rep, sol, nmax):
    """Points on the orbit of the solution, from r0 through the transfer angle in the sense of motion (sol 0) or all around."""
    import math
    import random
    N = 4
    ctx = Ctx(rep, f"add_lambert(sol={sol}, Nmax={nmax})", "pykep/plot/_lambert.py")
    I = interp()

    def run(I):
        r0, r1 = leaves(I, "p", 3), leaves(I, "q", 3)
        lp = call(I, "lambert_problem", r0=r0, r1=r1, tof=leaf(I, "tof"), mu=leaf(I, "mu"), multi_revs=nmax)
        ax, u = Axes(), leaf(I, "units")
        try:
            ret = call(I, "plot.add_lambert", ax, lp, N=N, sol=sol, units=u)
        except PyRaise as e:
            return e
        v0 = I.getattr(lp, "v0")[sol]
        th = leaf(I, "theta")
        # the points as a function of the angle
        return ax, ret, v0, r0, r1, u, [[x / u for x in kepler_theta(r0, list(v0), t, leaf(I, "mu"))[0]] for t in [th]][0]
    seen = []
    for v, conds in traces(ctx, I, run):
        CUR[0] = I
        if sol > 2 * nmax:
            ctx.check(isinstance(v, PyRaise) and isinstance(v.exc, (ValueError, IndexError)), "a solution that does not exist is refused")
            continue
        if isinstance(v, PyRaise):
            ctx.check(False, "a solution that exists is drawn", f"{type(v.exc).__name__}: {v.exc} ({v.where})")
            continue
        ax, ret, v0, r0, r1, u, _ = v
        ctx.check(ret is ax, "returns the axes")
        c, m, a, odd = drawing(ax)
        ctx.check(len(c) == 1 and len(c[0]) == N and not odd, "one curve of N points")
        if len(c) != 1 or len(c[0]) != N:
            continue
        seen.append((c[0], conds, v0, r0, r1, u))
    if not seen:
        return
    # real points: r1 on the plane of (r0, v0); the curve must run from r0 to the direction of r1 in the sense of motion
    rnd, bad, n = random.Random(5), [], 0
    for _ in range(40):
        r = [rnd.uniform(-2, 2) for _ in range(3)]
        w = [rnd.uniform(-1, 1) for _ in range(3)]
        h = [r[1] * w[2] - r[2] * w[1], r[2] * w[0] - r[0] * w[2], r[0] * w[1] - r[1] * w[0]]
        R, H = math.sqrt(sum(x * x for x in r)), math.sqrt(sum(x * x for x in h))
        t = [(h[1] * r[2] - h[2] * r[1]) / (R * H), (h[2] * r[0] - h[0] * r[2]) / (R * H), (h[0] * r[1] - h[1] * r[0]) / (R * H)]
        ang = rnd.uniform(0.2, 2 * math.pi - 0.2)
        k = rnd.uniform(0.5, 2)
        s = [k * (math.cos(ang) * x / R + math.sin(ang) * y) for x, y in zip(r, t)]
        # a speed that makes the orbit an ellipse reaching all angles
        mu = 1.0
        p = H * H / mu
        sp = math.sqrt(mu / R) / (H / R)
        w = [x * sp * rnd.uniform(0.95, 1.05) for x in w]
        rad = sum(x * y for x, y in zip(r, w)) / R
        w = [x - 0.9 * rad * y / R for x, y in zip(w, r)]
        env0 = {**{f"p{i}": r[i] for i in range(3)}, **{f"q{i}": s[i] for i in range(3)}, "mu": mu, "units": 1.7, "tof": 3.0}
        v0n = [x.n if isinstance(x, Sym) else None for x in seen[0][2]]

        def env(nn, w=w, env0=env0):
            for i, z in enumerate(v0n):
                if nn is z:
                    return w[i]
            return env0.get(nn.args[0]) if nn.op == "in" else None
        memo, hit = {}, None
        for cand in seen:
            ok = True
            for op, x, y, res, _ in cand[1]:
                a, b = fval(x, env, memo), fval(y, env, memo)
                if a is None or b is None:
                    ok = None
                    break
                if {"lt": a < b, "le": a <= b, "eq": a == b}[op] != res:
                    ok = False
                    break
            if ok is None:
                rep.undecided(ctx.key + ": arc", f"a condition with {x.op}, {y.op}")
                return
            if ok:
                hit = cand
                break
        if hit is None:
            rep.undecided(ctx.key + ": arc", "no trace for a geometry")
            return
        pts = [[fval(nd(I, x), env, memo) for x in q] for q in hit[0]]
        if any(x is None for q in pts for x in q):
            rep.undecided(ctx.key + ": arc", "an operation without a value")
            return
        n += 1
        end = ang if sol == 0 else 2 * math.pi
        for j, q in enumerate(pts):
            th = end * j / (N - 1)
            H2 = [r[1] * w[2] - r[2] * w[1], r[2] * w[0] - r[0] * w[2], r[0] * w[1] - r[1] * w[0]]
            hh = sum(x * x for x in H2)
            vh = [w[1] * H2[2] - w[2] * H2[1], w[2] * H2[0] - w[0] * H2[2], w[0] * H2[1] - w[1] * H2[0]]
            e = [x / mu - y / R for x, y in zip(vh, r)]
            t2 = [(H2[1] * r[2] - H2[2] * r[1]), (H2[2] * r[0] - H2[0] * r[2]), (H2[0] * r[1] - H2[1] * r[0])]
            d = [math.cos(th) * x / R + math.sin(th) * y / (R * math.sqrt(hh)) for x, y in zip(r, t2)]
            rr = hh / mu / (1 + sum(x * y for x, y in zip(e, d)))
            if any(abs(rr * x / 1.7 - y) > 1e-6 * (1 + abs(rr)) for x, y in zip(d, q)):
                bad.append((j, round(ang, 2), "direct" if H2[2] > 0 else "retrograde"))
                break
    ctx.check(not bad, "points on the solution's orbit from r0 to r1 in the sense of motion" if sol == 0 else
              "points all around the solution's orbit",
              (f"point {bad[0][0]} of {N} is off for a transfer angle of {bad[0][1]} rad of a {bad[0][2]} arc "
               f"({len(bad)} of {n} geometries)") if bad else "")
    rep.count("geometries", n)


# --- planets ------------------------------------------------------------------------------------------------------------
def check_planets(rep):
    ctx = Ctx(rep, "add_planet, add_planet_orbit", "pykep/plot/_planet.py")
    I = interp()
    N = 5

    def run(I):
        u, t = leaf(I, "units"), leaf(I, "t")
        pl = call(I, "planet", call(I, "udpla.jpl_lp", body="mars"))
        out = []

        def d(f, want, kind, *a, **k):
            ax = Axes()
            ret = call(I, f, ax, pl, *a, **k)
            out.append((f, ax, ret, want, kind))
        pos = lambda w: meth(I, pl, "eph", w)[0]
        AU = constants()["AU"]
        ep = call(I, "epoch", t)
        d("plot.add_planet", [[v / u for v in pos(t)]], "m", when=t, units=u)
        d("plot.add_planet", [[v / u for v in pos(t)]], "m", ep, u)
        d("plot.add_planet", [[v / AU for v in pos(t)]], "m", when=ep, c="k")
        a, b = leaf(I, "ta"), leaf(I, "tb")
        T = meth(I, pl, "period") / DAY
        d("plot.add_planet_orbit", [[v / u for v in pos(a + (b - a) * k / (N - 1))] for k in range(N)], "c",
          plot_range=[a, b], units=u, N=N)
        d("plot.add_planet_orbit", [[v / u for v in pos(T * k / (N - 1))] for k in range(N)], "c", units=u, N=N)
        d("plot.add_planet_orbit", [[v / AU for v in pos(T * k / (N - 1))] for k in range(N)], "c", N=N, alpha=0.3)
        # a Python planet without a period
        sat = call(I, "planet", call(I, "udpla.spice", "X", "F", "O"))
        ax = Axes()
        try:
            call(I, "plot.add_planet_orbit", ax, sat, N=N)
            out.append("drawn")
        except PyRaise as e:
            out.append(e)
        ax = Axes()
        call(I, "plot.add_planet_orbit", ax, sat, plot_range=[a, b], units=u, N=N)
        out.append(("Python planet orbit", ax, ax, [[v / u for v in meth(I, sat, "eph", a + (b - a) * k / (N - 1))[0]]
                                                     for k in range(N)], "c"))
        ax = Axes()
        ret = call(I, "plot.add_sun", ax)
        out.append(("plot.add_sun", ax, ret, [[0, 0, 0]], "m"))
        return out
    for out, _ in traces(ctx, I, run):
        CUR[0] = I
        for q in out:
            if q == "drawn" or isinstance(q, PyRaise):
                ctx.check(q != "drawn" and isinstance(q.exc, NotImplementedError),
                          "the default range of a planet without a period is refused", f"{q}")
                continue
            f, ax, ret, want, kind = q
            c = Ctx(rep, f.replace("plot.", ""), ctx.where)
            c.check(ret is ax, "returns the axes")
            compare(c, I, ax, [want] if kind == "c" else [], want if kind == "m" else [])


NAMES = ["Mercury", "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"]


def check_system(rep, bodies):
    ctx = Ctx(rep, f"add_solar_system({bodies if bodies is not None else 'default'})", "pykep/plot/_planet.py")
    I = interp()

    def run(I):
        t = call(I, "epoch", leaf(I, "t"))
        ax = Axes()
        k = {} if bodies is None else {"bodies": list(bodies)}
        sizes = [101 + i for i in range(9)]
        call(I, "plot.add_solar_system", ax, when=t, s=list(sizes), **k)
        calls = list(I.eph_calls)
        ax2 = Axes()
        call(I, "plot.add_solar_system", ax2, **k)
        want = {}
        for b in bodies or range(1, 7):
            pl = call(I, "utils.planet_to_keplerian", call(I, "planet", call(I, "udpla.jpl_lp", body=NAMES[b - 1].lower())), when=t)
            want[b] = (meth(I, pl, "eph", t)[0], pl.label)
        return ax, ax2, want, sizes, calls
    for (ax, ax2, want, sizes, calls), _ in traces(ctx, I, run):
        CUR[0] = I
        AU = constants()["AU"]
        sc = [(cols(a), k) for n, a, k, w in ax.calls if n in ("scatter", "scatter3D")]
        ctx.check(len(sc) == 1 + len(want), "the Sun and the bodies asked for are marked", f"{len(sc)} markers")
        cu = [c for c in ax.calls if c[0] in ("plot", "plot3D")]
        ctx.check(len(cu) == len(want), "one orbit per body asked for", f"{len(cu)} curves")
        ctx.check(len([1 for n, a, k, w in ax2.calls if n == "scatter"]) == len(sc), "defaults draw the same bodies")
        for b, (p, lab) in want.items():
            hits = [k for pt, k in sc if pt and len(pt) == 1 and differ(I, list(pt[0]), [v / AU for v in p]) == -1]
            ctx.check(len(hits) == 1, f"{NAMES[b - 1]} is marked where it is at the epoch given")
            if len(hits) == 1:
                ctx.check(hits[0].get("s") == sizes[b], f"{NAMES[b - 1]} has its size", f"{hits[0].get('s')} for entry {b}")
                ctx.check(hits[0].get("label", NAMES[b - 1]).lower() == NAMES[b - 1].lower(), f"{NAMES[b - 1]} has its name",
                          f"{hits[0].get('label')}")
            ctx.check(any(l == lab for l, _ in calls), f"the orbit of {NAMES[b - 1]} is that of the planet")
        sun = [k for pt, k in sc if pt and pt == [(0, 0, 0)]]
        ctx.check(len(sun) == 1 and sun[0].get("s") == sizes[0], "the Sun is at the origin with its size")


def check_keplerian(rep):
    ctx = Ctx(rep, "planet_to_keplerian", "pykep/utils/_planet_to_keplerian.py")
    I = interp()

    def run(I):
        pl = call(I, "planet", call(I, "udpla.jpl_lp", body="mars"))
        t = call(I, "epoch", leaf(I, "t"))
        k1 = call(I, "utils.planet_to_keplerian", pl, t)
        k2 = call(I, "utils.planet_to_keplerian", pl, when=t, mu=leaf(I, "mu"))
        ref = [[v for h in meth(I, pl, "eph", t) for v in h],
               [meth(I, pl, m) for m in ("get_mu_self", "get_radius", "get_safe_radius")],
               meth(I, pl, "get_mu_central_body")]
        sp = call(I, "planet", call(I, "udpla.spice", "X", "F", "O"))
        err = None
        try:
            call(I, "utils.planet_to_keplerian", sp, t)
        except PyRaise as e:
            err = e
        k3 = call(I, "utils.planet_to_keplerian", sp, t, leaf(I, "mu"))
        return [k.udpla for k in (k1, k2, k3)], ref, err, [v for h in meth(I, sp, "eph", t) for v in h], pl
    for (ks, ref, err, sp, pl), _ in traces(ctx, I, run):
        CUR[0] = I
        t, mu = leaf(I, "t"), leaf(I, "mu")
        for k, m, pv, nm in ((ks[0], ref[2], ref[0], "mu of the planet"), (ks[1], mu, ref[0], "mu given"),
                             (ks[2], mu, sp, "Python planet, mu given")):
            ctx.check(isinstance(k, Udpla) and k.label[0] == "_keplerian", f"is a Keplerian planet ({nm})", str(k.label[0]))
            d = k.data
            ctx.same(I, f"osculating state at the epoch given ({nm})", d.get("posvel"), pv)
            ctx.check(isinstance(d.get("when"), Epoch) and differ(I, d["when"].t, t) == -1, f"epoch of the state ({nm})")
            ctx.same(I, f"gravitational parameter ({nm})", d.get("mu_central_body", -1), m)
        ctx.same(I, "gravitational parameter and radii of the planet are kept", ks[0].data.get("added_params"), ref[1])
        ctx.check(err is not None and isinstance(err.exc, ValueError), "a planet without a central body parameter is refused",
                  f"{err and err.exc!r}")


# --- Sims-Flanagan legs -------------------------------------------------------------------------------------------------
def check_sf(rep, nseg, cut, opts, N=3):
    name = "+".join(k[5:] for k in opts) or "plain"
    ctx = Ctx(rep, f"add_sf_leg(nseg={nseg}, cut={cut}, {name})", "pykep/plot/_sf_leg.py")
    I = interp()
    rep.count("configurations")

    def run(I):
        d = dict(rvs=[leaves(I, "rs", 3), leaves(I, "vs", 3)], ms=leaf(I, "ms"), throttles=leaves(I, "x", 3 * nseg),
                 rvf=[leaves(I, "rf", 3), leaves(I, "vf", 3)], mf=leaf(I, "mf"), tof=leaf(I, "tof"),
                 max_thrust=leaf(I, "max_thrust"), isp=leaf(I, "isp"), mu=leaf(I, "mu"), cut=cut)
        leg = call(I, "leg.sims_flanagan", **d)
        ax, u = Axes(), leaf(I, "units")
        kw = dict(opts)
        if "show_throttles" in kw:
            kw["length"] = leaf(I, "length")
        ret = call(I, "plot.add_sf_leg", ax, leg, units=u, N=N, **kw)
        nf = int(nseg * cut)
        nfwd, nbck = meth_get(I, leg, "nseg_fwd", nf), nseg - nf
        dt = d["tof"] / nseg
        c = d["max_thrust"] * dt
        G0 = constants()["G0"]
        curves, grid, mid, arrows = [], [], [], []
        for fwd, cnt in ((True, nf), (False, nbck)):
            rv = [list(v) for v in (d["rvs"] if fwd else d["rvf"])]
            m = d["ms"] if fwd else d["mf"]
            sg = 1 if fwd else -1
            grid.append(rv[0])
            for i in range(cnt):
                j = i if fwd else nseg - 1 - i
                th = d["throttles"][3 * j:3 * j + 3]
                curves.append(scaled(arc(I, rv, dt * sg / 2, d["mu"], N), u))
                rv = [list(v) for v in call(I, "propagate_lagrangian", rv, dt * sg / 2, d["mu"], False)]
                mid.append(rv[0])
                arrows.append(scaled([rv[0]], u)[0] + list(th) + [kw.get("length", 0.1)])
                rv[1] = [a + b * c * sg / m for a, b in zip(rv[1], th)]
                m = m * un("exp", norm(th) * c * (-sg) / m / d["isp"] / G0)
                curves.append(scaled(arc(I, rv, dt * sg / 2, d["mu"], N), u))
                rv = [list(v) for v in call(I, "propagate_lagrangian", rv, dt * sg / 2, d["mu"], False)]
                grid.append(rv[0])
        marks = (grid if "show_gridpoints" in opts else []) + (mid if "show_midpoints" in opts else [])
        return ax, ret, curves, scaled(marks, u), arrows if "show_throttles" in opts else [], leg, d
    for (ax, ret, curves, marks, arrows, leg, d), _ in traces(ctx, I, run):
        CUR[0] = I
        ctx.check(ret is ax, "returns the axes")
        compare(ctx, I, ax, curves, marks, arrows)
        ctx.same(I, "the leg is left as it was", [leg.get(k) for k in d], [d[k] for k in d])


def meth_get(I, o, n, default):
    return default


def check_hf(rep, nseg, cut, opts, N=3):
    name = "+".join(k[5:] for k in opts) or "plain"
    ctx = Ctx(rep, f"add_sf_hf_leg(nseg={nseg}, cut={cut}, {name})", "pykep/plot/_sf_leg.py")
    I = interp()
    rep.count("configurations")

    def run(I):
        d = dict(rvs=[leaves(I, "rs", 3), leaves(I, "vs", 3)], ms=leaf(I, "ms"), throttles=leaves(I, "x", 3 * nseg),
                 rvf=[leaves(I, "rf", 3), leaves(I, "vf", 3)], mf=leaf(I, "mf"), tof=leaf(I, "tof"),
                 max_thrust=leaf(I, "max_thrust"), isp=leaf(I, "isp"), mu=leaf(I, "mu"), cut=cut)
        leg = call(I, "leg.sims_flanagan_hf", **d)
        ax, u = Axes(), leaf(I, "units")
        kw = dict(opts)
        ln = leaf(I, "length") if "show_throttles" in kw else 0.1
        if "show_throttles" in kw:
            kw["length"] = ln
        ret = call(I, "plot.add_sf_hf_leg", ax, leg, units=u, N=N, **kw)
        H = meth(I, leg, "get_state_history", N)
        nf = int(nseg * cut)
        st = [[[v / u for v in s[7 * k:7 * k + 3]] for k in range(N)] for s in H]
        fwd = [p for s in st[:nf] for p in s]
        bck = [p for s in reversed(st[nf:]) for p in s]
        arrows, tips = [], []
        for i, s in enumerate(st):
            th = d["throttles"][3 * i:3 * i + 3]
            arrows += [p + list(th) + [ln] for p in s]
            tips.append([[a + b * ln for a, b in zip(p, th)] for p in s])
        marks = [p for s in st for p in s]
        return (ax, ret, [c for c in (fwd, bck) if c] + (tips if "show_throttles" in opts else []),
                marks if "show_gridpoints" in opts else [], arrows if "show_throttles" in opts else [])
    for (ax, ret, curves, marks, arrows), _ in traces(ctx, I, run):
        CUR[0] = I
        ctx.check(ret is ax, "returns the axes")
        # empty curves draw nothing
        ax.calls = [c for c in ax.calls if not (c[0] == "plot" and cols(c[1]) == [])]
        compare(ctx, I, ax, curves, marks, arrows)


# --- Python planets -----------------------------------------------------------------------------------------------------
def check_udpla(rep):
    I = interp()
    ctx = Ctx(rep, "udpla.tle", "pykep/udpla/_tle.py")

    def run(I):
        p = call(I, "udpla.tle", "L1", "L2")
        ts = leaves(I, "t", 3)
        e = [meth(I, p, "eph", t) for t in ts]
        a = [meth(I, p, "eph_v", x) for x in (list(ts), Arr.of(ts))]
        ref = [[1000 * uf("sgp4", [t + 2451544.5], ("L1", "L2"), i) for i in range(6)] for t in ts]
        again = meth(I, p, "eph", ts[0])
        ep = I.getattr(p, "ref_epoch")
        jd = [Sym(I.dag.mk("uf_sat_" + n, ("L1", "L2"), None)) for n in ("jdsatepoch", "jdsatepochF")]
        pl = call(I, "planet", p)
        return e, a, ref, ep, jd, again, meth(I, pl, "eph", call(I, "epoch", ts[1])), meth(I, pl, "eph_v", ts), \
            meth(I, pl, "get_mu_central_body"), meth(I, p, "get_name"), meth(I, p, "get_extra_info")
    for (e, a, ref, ep, jd, again, pe, pv, mu, nm, ei), _ in traces(ctx, I, run):
        CUR[0] = I
        ctx.same(I, "SGP4 ephemerides at the Julian date, in SI units", [flat(x) for x in e], ref)
        for x, n in zip(a, ("list", "array")):
            ctx.same(I, f"vector ephemerides are the scalar ones ({n})", x, ref)
            ctx.check(isinstance(x, Arr) and x.size == 18, f"vector ephemerides have six columns ({n})")
        ctx.same(I, "repeated queries agree", flat(again), ref[0])
        ctx.same(I, "reference epoch is that of the elements", ep.t if isinstance(ep, Epoch) else -1,
                 jd[0] + jd[1] - 2451544.5)
        ctx.same(I, "as a planet: the same ephemerides", [flat(pe), flat(pv)], [ref[1], ref])
        ctx.check(differ(I, mu, constants()["MU_EARTH"]) == -1, "orbits the Earth")
    ctx = Ctx(rep, "udpla.spice", "pykep/udpla/_spice.py")
    I2 = interp()

    def run2(I):
        out = []
        ts = leaves(I, "t", 3)
        for kind in ("spice", "de440s"):
            p = call(I, "udpla." + kind, "B", "F", "O") if kind == "spice" else \
                call(I, "udpla.de440s", body="B", ref_frame="F", obs="O")
            ref = [[1000 * uf("spice", [(t - 0.5) * DAY], "B", "F", "NONE", "O", i) for i in range(6)] for t in ts]
            out.append((kind, [meth(I, p, "eph", t) for t in ts], [meth(I, p, "eph_v", x) for x in (list(ts), Arr.of(ts))], ref,
                        flat(meth(I, p, "eph", ts[0])), meth(I, call(I, "planet", p), "eph_v", ts), meth(I, p, "get_name"),
                        meth(I, p, "get_extra_info")))
        k0 = list(I.kernels)
        d = call(I, "udpla.de440s")
        k1 = I.kernels[len(k0):]
        I.call(I.getattr(d, "__del__"), [], {})
        k2 = I.kernels[len(k0) + len(k1):]
        kf = I.call(I.getattr(I.getattr(pk(I, "udpla"), "de440s"), "kernel_file"), [], {})
        dflt = [I.getattr(d, n) for n in ("body", "ref_frame", "obs")]
        R = call(I, "utils.rotation_matrix", "A", "B", call(I, "epoch", leaf(I, "t")))
        return out, k0, k1, k2, kf, dflt, R
    for (out, k0, k1, k2, kf, dflt, R), _ in traces(ctx, I2, run2):
        CUR[0] = I2
        for kind, e, a, ref, again, pv, nm, ei in out:
            c = Ctx(rep, "udpla." + kind, ctx.where)
            c.same(I2, "SPICE ephemerides at the epoch given, in SI units", [flat(x) for x in e], ref)
            for x, n in zip(a, ("list", "array")):
                c.same(I2, f"vector ephemerides are the scalar ones ({n})", x, ref)
            c.same(I2, "repeated queries agree", again, ref[0])
            c.same(I2, "as a planet: the same ephemerides", pv, ref)
            c.check("B" in str(nm), "named after the body", str(nm))
        c = Ctx(rep, "udpla.de440s", ctx.where)
        c.check([k for k, _ in k1] == ["load"] and [k for k, _ in k2] == ["unload"] and k1[0][1] == k2[0][1],
                "one kernel is loaded on construction and unloaded on destruction", f"{k1} {k2}")
        c.check(len(k1) == 1 and str(k1[0][1]) == str(kf), "kernel_file is the kernel loaded", f"{kf} and {k1}")
        c.check(dflt == ["EARTH BARYCENTER", "ECLIPJ2000", "SSB"], "documented defaults", f"{dflt}")
        c = Ctx(rep, "utils.rotation_matrix", "pykep/utils/_spice_utils.py")
        CUR[0] = I2
        c.check(isinstance(R, Arr) and differ(I2, R, [uf("pxform", [(leaf(I2, "t") - 0.5) * DAY], "A", "B", i) for i in range(9)]) == -1,
                "the matrix at the epoch given", "not the frames' rotation at the epoch")


def check_extract(rep):
    ctx = Ctx(rep, "planet.extract", "pykep/_patch_planet.py")
    I = interp()

    def run(I):
        u = call(I, "udpla.tle", "L1", "L2")
        py = call(I, "planet", u)
        cpp = call(I, "planet", call(I, "udpla.jpl_lp", body="mars"))
        T, J, K, S = (pk(I, "udpla", n) for n in ("tle", "jpl_lp", "keplerian", "spice"))
        r = {}
        for n, p, t in (("own Python type", py, T), ("another Python type", py, S), ("a C++ type of a Python planet", py, J),
                        ("own C++ type", cpp, J), ("another C++ type", cpp, K), ("a Python type of a C++ planet", cpp, T),
                        ("object of a Python planet", py, object), ("object of a C++ planet", cpp, object)):
            r[n] = (meth(I, p, "extract", t), meth(I, p, "is_", t))
        try:
            meth(I, py, "extract", u)
            err = None
        except PyRaise as e:
            err = e
        return r, u, cpp.udpla, err
    for (r, u, c, err), _ in traces(ctx, I, run):
        want = {"own Python type": u, "own C++ type": c, "object of a Python planet": u}
        for n, (x, b) in r.items():
            ctx.check(x is want.get(n), f"extraction of {n}", f"{x}")
            ctx.check(b is (n in want), f"is_ of {n}", f"{b}")
        ctx.check(err is not None and isinstance(err.exc, TypeError), "an object that is no type is refused")


def run(rep):
    th = os.environ.get("VERIF_TIER") == "thorough"
    for n in (2, 5) + ((20,) if th else ()):
        with rep.part(f"ballistic {n}"):
            check_ballistic(rep, n)
    with rep.part("theta"):
        check_theta(rep)
    for sol, nmax in ((0, 0), (0, 2), (1, 1), (4, 2), (3, 1), (1, 0)):
        with rep.part(f"lambert {sol} {nmax}"):
            check_lambert(rep, sol, nmax)
    with rep.part("planets"):
        check_planets(rep)
    for b in [None, list(range(1, 9))] + [[k] for k in range(1, 9)]:
        with rep.part(f"solar system {b}"):
            check_system(rep, b)
    with rep.part("keplerian"):
        check_keplerian(rep)
    flags = [{}] + [{k: True} for k in ("show_midpoints", "show_gridpoints", "show_throttles")]
    every = {k: v for f in flags for k, v in f.items()}
    for nseg, cut in ((1, 0.6), (2, 0.5), (3, 0.6), (2, 1), (2, 0)) + (((5, 0.4), (6, 0.7), (10, 0.6)) if th else ()):
        for o in (flags + [every] if nseg == 3 or th else [every]):
            with rep.part(f"sf {nseg} {cut} {o}"):
                check_sf(rep, nseg, cut, o)
            o = {k: v for k, v in o.items() if k != "show_midpoints"}
            with rep.part(f"hf {nseg} {cut} {o}"):
                check_hf(rep, nseg, cut, o)
    with rep.part("planets in Python"):
        check_udpla(rep)
    with rep.part("extract"):
        check_extract(rep)


if __name__ == "__main__":
    sys.exit(main("C32", RULE, run))
