import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.box import Box
from kv.client import *
from kv.flyby import IN, SRC, VO, cross, dot, draw, drawv
from kv.field import check_cond, cmul
from kv.report import main

RULE = ("Each fly-by routine (both overloads) is abstractly interpreted into a value graph per trace; value numbers decide "
        "the deflection, the plane angle, the constraint values and the delta-v against hyperbolic fly-by geometry, and an "
        "interval analysis over boxes of inputs on either side of the deflection limit decides which trace they take.")

def run(rep):
    prog = program(["d_flyby"], SRC)
    n = 6 if rep.thorough else 3
    for fn, planet in (("kv_fb_con", 0), ("kv_fb_con_pl", 1)):
        with rep.part(fn[3:]):
            con(rep, prog, fn, planet, n)
    for fn, planet in (("kv_fb_dv", 0), ("kv_fb_dv_pl", 1)):
        with rep.part(fn[3:]):
            dv(rep, prog, fn, planet, n)
    with rep.part("fb_vout"):
        vout(rep, prog, n)
    rep.assumptions.append("arithmetic is exact; velocities non-zero and, for the outgoing velocity, the incoming relative "
                           "velocity not parallel to the planet's")


def label(fn, planet):
    return fn[3:].replace("_pl", "") + (" (planet)" if planet else "")


def sample(p, gen, seed, tries=400):
    """An input generated by gen that follows trace p: (value numbers, geometry), or None."""
    rng = random.Random(repr(seed))
    for i in range(tries):
        x, geo = gen(rng)
        ev = Eval((seed, i), x)
        try:
            for c in p.conds:
                check_cond(ev, c)
            for o in p.extra["out"]:
                ev.num(o)
            return ev, geo
        except Reject:
            continue
    return None


def con(rep, prog, fn, planet, n):
    E = Entry(prog, fn, IN, 2, rep=rep)
    name = label(fn, planet)
    done = 0
    for p in E.rets:
        for k in range(n):
            r = sample(p, draw, (rep.seed, fn, k))
            if r is None:
                continue
            ev, (A, B, al, dm) = r
            done += 1
            eq, ineq = p.extra["out"]
            rep.check(ev.num(eq) == (A * A - B * B) % P, f"{name}: equality constraint", nodeloc(eq),
                      f"trace [{pathdesc(p)}]: not the difference of the squared relative speeds (in minus out)")
            try:
                got = ev.circ(ineq)
            except Unknown as e:
                rep.undecided(name, str(e))
                continue
            rep.check(got == cmul(al, (dm[0], -dm[1] % P)), f"{name}: inequality constraint", nodeloc(ineq),
                      f"trace [{pathdesc(p)}]: not the angle between the velocities minus twice arcsin(1/(1+rs*v^2/mu))")
    if not done:
        rep.undecided(name, "no trace could be modelled")


def dv(rep, prog, fn, planet, n):
    E = Entry(prog, fn, IN, 1, rep=rep)
    name = label(fn, planet)
    kind = {}
    for i, p in enumerate(E.rets):
        o = p.extra["out"][0]
        for k in range(n):
            r = sample(p, draw, (rep.seed, fn, k))
            if r is None:
                continue
            ev, (A, B, al, dm) = r
            c = (al[0] * dm[0] + al[1] * dm[1]) % P
            v = ev.num(o)
            q = v * v % P
            far = q == (A * A + B * B - 2 * A * B * c) % P
            near = q == (A - B) * (A - B) % P
            good = (far or near) and isqr(v)
            rep.check(good, f"{name}: value", nodeloc(o),
                      f"trace [{pathdesc(p)}]: neither the speed difference nor the law-of-cosines residual of the excess "
                      f"deflection")
            if good:
                kind[i] = far
    if not kind:
        rep.undecided(name, "no trace could be modelled")
        return
    # which of the two is used where: boxes of inputs on either side of the deflection limit
    rng = random.Random(f"{rep.seed}boxes")
    seen = {True: 0, False: 0}
    for k in range(200 if rep.thorough else 60):
        box, ref, far, scale = scene(rng)
        hit = None
        for i, p in enumerate(E.rets):
            B = Box(box)
            if i in kind and B.follows(p):
                hit = i, p
        if hit is None:
            rep.count("boxes_undecided")
            continue
        seen[far] += 1
        o = hit[1].extra["out"][0]
        rep.check(kind[hit[0]] == far, f"{name}: case distinction", nodeloc(o),
                  f"with the needed deflection {'above' if far else 'below'} the limit by {ref:.3g} rad the delta-v is "
                  f"{'the plain speed difference' if far else 'not the plain speed difference'}; "
                  f"trace [{pathdesc(hit[1])}]")
    for f in seen:
        if not seen[f]:
            rep.undecided(name, f"no box {'above' if f else 'below'} the deflection limit was decided")


def scene(rng):
    """A tiny box of inputs at a known distance from the deflection limit."""
    import math
    while True:
        L = 10. ** rng.uniform(-2, 9)
        V = 10. ** rng.uniform(-2, 5)
        vi, vo = V * rng.uniform(.3, 3), V * rng.uniform(.3, 3)
        rs = L * rng.uniform(.3, 3)
        mu = rs * vi * vi * 10. ** rng.uniform(-1.5, 1.5)
        dmax = 2 * math.asin(1 / (1 + rs * vi * vi / mu))
        d = rng.choice((-1, 1)) * rng.choice((.001, .01, .1, .5, 1., 2.)) * rng.uniform(.5, 1.)
        al = dmax + d
        if not .01 < al < math.pi - .01:
            continue
        th, ph = rng.uniform(.4, 2.7), rng.uniform(-3, 3)
        u = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
        w = [math.cos(th) * math.cos(ph), math.cos(th) * math.sin(ph), -math.sin(th)]
        z = [-math.sin(ph), math.cos(ph), 0.]
        g = rng.uniform(-3, 3)
        e = [math.cos(g) * a + math.sin(g) * b for a, b in zip(w, z)]
        x = [vi * a for a in u] + [vo * (math.cos(al) * a + math.sin(al) * b) for a, b in zip(u, e)]
        # the radius and the central body's parameter would give another limit
        x += [mu, rs, rs * rng.choice((.01, 40.)), mu * rng.choice((1e-4, 1e4))]
        r = 1e-7
        box = {k: tuple(sorted((v * (1 - r), v * (1 + r)))) for k, v in zip(IN, x)}
        return box, d, d > 0, V


def vout(rep, prog, n):
    E = Entry(prog, "kv_fb_vout", VO, 3, rep=rep)
    done = 0
    for p in E.rets:
        for k in range(4 * n):
            x = sample(p, drawv, (rep.seed, "vout", k))
            if x is None:
                continue
            ev, (r, q, R, j, (cd, sd)) = x
            done += 1
            o = p.extra["out"]
            w = [(ev.num(x) - y) % P for x, y in zip(o, q)]
            loc = nodeloc(o[0])
            rep.check(dot(w, w) == R * R % P, "fb_vout: relative speed is conserved", loc,
                      f"trace [{pathdesc(p)}]: the outgoing relative speed differs from the incoming one")
            rep.check(dot(w, r) == R * R * cd % P, "fb_vout: deflection angle", loc,
                      f"trace [{pathdesc(p)}]: the deflection is not twice arcsin(1/(1+rp*v^2/mu))")
            J = sqrt(dot(j, j))
            kk = cross(r, j)
            cb, sb = ev.circ(E.leaf("beta"))
            rep.check(dot(w, j) == R * J * sd * cb % P and dot(w, kk) == R * R * J * sd * sb % P,
                      "fb_vout: plane angle", loc,
                      f"trace [{pathdesc(p)}]: the deflection is not in the direction cos(beta) j + sin(beta) k, with j along "
                      f"the relative velocity times the planet's velocity and k = i x j")
    if not done:
        rep.undecided("fb_vout", "no trace could be modelled")


if __name__ == "__main__":
    sys.exit(main("C06", RULE, run))
