import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.sizes import Sizes
from kv import lamb
from kv.client import *
from kv.dag import Node, topo
from kv.field import cmul, cpow, equal_mod_turn
from kv.lamb import N, cross, dot, norm
from kv.report import main
from kv.states import qr

RULE = ("The Lambert constructor is abstractly interpreted for every admissible number of revolutions (0 to the bound "
        "below) with the root x of each time-of-flight equation a free unknown; per trace and solution the value "
        "numbers of angular momentum, energy and eccentricity vector at both ends, the direction of motion and the "
        "list sizes are compared.  The time-of-flight function solved for is compared with Kepler's equation on that "
        "orbit, and the update of the solver is shown to stand still only where its equation holds.")


def sub(a, b):
    return [(x - y) % P for x, y in zip(a, b)]


def evec(r, v, mu):
    h = cross(r, v)
    R = norm(r)
    return [(x * inv(mu) - y * inv(R)) % P for x, y in zip(cross(v, h), r)]


def energy(r, v, mu):
    return (dot(v, v) * inv(2) - mu * inv(norm(r))) % P


def assign(box):
    def f(rng):
        a, b, A, B, C, s = box["g"] = lamb.triangle(rng)
        mu = qr(rng)
        return dict(zip(N, a + b + [qr(rng), mu]))
    return f


def run(rep):
    prog = program(["d_lambert"], ["lambert_problem.cpp"])
    for cw in (0, 1):
        S = Sizes(24)
        for revs in range(6 if rep.thorough else 4):
            with rep.part(f"lambert cw={cw} multi_revs={revs}"), S.at(revs):
                orbit(rep, prog, cw, revs)
        S.beyond(rep, "revolutions", lambda n: orbit(rep, prog, cw, n), 2)
    with rep.part("time of flight function"):
        tofs(rep)
    with rep.part("solver update"):
        update(rep)


def orbit(rep, prog, cw, revs):
    tag = "clockwise" if cw else "counter-clockwise"
    ic = dict(lamb.IC)
    if not any(prog.by_dem(k) for k in ic):
        ic = {}
    E = Entry(prog, "kv_lambert", N, 5 + 7 * (2 * revs + 3), extra=[cw, revs], rep=rep, intercepts=ic,
              f2i_range=range(revs + 2))
    for p in E.rets:
        o = p.extra["out"]
        nm = o[0]
        sizes = o[1:5]
        if any(x.op != "c" for x in o[:5]):
            rep.undecided("list sizes", "number of revolutions not constant on a trace")
            continue
        n = int(nm.args[0])
        w = nodeloc(nm)
        rep.check(n <= revs, "lambert: revolutions within the request", w,
                  f"with at most {revs} revolutions requested Nmax may be {n}, trace [{pathdesc(p)}]")
        for s, what in zip(sizes, ("v0", "v1", "x", "iters")):
            rep.check(int(s.args[0]) == 2 * n + 1, f"lambert: number of entries of {what}", w,
                      f"{int(s.args[0])} entries for Nmax={n}, trace [{pathdesc(p)}]")
        for what, cnt, *x in p.oob:
            rep.bad("lambert: access within bounds", where(x[-1]), f"out of bounds access, trace [{pathdesc(p)}]")
        h = p.extra.get("house", [])
        if ic:
            rep.check(len(h) == 2 * n + 1, "lambert: one equation per solution", w,
                      f"{len(h)} equations solved for {2 * n + 1} solutions")
            if len(h) != 2 * n + 1:
                continue
        box = {}
        m = (revs if revs > n else n)
        sols = [o[5 + 7 * i:12 + 7 * i] for i in range(2 * n + 1)]

        def filt(ev):
            a, b, A, B, C, s = box["g"]
            l = lamb.lam(bool(cw), a, b, C, s)
            for q in sols:
                x = ev.num(q[0])
                y = sqrt(1 - l * l + l * l * x * x)
                # implied for real numbers by |lambda| < 1
                if not isqr(y + l * x) or not isqr(y - l * x):
                    raise Reject("y + lambda x")

        # conditions of the iterative search for the number of revolutions do not restrict the geometry
        sols0 = sols
        for i, q in enumerate(sols0):
            sols = [q]
            S = Sampler(P_light(p), assign=assign(box), need=q, filt=filt, seed=(rep.seed, i), slope=False)
            for _ in range(2 if rep.thorough else 1):
                ev = S.draw(200)
                if ev is None:
                    rep.count("traces_without_model")
                    break
                a, b, A, B, C, s = box["g"]
                mu = ev.num(E.leaf("mu"))
                l = lamb.lam(bool(cw), a, b, C, s)
                v0, v1 = [ev.num(x) for x in q[1:4]], [ev.num(x) for x in q[4:]]
                d = f"{tag} motion, solution {i} of {2 * n + 1}, trace [{pathdesc(p)}]: "
                h0 = cross(a, v0)
                rep.check(h0 == cross(b, v1), f"lambert: angular momentum ({tag})", nodeloc(q[1]),
                          d + "the angular momentum differs between both ends")
                rep.check(energy(a, v0, mu) == energy(b, v1, mu), f"lambert: energy ({tag})", nodeloc(q[1]),
                          d + "the energy differs between both ends")
                rep.check(evec(a, v0, mu) == evec(b, v1, mu), f"lambert: eccentricity vector ({tag})", nodeloc(q[1]),
                          d + "the eccentricity vector differs between both ends")
                rep.check(isqr(h0[2]) != bool(cw), f"lambert: direction of motion ({tag})", nodeloc(q[1]),
                          d + "the direction of motion about +z is not the requested one")
                x = ev.num(q[0])
                rep.check(energy(a, v0, mu) == -mu * (1 - x * x) * inv(s) % P, f"lambert: solver variable ({tag})",
                          nodeloc(q[0]), d + "the semi-major axis of the orbit is not the one of the solver variable")
                if ic:
                    rep.check(ev.num(h[i]["var"]) == x and h[i]["N"] == (i + 1) // 2,
                              "lambert: revolutions of each solution", where(h[i]["loc"]),
                              d + f"the equation solved is that of {h[i]['N']} revolutions")
                    rep.check(ev.num(h[i]["T"]) == sqrt(2 * mu * inv(s) ** 3) * ev.num(E.leaf("tof")) % P,
                              "lambert: time of flight of each solution", where(h[i]["loc"]),
                              d + "the equation is not solved for the requested time of flight")


class P_light:
    """A trace with only the conditions that concern the geometry (not the search for x)."""

    def __init__(self, p):
        self.conds = [c for c in p.conds if not any(n.op in ("unk", "loop", "loopmem", "leaf", "acos", "pow")
                      for n in topo([c[0], c[1]])) and not any(n.op == "in" and n.args[0] == "tof"
                                                              for n in topo([c[0], c[1]]))]
        self.roots = []
        self.extra = {}


def tofs(rep):
    """Time of flight function against Kepler's equation on the orbit defined by (lambda, x)."""
    prog = program(["d_lambert_priv"], ["lambert_problem.cpp"], extra=("-fno-inline",))
    dag = None
    hyp = {"kep3::lambert_problem::hypergeometricF": lambda I, mod, dem, args, ins: I.dag.mk("hypF", (I.fl(args[0]),))}
    E = [Entry(prog, "kv_lambert_x2tof", ["lambda", "x"], 4, extra=[n], rep=rep, intercepts=hyp) for n in (0, 1, 2)]
    key = lambda p: tuple((c[2], fmt(c[0], 9), fmt(c[1], 9)) for c in p.conds)
    for p in E[0].rets:
        T = p.extra["out"][0]
        w = nodeloc(T)
        hypn = [n for n in topo([T]) if n.op == "hypF"]
        others = [(k, e, q) for k, e in ((1, E[1]), (2, E[2])) for q in e.rets if key(q) == key(p)]
        rng = random.Random(f"{rep.seed}tofs{w}{len(p.conds)}")
        done = 0
        for t in range(1500 if rep.thorough else 600):
            try:
                a, b, A, B, C, s = lamb.triangle(rng)
                cw = rng.random() < .5
                l = lamb.lam(cw, a, b, C, s)
                x = rng.randrange(2, P)
                mu = qr(rng)
                y = sqrt(1 - l * l + l * l * x * x)
                if not isqr(y + l * x) or not isqr(y - l * x):
                    continue
                asg = {"lambda": l, "x": x}
                ev = Eval((rep.seed, t), asg)
                for c in p.conds:
                    field.check_cond(ev, c)
                # real constraint: a hyperbolic orbit has x > 1
                if not isqr(1 - x * x) and not isqr(x - 1):
                    continue
                num = ev.num(T)
                if hypn:
                    battin(rep, ev, T, hypn, l, x, y, w, others, asg)
                else:
                    kepler(rep, ev, T, (a, b, A, B, C, s), cw, l, x, y, mu, w, p, others, asg)
                done += 1
                if done >= (3 if rep.thorough else 2):
                    break
            except Reject:
                continue
            except Unknown as e:
                rep.undecided("x2tof", str(e))
                break
        rep.count("time_of_flight_expressions", 1 if done else 0)
        if not done:
            rep.count("traces_without_model")
    with rep.part("hypergeometric series"):
        series(rep, prog)


def series(rep, prog):
    from fractions import Fraction
    E = Entry(prog, "kv_lambert_hyp", ["z"], 1, rep=rep, unroll=6)
    for p in E.rets:
        o = p.extra["out"][0]
        if any(n.op in ("loop", "loopmem", "unk") for n in topo([o])):
            continue
        ev = Eval(rep.seed)
        z = ev.num(E.leaf("z"))
        want, t, hit = 1, Fraction(1), False
        for j in range(12):
            if ev.num(o) == want:
                hit = True
                break
            t = t * (3 + j) * (1 + j) / (Fraction(5, 2) + j) / (j + 1)
            want = (want + field.frac(t) * pow(z, j + 1, P)) % P
        rep.check(hit, "lambert: hypergeometric series", nodeloc(o),
                  f"trace [{pathdesc(p)}]: the value is no partial sum of 2F1(3,1;5/2;z)")


def battin(rep, ev, T, hypn, l, x, y, w, others, asg):
    eta = (y - l * x) % P
    S1 = (1 - l - x * eta) * inv(2) % P
    F = ev.num(hypn[0])
    rep.check(len(hypn) == 1 and ev.num(hypn[0].args[0]) == S1, "lambert: Battin's argument", w,
              "the hypergeometric function is not evaluated at (1 - lambda - x eta)/2")
    rep.check(ev.num(T) == (eta ** 3 * F * 4 * inv(3) + 4 * l * eta) * inv(2) % P, "lambert: Battin's time of flight",
              w, "the series expression of the time of flight is not (4/3 eta^3 F + 4 lambda eta)/2")
    e2 = abs_(x * x - 1)
    for k, e, q in others:
        ev2 = Eval(ev.seed, asg)
        rep.check((ev2.num(q.extra["out"][0]) - ev.num(T)) % P == k * ev.pi * inv(sqrt(e2) ** 3) % P,
                  "lambert: revolutions in the time of flight", w,
                  f"{k} revolutions do not add {k} periods to the time of flight")


def abs_(x):
    x %= P
    return x if isqr(x) else P - x


def kepler(rep, ev, T, g, cw, l, x, y, mu, w, p, others, asg):
    a, b, A, B, C, s = g
    gamma, rho = sqrt(mu * s * inv(2)), (A - B) * inv(C) % P
    sigma = sqrt(1 - rho * rho)
    vr0 = gamma * ((l * y - x) - rho * (l * y + x)) * inv(A) % P
    vr1 = -gamma * ((l * y - x) + rho * (l * y + x)) * inv(B) % P
    ell = isqr(1 - x * x)
    sma = s * inv(2 * (1 - x * x)) % P if ell else s * inv(2 * (x * x - 1)) % P
    rt = inv(sqrt(mu * sma))
    # e sin E (or e sinh H) and e cos E at both ends
    es0, es1 = A * vr0 * rt % P, B * vr1 * rt % P
    n = sqrt(mu * inv(sma) ** 3)
    TM = ev.num(T) * sqrt(s ** 3 * inv(2 * mu)) * n % P
    atoms = [m for m in topo([T]) if m.op in ("acos", "asin", "atan", "atan2", "acosh", "asinh", "atanh", "log")]
    combos = [()]
    for m in atoms:
        combos = [c + ((m, k),) for c in combos for k in (0, 1, -1, 2, -2)]
    kind = "ellipse" if ell else "hyperbola"
    if ell:
        ec0, ec1 = (1 - A * inv(sma)) % P, (1 - B * inv(sma)) % P
        e2i = inv(ec0 * ec0 + es0 * es0)
        dE = cmul((ec1, es1), (ec0, -es0 % P))
        dE = (dE[0] * e2i % P, dE[1] * e2i % P)
        good = False
        for c in combos:
            pt, num = (1, 0), 0
            for m, k in c:
                if k:
                    pt = cmul(pt, cpow(ev.full[m.id], k))
                    num += k * ev.num(m)
            if pt == dE and equal_mod_turn(ev, (num - (es1 - es0)) % P, TM):
                good = True
                break
    else:
        ec0, ec1 = (1 + A * inv(sma)) % P, (1 + B * inv(sma)) % P
        dE = (ec1 + es1) * inv(ec0 + es0) % P
        good = False
        for c in combos:
            pt, num = 1, 0
            for m, k in c:
                if k:
                    pt = pt * pow(ev.fullE[m.id], k % (P - 1), P) % P
                    num += k * ev.num(m)
            if pt == dE and (es1 - es0 - num) % P == TM:
                good = True
                break
    rep.check(good, f"lambert: time of flight on the {kind}", w,
              f"trace [{pathdesc(p)}]: the time of flight function is not Kepler's equation on the {kind} with that "
              f"chord, semiperimeter and solver variable")
    if ell:
        for k, e, q in others:
            ev2 = Eval(ev.seed, asg)
            dT = (ev2.num(q.extra["out"][0]) - ev.num(T)) * sqrt(s ** 3 * inv(2 * mu)) * n % P
            rep.check(dT == 2 * k * ev.pi % P, "lambert: revolutions in the time of flight", w,
                      f"{k} revolutions do not add {k} periods to the time of flight, trace [{pathdesc(p)}]")


def update(rep):
    prog = program(["d_lambert_priv"], ["lambert_problem.cpp"], extra=("-fno-inline",))
    ic = {"kep3::lambert_problem::x2tof": lamb.x2tof}
    E = Entry(prog, "kv_lambert_householder", ["lambda", "T", "x"], 1, extra=[1], rep=rep, intercepts=ic, unroll=2)
    n = 0
    for p in E.rets:
        o = p.extra["out"][0]
        tf = [m for m in topo([o]) if m.op == "leaf" and m.args[0] == "tofx"] or \
             [m for m in topo([o]) if "tofx" in str(m.args[:1]) and m.op not in ("c", "in")]
        if len(tf) != 1 or any(m.op in ("loop", "loopmem") for m in topo([o])):
            continue
        for k in range(2):
            try:
                e = Eval((rep.seed, k), {"lambda": 0})
                T = e.prf("T")
                ev = Eval((rep.seed, k), {"T": T}, {tf[0].id: T})
                x = ev.num(E.leaf("x"))
                still = ev.num(o) == x
                ev = Eval((rep.seed, k), {"T": T})
                moved = ev.num(o) != ev.num(E.leaf("x"))
            except Reject:
                continue
            n += 1
            rep.check(still, "lambert: solver stands still at the solution", nodeloc(o),
                      "the iteration moves away from a solution of the time of flight equation")
            rep.check(moved, "lambert: solver moves elsewhere", nodeloc(o),
                      "the iteration stands still although the time of flight equation does not hold")
    if not n:
        rep.undecided("householder", "no single iteration could be isolated")


if __name__ == "__main__":
    sys.exit(main("C05", RULE, run))
