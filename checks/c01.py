import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv import flyby, lamb, sf
from kv.report import main
from kv.states import elements, qr, state_from, state_assign
from kv.twin import BIG, Dims, opaque, twin

RULE = ("Each routine is abstractly interpreted into a value graph per trace and the graph is evaluated twice in the "
        "value-number domain, on an input and on the same input in other units of length, time and mass.  Every output "
        "must scale by the factor its dimension dictates, every compared difference by some product of powers of the unit "
        "factors, and every equation solved, initial guess and search bracket by the factor of its unknown.")

L, V, T, MU, ONE = (1, 0, 0), (1, -1, 0), (0, 1, 0), (3, -2, 0), (0, 0, 0)
MASS, FORCE = (0, 0, 1), (1, -2, 1)
STATE = [L] * 3 + [V] * 3


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


STM = [sub(a, b) for a in STATE for b in STATE]


def check(rep, E, name, p, ins, outs, ev, assign, hook=None, free=(), skipconds=None):
    """ins: {leaf: dim}, outs: [(node, dim, label)]."""
    rng = random.Random(f"{ev.seed}dims")
    D = Dims(rng)
    b = dict(assign)
    for k, d in ins.items():
        b[k] = ev.num(E.leaf(k)) * D.f(*d) % P
    byid = {}
    t = twin(ev, b, byid)
    for r in p.roots:
        if not r["done"]:
            continue
        x = ev.num(r["var"])
        w = where(r["loc"])
        for dx in CAND:
            by = dict(byid)
            by[r["var"].id] = x * D.f(*dx) % P
            t = twin(ev, b, by)
            try:
                f0 = t.num(r["f0"])
            except Reject:
                continue
            if f0 == 0:
                break
        else:
            rep.bad(f"{name}: equation solved", w, f"trace [{pathdesc(p)}]: the equation solved is not invariant under "
                    f"a change of units, whatever the dimension of its unknown")
            return
        rep.ok(f"{name}: equation solved", w)
        byid = by
        for what in ("guess", "lo", "hi"):
            n = r[what]
            if n.op == "c" and (n.args[0] == 0 or abs(n.args[0]) > BIG) or opaque([n]):
                continue
            try:
                good = t.num(n) == ev.num(n) * D.f(*dx) % P
            except Reject:
                continue
            rep.check(good, f"{name}: {dict(guess='initial guess', lo='bracket', hi='bracket')[what]} of the solver", w,
                      f"trace [{pathdesc(p)}]: the unknown has dimension {dim(dx)}, its "
                      f"{dict(guess='initial guess', lo='lower bound', hi='upper bound')[what]} {fmt(n, 3)} does not "
                      f"scale with it")
    for c in p.conds:
        if opaque(c[:2]) or skipconds and skipconds(c):
            continue
        w = where(locof(c[3]))
        try:
            d0, d1 = (ev.num(c[0]) - ev.num(c[1])) % P, (t.num(c[0]) - t.num(c[1])) % P
        except Reject:
            continue
        good = d0 == d1 == 0 or d0 and d1 and d1 * inv(d0) % P in D.table()
        rep.check(good, f"{name}: comparison", w, f"{fmt(c[0], 3)} is compared with {fmt(c[1], 3)}, a quantity of "
                  f"another dimension; trace [{pathdesc(p)}]")
    for n, d, lbl in outs:
        try:
            x, y = ev.num(n), t.num(n)
        except Reject:
            rep.undecided(name, f"{lbl}: cannot be evaluated in other units")
            continue
        rep.check(y == x * D.f(*d) % P, f"{name}: {lbl}", nodeloc(n),
                  f"trace [{pathdesc(p)}]: in other units the {lbl} is not multiplied by the factor of {dim(d)}")


def dim(d):
    return "·".join(f"{u}^{k:g}" for u, k in zip(("length", "time", "mass"), d) if k) or "a pure number"


CAND = sorted(((a / 2, b / 2, 0) for a in range(-6, 7) for b in range(-6, 7)), key=lambda d: abs(d[0]) + abs(d[1]))
PAR = ["a", "e", "i", "W", "w", "f", "mu"]
EQ = ["p", "ef", "eg", "h", "k", "L", "mu"]
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]
N = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]


def drive(rep, E, name, ins, outs, assign, pivots=(), hook=None, tries=400, n=1, skipconds=None, light=None, slope=True):
    dec = 0
    for p in E.rets:
        o = outs(p.extra["out"])
        q = light(p) if light else p
        need = [x for x, _, _ in o]
        for ev in samples(q, n, rep, name, assign=assign, pivots=list(pivots), need=need, hook=hook, tries=tries,
                          slope=slope):
            dec += 1
            check(rep, E, name, p, ins, o, ev, ev.assign, hook, skipconds=skipconds)
    rep.count("traces_decided", dec)
    if not dec:
        rep.undecided(name, "no trace could be decided")


def lab(names, dims):
    return lambda o: [(o[i], d, n) for i, (n, d) in enumerate(zip(names, dims))]


def run(rep):
    prog = program(["d_prop", "d_elem"], CORE)
    sti = dict(zip(ST, STATE + [MU]))
    ni = dict(zip(N, STATE + [T, MU]))
    names = ["x", "y", "z", "vx", "vy", "vz"]
    stn = [f"matrix entry ({i},{j})" for i in range(6) for j in range(6)]
    k = 2 if rep.thorough else 1
    for fn, stm in (("kv_propagate_lagrangian", 1), ("kv_propagate_lagrangian", 0), ("kv_propagate_lagrangian_u", 0),
                    ("kv_propagate_keplerian", 0), ("kv_propagate_stm_reynolds", 1)):
        with rep.part(fn[3:]):
            E = Entry(prog, fn, N, 43, extra=[stm], rep=rep)

            def outs(o):
                r = lab(names, STATE)(o)
                if stm:
                    r += [(o[7 + i], STM[i], stn[i]) for i in range(36)]
                return r
            drive(rep, E, fn[3:] + (" with matrix" if stm else ""), ni, outs, state_assign(), ["tof"], n=k)
    elem(rep, prog, sti, k)
    with rep.part("lambert"):
        lambert(rep, k)
    with rep.part("leg"):
        leg(rep, k)
    with rep.part("fly-by"):
        fly(rep, k)


def elem(rep, prog, sti, k):
    def random_a(nm):
        def a(rng):
            return {x: (qr(rng) if x in ("mu", "p", "e", "a") else rng.randrange(1, P)) for x in nm}
        return a
    pn = ["semi-major axis", "eccentricity", "inclination", "node", "argument of pericentre", "true anomaly"]
    en = ["p", "f", "g", "h", "k", "L"]
    E1 = [L] + [ONE] * 5
    sn = ["x", "y", "z", "vx", "vy", "vz"]

    def pa(rng):
        while True:
            p, e, mu = qr(rng), qr(rng), qr(rng)
            if isqr(1 + e):
                return {"a": p * inv(1 - e * e) % P, "e": e, "mu": mu}

    def ea(rng):
        p, e, i, W, w, f = elements(rng)
        t = i[1] * inv(1 + i[0]) % P
        return {"p": p, "ef": e * (W[0] * w[0] - W[1] * w[1]) % P, "eg": e * (W[0] * w[1] + W[1] * w[0]) % P,
                "h": t * W[0] % P, "k": t * W[1] % P, "mu": qr(rng)}
    pin = dict(zip(PAR, E1 + [MU]))
    ein = dict(zip(EQ, E1 + [MU]))
    todo = [("kv_ic2par", ST, sti, state_assign(), pn, E1, (0,)), ("kv_par2ic", PAR, pin, pa, sn, STATE, (0,)),
            ("kv_ic2eq", ST, sti, state_assign(), en, E1, (0, 1)), ("kv_eq2ic", EQ, ein, ea, sn, STATE, (0, 1)),
            ("kv_eq2par", EQ, ein, ea, pn, E1, (0, 1)), ("kv_par2eq", PAR, pin, pa, en, E1, (0, 1))]
    for fn, nm, ins, asg, on, od, rets in todo:
        for r in rets:
            with rep.part(f"{fn[3:]} {r}"):
                E = Entry(prog, fn, nm, 6, extra=[r], rep=rep)
                ii = {x: d for x, d in ins.items() if d != ONE}
                drive(rep, E, fn[3:], ii, lab(on, od), asg, tries=800, n=k)
    rep.assumptions.append("arithmetic is exact; the standard gravity in the exhaust velocity isp*g0 is taken along "
                           "with the specific impulse, i.e. isp scales as a velocity")


def lambert(rep, k):
    prog = program(["d_lambert"], ["lambert_problem.cpp"])
    ins = dict(zip(lamb.N, [L] * 6 + [T, MU]))
    box = {}

    def asg(rng):
        a, b, A, B, C, s = box["g"] = lamb.triangle(rng)
        return dict(zip(lamb.N, a + b + [qr(rng), qr(rng)]))
    for cw in (0, 1):
        ic = dict(lamb.IC) if any(prog.by_dem(x) for x in lamb.IC) else {}
        revs = 1
        E = Entry(prog, "kv_lambert", lamb.N, 5 + 7 * (2 * revs + 3), extra=[cw, revs], rep=rep, intercepts=ic,
                  f2i_range=range(revs + 2))

        def outs(p):
            def f(o):
                if o[1].op != "c":
                    return []
                r = []
                for i in range(int(o[1].args[0])):
                    q = o[5 + 7 * i:12 + 7 * i]
                    r += [(q[0], ONE, "solver variable")]
                    r += [(q[1 + j], V, "velocity") for j in range(6)]
                for h in p.extra.get("house", []):
                    r += [(h["T"], ONE, "time of flight given to the solver")]
                    if not opaque([h["guess"]]):
                        r += [(h["guess"], ONE, "initial guess of the solver")]
                return r
            return f
        name = "lambert"
        for p in E.rets:
            o = outs(p)(p.extra["out"])
            S = Sampler(light(p), assign=asg, seed=rep.seed, slope=False)
            for _ in range(k):
                ev = S.draw(300)
                if ev is None:
                    rep.count("traces_without_model")
                    break
                oo = []
                for x in o:
                    try:
                        ev.num(x[0])
                        oo.append(x)
                    except Reject:
                        pass
                check(rep, E, name, p, ins, oo, ev, ev.assign)


class light:
    """The trace with only its decisions on the geometry."""

    def __init__(self, p):
        self.conds = [c for c in p.conds if not opaque(c[:2]) and not any(
            n.op in ("acos", "pow") or n.op == "in" and n.args[0] == "tof" for n in topo([c[0], c[1]]))]
        self.roots = []
        self.extra = {}


def leg(rep, k):
    prog = program(["d_sf"], CORE + sf.SRC)
    n = 3
    nm = sf.names(n)
    dims = dict(zip(sf.BASE, STATE + [MASS] + STATE + [MASS, T, FORCE, V, MU, ONE]))
    ins = {x: d for x, d in dims.items() if d != ONE}
    X = STATE + [MASS]
    rows = ["x", "y", "z", "vx", "vy", "vz", "mass"]
    nc = 3 * n + 1
    for fn in ("kv_sf_eval", "kv_sf_grad"):
        no = 9 + n + 3 * n * n if fn == "kv_sf_eval" else 7 + 1 + 98 + 7 * nc
        E = Entry(prog, fn, nm, no, extra=[3 * n], rep=rep, intercepts=sf.IC, f2i_range=sf.counts,
                  max_steps=30_000_000)

        def outs(o):
            r = [(o[i], X[i], f"mismatch {rows[i]}") for i in range(7)]
            if fn == "kv_sf_eval":
                r += [(x, ONE, "throttle constraints") for x in o[9:]]
                return r
            for i in range(7):
                for j in range(7):
                    r.append((o[8 + 7 * i + j], sub(X[i], X[j]), f"state gradient ({rows[i]},{rows[j]})"))
                    r.append((o[57 + 7 * i + j], sub(X[i], X[j]), f"state gradient ({rows[i]},{rows[j]})"))
                for j in range(3 * n):
                    r.append((o[106 + nc * i + j], X[i], f"throttle gradient row {rows[i]}"))
                r.append((o[106 + nc * i + nc - 1], sub(X[i], T), f"time gradient row {rows[i]}"))
            return r
        drive(rep, E, "impulsive leg", ins, outs, sf.assign(n), hook=sf.hook, n=k)


def fly(rep, k):
    prog = program(["d_flyby"], flyby.SRC)
    ins = dict(zip(flyby.IN, [V] * 6 + [MU, L, L, MU]))
    for fn, on, od in (("kv_fb_con", ["equality constraint", "inequality constraint"], [(2, -2, 0), ONE]),
                       ("kv_fb_dv", ["delta-v"], [V])):
        for f in (fn, fn + "_pl"):
            E = Entry(prog, f, flyby.IN, len(on), rep=rep)
            drive(rep, E, fn[3:], ins, lab(on, od), lambda r: flyby.draw(r)[0], n=k)
    E = Entry(prog, "kv_fb_vout", flyby.VO, 3, rep=rep)
    ins = dict(zip(flyby.VO, [V] * 6 + [L, ONE, MU]))
    del ins["beta"]
    drive(rep, E, "fb_vout", ins, lab(["outgoing velocity"] * 3, [V] * 3), lambda r: flyby.drawv(r)[0], n=k)


if __name__ == "__main__":
    sys.exit(main("C01", RULE, run))
