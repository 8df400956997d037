import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv import flyby, lamb, sf
from kv.field import check_cond, cmul
from kv.report import main
from kv.states import circle, elements, qr, state_assign
from kv.twin import opaque, twin

RULE = ("Each routine is abstractly interpreted into a value graph per trace; the graph is evaluated in the value-number "
        "domain on an input and on the same input in rotated axes (following the trace the rotated input takes).  Output "
        "vectors and matrices must be the rotated ones, scalars the same, and the equations solved keep their root.")

N = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]
PAR = ["a", "e", "i", "W", "w", "f", "mu"]
EQ = ["p", "ef", "eg", "h", "k", "L", "mu"]
AX = "xyz"


class Rot:
    """A random rotation (about z if flat)."""

    def __init__(self, rng, flat=False):
        self.half = h = circle(rng)
        self.turn = cmul(h, h)
        if flat:
            c, s = self.turn
            self.R = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
            return
        w, x, y, z = (rng.randrange(1, P) for _ in range(4))
        n = inv(w * w + x * x + y * y + z * z)
        self.R = [[v * n % P for v in row] for row in (
            (w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)),
            (2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)),
            (2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z))]

    def vec(self, v):
        return [sum(a * b for a, b in zip(r, v)) % P for r in self.R]

    def plane(self, v, sgn=1):
        c, s = self.turn if sgn else (1, 0)
        return cmul(tuple(v), (c, s if sgn > 0 else -s % P))


# -- outputs: list of groups (kind, [nodes], label) ------------------------------------------------------------------
def mat(R, M, rows, cols):
    """Block rotation of M: rows/cols are lists of block sizes 1 (scalar) or 3 (vector)."""
    out = [list(r) for r in M]
    i = 0
    for b in rows:
        if b == 3:
            for j in range(len(out[0])):
                c = R.vec([out[i + q][j] for q in range(3)])
                for q in range(3):
                    out[i + q][j] = c[q]
        i += b
    j = 0
    for b in cols:
        if b == 3:
            for r in out:
                r[j:j + 3] = R.vec(r[j:j + 3])
        j += b
    return out


def compare(rep, name, p, q, ev, t, R, groups, tgroups):
    for (kind, ns, lbl), (_, ms, _) in zip(groups, tgroups):
        flat = [n for r in ns for n in r] if kind[0] == "mat" else ns
        flatm = [n for r in ms for n in r] if kind[0] == "mat" else ms
        try:
            if kind[0] == "turn":
                want, got = [R.plane(ev.circ(ns[0]), kind[1])], [t.circ(ms[0])]
            else:
                x = [ev.num(n) for n in flat]
                got = [t.num(m) for m in flatm]
                if kind[0] == "same":
                    want = x
                elif kind[0] == "vec":
                    want = R.vec(x)
                elif kind[0] == "plane":
                    want = list(R.plane(x, kind[1]))
                else:
                    k = len(ns[0])
                    w = mat(R, [x[i:i + k] for i in range(0, len(x), k)], kind[1], kind[2])
                    want = [v for r in w for v in r]
        except (Reject, Unknown) as e:
            rep.undecided(name, f"{lbl}: cannot be evaluated in rotated axes")
            continue
        bad = [i for i in range(len(want)) if want[i] != got[i]]
        rep.check(not bad, f"{name}: {lbl}", nodeloc(flatm[bad[0]] if bad else flatm[0]),
                  f"trace [{pathdesc(p)}]{'' if p is q else ' and in rotated axes [' + pathdesc(q) + ']'}: in rotated axes "
                  f"the {lbl} is not {'the same' if kind[0] == 'same' else 'the rotated one'}"
                  f"{'' if len(want) == 1 or kind[0] == 'turn' else ' (component %d)' % (bad[0] if bad else 0)}")


def lightconds(p):
    return [c for c in p.conds if not opaque(c[:2])]


def follows(q, t, conds):
    try:
        for c in conds(q):
            check_cond(t, c)
    except Reject:
        return False
    return True


def drive(rep, E, name, rotate, groups, assign, pivots=(), hook=None, n=1, tries=400, light=None, slope=True, flat=False,
          conds=lightconds, turns=None):
    """rotate(R, leaf values) -> leaf values of the rotated input."""
    done = 0
    for p in E.rets:
        g = groups(p)
        need = [x for k, ns, _ in g for x in ([y for r in ns for y in r] if k[0] == "mat" else ns)]
        if light:
            need = []
        for ev in samples(light(p) if light else p, n, rep, name, assign=assign, pivots=list(pivots), need=need, hook=hook,
                          tries=tries, slope=slope):
            rng = random.Random(f"{ev.seed}rot")
            a = {k: ev.num(E.leaf(k)) for k in E.names}
            for tr in range(12 if E.names is not None and len(E.paths) < 40 else 6):
                R = Rot(rng, flat)
                b = rotate(R, a)
                q, t = find(E, p, ev, b, R, conds, turns, a)
                if q is not None and computable(t, groups(q)):
                    break
            else:
                rep.count("rotations_without_trace")
                rep.undecided(name, "no trace found for the rotated input")
                continue
            done += 1
            pr, qr_ = [r for r in p.roots if r["done"]], [r for r in q.roots if r["done"]]
            for r in qr_:
                try:
                    z = t.num(r["f0"])
                except Reject:
                    rep.undecided(name, "equation cannot be evaluated in rotated axes")
                    continue
                rep.check(z == 0, f"{name}: equation solved", where(r["loc"]),
                          f"trace [{pathdesc(q)}]: the root of the equation solved changes when the axes are rotated")
            compare(rep, name, p, q, ev, t, R, g, groups(q))
    rep.count("traces_decided", done)
    if not done:
        rep.undecided(name, "no trace could be decided")


def computable(t, groups):
    try:
        for kind, ns, _ in groups:
            for n in ([y for r in ns for y in r] if kind[0] == "mat" else ns):
                t.num(n)
                if kind[0] == "turn":
                    t.circ(n)
    except (Reject, Unknown):
        return False
    return True


def mapped(p, q, ev):
    pr, qr_ = [r for r in p.roots if r["done"]], [r for r in q.roots if r["done"]]
    if len(pr) != len(qr_):
        return None
    return {y["var"].id: ev.num(x["var"]) for x, y in zip(pr, qr_)}


def find(E, p, ev, b, R, conds, turns, a):
    for q in [p] + [q for q in E.rets if q is not p]:
        m = mapped(p, q, ev)
        if m is None:
            continue
        t = twin(ev, b, m)
        if turns:
            turns(t, ev, R, a, b)
        if follows(q, t, conds):
            return q, t
    return None, None


def vecs(*triples):
    def rot(R, a):
        b = dict(a)
        for v in triples:
            for k, x in zip(v, R.vec([a[k] for k in v])):
                b[k] = x
        return b
    return rot


def rows(o, r, c, at=0):
    return [o[at + c * i:at + c * i + c] for i in range(r)]


SAME, VEC, ANG = ("same",), ("vec",), ("turn", 0)


def run(rep):
    prog = program(["d_prop", "d_elem"], CORE)
    k = 2 if rep.thorough else 1
    rot = vecs(("rx", "ry", "rz"), ("vx", "vy", "vz"))
    for fn, stm in (("kv_propagate_lagrangian", 1), ("kv_propagate_lagrangian", 0), ("kv_propagate_lagrangian_u", 0),
                    ("kv_propagate_keplerian", 0), ("kv_propagate_stm_reynolds", 1)):
        with rep.part(fn[3:]):
            E = Entry(prog, fn, N, 43, extra=[stm], rep=rep)

            def groups(p):
                o = p.extra["out"]
                g = [(VEC, o[0:3], "position"), (VEC, o[3:6], "velocity")]
                if stm:
                    g.append((("mat", (3, 3), (3, 3)), rows(o, 6, 6, 7), "state transition matrix"))
                return g
            z = fn == "kv_propagate_keplerian"
            drive(rep, E, fn[3:] + (" with matrix" if stm else ""), rot, groups, state_assign(), ["tof"], n=k, flat=z)
    elem(rep, prog, k)
    with rep.part("lambert"):
        lambert(rep, k)
    with rep.part("leg"):
        leg(rep, k)
    with rep.part("fly-by"):
        fly(rep, k)


def elem(rep, prog, k):
    def pa(rng):
        while True:
            p, e, mu = qr(rng), qr(rng), qr(rng)
            if isqr(1 + e):
                return {"a": p * inv(1 - e * e) % P, "e": e, "mu": mu}

    def ea(rng):
        p, e, i, W, w, f = elements(rng)
        t = i[1] * inv(1 + i[0]) % P
        return {"p": p, "ef": e * (W[0] * w[0] - W[1] * w[1]) % P, "eg": e * (W[0] * w[1] + W[1] * w[0]) % P,
                "h": t * W[0] % P, "k": t * W[1] % P, "mu": qr(rng)}

    # inputs
    def rstate(R, a, s):
        return vecs(("rx", "ry", "rz"), ("vx", "vy", "vz"))(R, a)

    def rpar(R, a, s):
        return dict(a, W=a["W"] * 3 % P)

    def req(R, a, s):
        b = dict(a)
        b["ef"], b["eg"] = R.plane((a["ef"], a["eg"]), s)
        b["h"], b["k"] = R.plane((a["h"], a["k"]))
        b["L"] = a["L"] * 3 % P
        return b

    def turned(leaf, sgn):
        def f(t, ev, R, a, b):
            h = ev.atom_half(("v", a[leaf]))
            c, s = R.half
            h = cmul(h, (c, s if sgn > 0 else -s % P))
            t.halves[b[leaf]] = h
            t.halves[-b[leaf] % P] = (h[0], -h[1] % P)
        return f

    # outputs
    def gstate(s):
        return lambda p: [(VEC, p.extra["out"][0:3], "position"), (VEC, p.extra["out"][3:6], "velocity")]

    def gpar(s):
        def f(p):
            o = p.extra["out"]
            return [(SAME, o[0:1], "semi-major axis"), (SAME, o[1:2], "eccentricity"), (SAME, o[2:3], "inclination"),
                    (("turn", 1), o[3:4], "node"), (ANG, o[4:5], "argument of pericentre"),
                    (ANG, o[5:6], "true anomaly")]
        return f

    def geq(s):
        def f(p):
            o = p.extra["out"]
            return [(SAME, o[0:1], "p"), (("plane", s), o[1:3], "eccentricity vector (f, g)"),
                    (("plane", 1), o[3:5], "node vector (h, k)"), (("turn", s), o[5:6], "longitude")]
        return f
    S, K, Q = (ST, state_assign(), rstate, None), (PAR, pa, rpar, "W"), (EQ, ea, req, "L")
    todo = [("kv_ic2par", S, gpar, (0,)), ("kv_par2ic", K, gstate, (0,)), ("kv_ic2eq", S, geq, (0, 1)),
            ("kv_eq2ic", Q, gstate, (0, 1)), ("kv_eq2par", Q, gpar, (0, 1)), ("kv_par2eq", K, geq, (0, 1))]
    for fn, (nm, asg, rt, leaf), gr, rets in todo:
        for r in rets:
            s = -1 if r else 1
            with rep.part(f"{fn[3:]} {r}"):
                E = Entry(prog, fn, nm, 6, extra=[r], rep=rep)
                drive(rep, E, fn[3:], lambda R, a: rt(R, a, s), gr(s), asg, tries=800, n=k, flat=True,
                      turns=turned(leaf, s if leaf == "L" else 1) if leaf else None)


def lambert(rep, k):
    prog = program(["d_lambert"], ["lambert_problem.cpp"])

    def asg(rng):
        a, b, A, B, C, s = lamb.triangle(rng)
        return dict(zip(lamb.N, a + b + [qr(rng), qr(rng)]))
    for cw in (0, 1):
        ic = dict(lamb.IC) if any(prog.by_dem(x) for x in lamb.IC) else {}
        revs = 2 if rep.thorough else 1
        E = Entry(prog, "kv_lambert", lamb.N, 5 + 7 * (2 * revs + 3), extra=[cw, revs], rep=rep, intercepts=ic,
                  f2i_range=range(revs + 2))

        def groups(p):
            o = p.extra["out"]
            if o[1].op != "c":
                return []
            g = []
            for i in range(int(o[1].args[0])):
                q = o[5 + 7 * i:12 + 7 * i]
                g += [(SAME, q[0:1], "solver variable"), (VEC, q[1:4], "initial velocity"),
                      (VEC, q[4:7], "final velocity")]
            for h in p.extra.get("house", []):
                g.append((SAME, [h["T"]], "time of flight given to the solver"))
            return g
        name = "lambert"
        for p in E.rets:
            S = Sampler(light(p), assign=asg, seed=rep.seed, slope=False)
            for _ in range(k):
                ev = S.draw(300)
                if ev is None:
                    rep.count("traces_without_model")
                    break
                rng = random.Random(f"{ev.seed}rot")
                a = {x: ev.num(E.leaf(x)) for x in lamb.N}
                for tr in range(20):
                    R = Rot(rng)
                    t = twin(ev, vecs(lamb.N[0:3], lamb.N[3:6])(R, a), {})
                    # a rotation that keeps the sense of the motion
                    if isqr(cross_z(t, E)) == isqr(cross_z(ev, E)):
                        break
                else:
                    continue
                if not follows(p, t, lambda q: light(q).conds):
                    rep.bad(f"{name}: case distinction", next((where(locof(c[3])) for c in light(p).conds if not same(t, ev, c)), ""),
                            f"trace [{pathdesc(p)}]: another case is taken when the axes are rotated")
                    continue
                rep.count("traces_decided")
                g = []
                for x in groups(p):
                    try:
                        [ev.num(y) for y in x[1]]
                        g.append(x)
                    except Reject:
                        pass
                compare(rep, name, p, p, ev, t, R, g, g)


def same(t, ev, c):
    try:
        check_cond(t, c)
        return True
    except Reject:
        return False


def cross_z(t, E):
    v = [t.num(E.leaf(x)) for x in lamb.N[:6]]
    return lamb.cross(v[:3], v[3:])[2]


class light:
    """The trace with only its decisions on the geometry."""

    def __init__(self, p):
        self.conds = [c for c in p.conds if not opaque(c[:2]) and not any(
            n.op in ("acos", "pow") or n.op == "in" and n.args[0] == "tof" for n in topo([c[0], c[1]]))]
        self.roots = []
        self.extra = {}


def leg(rep, k):
    prog = program(["d_sf"], CORE + sf.SRC)
    n = 3
    nm = sf.names(n)
    rot = vecs(("r0x", "r0y", "r0z"), ("v0x", "v0y", "v0z"), ("r1x", "r1y", "r1z"), ("v1x", "v1y", "v1z"),
               *[tuple(f"u{i}{c}" for c in AX) for i in range(n)])
    nc = 3 * n + 1
    X = (3, 3, 1)
    for fn in ("kv_sf_eval", "kv_sf_grad"):
        no = 9 + n + 3 * n * n if fn == "kv_sf_eval" else 7 + 1 + 98 + 7 * nc
        E = Entry(prog, fn, nm, no, extra=[3 * n], rep=rep, intercepts=sf.IC, f2i_range=sf.counts,
                  max_steps=30_000_000)

        def groups(p):
            o = p.extra["out"]
            g = [(VEC, o[0:3], "position mismatch"), (VEC, o[3:6], "velocity mismatch"), (SAME, o[6:7], "mass mismatch")]
            if fn == "kv_sf_eval":
                return g + [(SAME, o[9:9 + n], "throttle constraints"),
                            (("mat", (1,) * n, (3,) * n), rows(o, n, 3 * n, 9 + n), "throttle constraint gradient")]
            return g + [(("mat", X, X), rows(o, 7, 7, 8), "gradient in the initial state"),
                        (("mat", X, X), rows(o, 7, 7, 57), "gradient in the final state"),
                        (("mat", X, (3,) * n + (1,)), rows(o, 7, nc, 106), "gradient in throttles and time")]
        drive(rep, E, "impulsive leg", rot, groups, sf.assign(n), hook=sf.hook, n=k)


def fly(rep, k):
    prog = program(["d_flyby"], flyby.SRC)
    rot = vecs(flyby.IN[:3], flyby.IN[3:6])
    for fn, on in (("kv_fb_con", ["equality constraint", "inequality constraint"]), ("kv_fb_dv", ["delta-v"])):
        for f in (fn, fn + "_pl"):
            E = Entry(prog, f, flyby.IN, len(on), rep=rep)
            drive(rep, E, fn[3:], rot, lambda p: [(SAME, [x], l) for x, l in zip(p.extra["out"], on)],
                  lambda r: flyby.draw(r)[0], n=k)
    E = Entry(prog, "kv_fb_vout", flyby.VO, 3, rep=rep)
    drive(rep, E, "fb_vout", vecs(flyby.VO[:3], flyby.VO[3:6]),
          lambda p: [(VEC, p.extra["out"], "outgoing velocity")], lambda r: flyby.drawv(r)[0], n=k)


if __name__ == "__main__":
    sys.exit(main("C02", RULE, run))
