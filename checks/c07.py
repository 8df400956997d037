import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.field import equal_mod_turn
from kv.report import main
from kv.states import qr

RULE = ("Each anomaly conversion, each there-and-back composition and each composite is abstractly interpreted into a "
        "value graph; value numbers (angles as points on the circle, roots of Kepler's equation as unknowns subject "
        "to it) decide that compositions are the identity modulo a turn and agree with the defining relations; the "
        "conditions on the eccentricity decide on which side of one the result is NaN.")
ELL = {"m2e", "e2m", "e2f", "f2e", "m2f", "f2m"}
HYP = {"zeta2f", "f2zeta", "n2h", "h2n", "h2f", "f2h", "n2f", "f2n"}
PAIRS = [("m2e", "e2m"), ("e2m", "m2e"), ("e2f", "f2e"), ("f2e", "e2f"), ("m2f", "f2m"), ("zeta2f", "f2zeta"),
         ("f2zeta", "zeta2f"), ("n2h", "h2n"), ("h2n", "n2h"), ("h2f", "f2h"), ("f2h", "h2f"), ("n2f", "f2n")]
CMP = ["m2f", "f2m", "n2f", "f2n"]
NAMES = {"e": "eccentric", "m": "mean", "f": "true", "zeta": "Gudermannian", "h": "hyperbolic", "n": "hyperbolic mean"}


def ecc(ell):
    def f(rng):
        while True:
            e = qr(rng)
            if isqr(1 + e) and isqr(1 - e) == ell:
                return {"ecc": e}
    return f


def isnan(n):
    return n.op == "nan" or (n.op == "c" and n.args[0] != n.args[0])


def run(rep):
    prog = program(["d_anom"], [])
    for f in sorted(ELL | HYP):
        with rep.part("domain of " + f):
            domain(rep, prog, f)
    for f, g in PAIRS:
        with rep.part(f"{g} after {f}"):
            inverse(rep, prog, f, g)
    for h in CMP:
        with rep.part(f"composite {h}"):
            composite(rep, prog, h)
    for f in ("e2m", "h2n", "e2f", "h2f", "zeta2f", "m2e", "n2h"):
        with rep.part("definition of " + f):
            definition(rep, prog, f)


def domain(rep, prog, f):
    E = Entry(prog, "kv_" + f, ["x", "ecc"], 1, rep=rep)
    cuts = {0.0, 1.0}
    for p in E.paths:
        for a, b, rel, loc in p.conds:
            for x, y in ((a, b), (b, a)):
                if x is E.leaf("ecc") and y.op == "c":
                    cuts.add(float(y.args[0]))
    pts = set()
    for c in cuts:
        pts |= {c, math.nextafter(c, 9e9), math.nextafter(c, -9e9), c * (1 + 2 ** -30), c * (1 - 2 ** -30)}
    cs = sorted(cuts)
    pts |= {(a + b) / 2 for a, b in zip(cs, cs[1:])} | {cs[-1] + .5, cs[-1] + 9.}
    for e in sorted(p for p in pts if p >= 0):
        F = Entry(prog, "kv_" + f, ["x", e], 1)
        inside = e < 1 if f in ELL else e > 1
        for p in F.rets:
            o = p.extra["out"][0]
            n = isnan(o)
            kind = "ellipse" if f in ELL else "hyperbola"
            if inside:
                rep.check(not n, f"{f}: not NaN on its conic", nodeloc(o),
                          f"{f} returns NaN for eccentricity {e!r} although that is a valid {kind}")
            else:
                rep.check(n, f"{f}: NaN off its conic", nodeloc(o) if not n else "",
                          f"{f} does not return NaN for eccentricity {e!r} which is not a valid {kind}")


def inverse(rep, prog, f, g):
    E = Entry(prog, f"kv_{f}_{g}", ["x", "ecc"], 1, rep=rep)
    done = 0
    name = f"{g}({f}(x))"
    for p in E.rets:
        o = p.extra["out"][0]
        if isnan(o):
            continue
        back = f in ("e2m", "h2n")
        roots = [r for r in p.roots if r["done"]]
        kw = {}
        if back:
            if len(roots) != 1:
                rep.undecided(name, "no single Kepler equation")
                continue
        ok = 0
        for k in range(3 if rep.thorough else 2):
            a = ecc(f in ELL)
            if back:
                import random
                rng = random.Random(f"{rep.seed}{k}{f}")
                x0 = rng.randrange(1, P)
                S = Sampler(p, assign=lambda r: dict(a(r), x=x0), seed=(rep.seed, k), need=[],
                            byid={roots[0]["var"].id: x0}, slope=False, pivots=[None])
                ev = S.draw(500)
                if ev is None:
                    continue
                # M must be registered as an angle before the wrapped mean anomaly is looked up
                done += 1
                rep.check(ev.num(roots[0]["f0"]) == 0 or equal_mod_turn(ev, ev.num(roots[0]["f0"]), 0),
                          f"{name}: equation solved by the original anomaly", nodeloc(roots[0]["f0"]),
                          f"trace [{pathdesc(p)}]: the equation {g} solves is not satisfied by the anomaly {f} started "
                          f"from")
            else:
                ss = samples(p, 1, rep, name, assign=a, pivots=["x"], need=[o], seed=(rep.seed, k), slope=False)
                if not ss:
                    continue
                ev = ss[0]
                done += 1
            x = ev.num(E.leaf("x"))
            rep.check(equal_mod_turn(ev, ev.num(o), x), f"{name}: identity", nodeloc(o),
                      f"trace [{pathdesc(p)}]: {NAMES[f.split('2')[0]]} anomaly is not recovered (modulo a turn)")
    if not done:
        rep.undecided(name, "no trace could be modelled")


def composite(rep, prog, h):
    E = Entry(prog, f"kv_cmp_{h}", ["x", "ecc"], 2, rep=rep)
    done = 0
    for p in E.rets:
        a, b = p.extra["out"]
        if isnan(a) or isnan(b):
            continue
        for ev in samples(p, 2, rep, h, assign=ecc(h in ELL), pivots=["x"], need=[a, b], slope=False):
            done += 1
            rep.check(equal_mod_turn(ev, ev.num(a), ev.num(b)), f"{h}: composition of elementary conversions",
                      nodeloc(b), f"trace [{pathdesc(p)}]: {h} differs from the composition of the elementary ones")
    if not done:
        rep.undecided(h, "no trace could be modelled")


def definition(rep, prog, f):
    E = Entry(prog, "kv_" + f, ["x", "ecc"], 1, rep=rep)
    done = 0
    I = E.I
    from kv.dag import Node
    for p in E.rets:
        o = p.extra["out"][0]
        if isnan(o):
            continue
        x = E.leaf("x")
        for ev in samples(p, 2, rep, f, assign=ecc(f in ELL), pivots=["x"], need=[o], slope=False):
            e = ev.num(E.leaf("ecc"))
            if f in ("e2m", "h2n", "m2e", "n2h"):
                an, mean = (x, o) if f in ("e2m", "h2n") else (o, x)
                if f in ELL:
                    want = (ev.num(an) - e * ev.circ(an)[1]) % P
                else:
                    t = ev.expo(an)
                    want = (e * (t - inv(t)) * inv(2) - ev.num(an)) % P
                good = equal_mod_turn(ev, want, ev.num(mean))
            else:
                c, s = ev.circ(o)
                if f == "e2f":
                    C, S = ev.circ(x)
                    d = inv(1 - e * C)
                    good = c == (C - e) * d % P and s * s % P == (1 - e * e) * S * S * d * d % P and \
                        s == sqrt((1 + e) * inv(1 - e)) * (1 - e) * S * d % P
                elif f == "h2f":
                    t = ev.expo(x)
                    ch, sh = (t + inv(t)) * inv(2), (t - inv(t)) * inv(2)
                    d = inv(e * ch - 1)
                    good = c == (e - ch) * d % P and s == sqrt((1 + e) * inv(e - 1)) * (e - 1) * sh * d % P
                else:
                    C, S = ev.circ(x)
                    t2 = S * inv(1 + C) * sqrt((1 + e) * inv(e - 1)) % P
                    good = (c, s) == ((1 - t2 * t2) * inv(1 + t2 * t2) % P, 2 * t2 * inv(1 + t2 * t2) % P)
            done += 1
            rep.check(good, f"{f}: defining relation", nodeloc(o),
                      f"trace [{pathdesc(p)}]: {f} does not satisfy the relation defining its anomaly")
    if not done:
        rep.undecided(f, "no trace could be modelled")


if __name__ == "__main__":
    sys.exit(main("C07", RULE, run))
