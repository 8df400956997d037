import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.field import cmul
from kv.interval import Bounds
from kv.report import main
from kv.states import elements, qr, state_from

RULE = ("Each element conversion is abstractly interpreted into a value graph per trace; with the input generated from "
        "orbital elements (lengths and eccentricity as field elements, angles as points on the circle), each output "
        "must have the value number (angles: the circle point) of the corresponding element or state component of the "
        "same orbit.  An interval analysis of the output expressions bounds the angles to their documented ranges.")
PAR = ["a", "e", "i", "W", "w", "f", "mu"]
EQ = ["p", "ef", "eg", "h", "k", "L", "mu"]
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]
LBL = {"par": ["semi-major axis", "eccentricity", "inclination", "node longitude", "argument of pericentre",
               "true anomaly"], "eq": ["p", "f", "g", "h", "k", "true longitude"],
       "ic": ["x", "y", "z", "vx", "vy", "vz"]}


def conj(c):
    return (c[0], -c[1] % P)


def tanhalf(c):
    return c[1] * inv(1 + c[0]) % P


def kind(el):
    return "ellipse" if isqr(1 - el[1]) else "hyperbola"


def equinoctial(el, retro):
    p, e, i, W, w, f = el
    Wi = conj(W) if retro else W
    t = tanhalf(i)
    if retro:
        t = inv(t)
    z = cmul(w, Wi)
    return [p, e * z[0] % P, e * z[1] % P, t * W[0] % P, t * W[1] % P], cmul(cmul(f, w), Wi)


class Case:
    """Carries the orbit from which the sample's input was generated."""

    def __init__(self):
        self.el = {}


def angles_from(ev, E, names):
    return [ev.circ(E.leaf(n)) for n in names]


def report(rep, name, p, ev, out, want, circ, lbl, tag, el):
    for j in range(6):
        if j in circ:
            good = ev.circ(out[j]) == (want[j][0] % P, want[j][1] % P)
        else:
            good = ev.num(out[j]) == want[j] % P
        rep.check(good, f"{name}: {lbl[j]}", nodeloc(out[j]),
                  f"{kind(el)}{tag}, trace [{pathdesc(p)}]: the {lbl[j]} does not describe the given orbit")
    return kind(el)


def drive(rep, prog, fn, names, retro, assign, want, circ, lbl, filt=None, tries=None):
    tag = "" if retro is None else (" (retrograde)" if retro else " (direct)")
    name = fn[3:] + tag
    E = Entry(prog, fn, names, 6, extra=[int(bool(retro))], rep=rep)
    kinds = set()
    for p in E.rets:
        out = p.extra["out"]
        box = {}

        def asg(rng):
            d, box["el"] = assign(rng)
            return d

        def flt(ev):
            if filt:
                box["el"] = filt(ev, E, box["el"])
            el = box["el"]
            if not (isqr(el[0]) and isqr(el[1]) and isqr(1 + el[1] * el[5][0])):
                raise Reject("orbit")

        S = Sampler(p, assign=asg, filt=flt, need=out, seed=rep.seed, slope=False)
        for i in range(12):
            if i >= (6 if rep.thorough else 3) and kinds == {"ellipse", "hyperbola"}:
                break
            try:
                ev = S.draw(tries or (4000 if rep.thorough else 500))
            except Unknown as x:
                rep.undecided(name, str(x))
                break
            if ev is None:
                rep.count("traces_without_model")
                break
            kinds.add(report(rep, name, p, ev, out, want(ev, box["el"]), circ, LBL[lbl], tag, box["el"]))
    if kinds != {"ellipse", "hyperbola"}:
        rep.undecided(name, f"only {sorted(kinds)} could be modelled")
    return E


def random_el(rng):
    return elements(rng)


def run(rep):
    prog = program(["d_elem"], CORE)

    def st(rng):
        el = elements(rng)
        mu = qr(rng)
        pos, vel = state_from(*el, mu)
        d = dict(zip(ST, pos + vel))
        d["mu"] = mu
        return d, el

    def parnum(el):
        return [el[0] * inv(1 - el[1] ** 2), el[1], el[2], el[3], el[4], el[5]]

    with rep.part("ic2par"):
        E = drive(rep, prog, "kv_ic2par", ST, None, st, lambda ev, el: parnum(el), (2, 3, 4, 5), "par", tries=1500)
        ranges(rep, E, "ic2par", {2: (0, math.pi), 3: (0, 2 * math.pi), 4: (0, 2 * math.pi), 5: (0, 2 * math.pi)})

    with rep.part("par2ic"):
        def pa(rng):
            while True:
                p, e, mu = qr(rng), qr(rng), qr(rng)
                if isqr(1 + e):
                    break
            return {"a": p * inv(1 - e * e) % P, "e": e, "mu": mu}, (p, e)

        def pf(ev, E, el):
            return tuple(el[:2]) + tuple(angles_from(ev, E, ["i", "W", "w", "f"]))
        def pw(ev, el):
            pos, vel = state_from(*el, ev.assign["mu"])
            return pos + vel
        drive(rep, prog, "kv_par2ic", PAR, None, pa, pw, (), "ic", filt=pf)
    for retro in (False, True):
        with rep.part(f"ic2eq {retro}"):
            def ew(ev, el):
                n, L = equinoctial(el, retro)
                return n + [L]
            drive(rep, prog, "kv_ic2eq", ST, retro, st, ew, (5,), "eq", tries=1500)
        with rep.part(f"eq2ic {retro}"):
            def ea(rng):
                el = elements(rng)
                n, L = equinoctial(el, retro)
                return dict(zip(EQ, n), mu=qr(rng)), el

            def ef(ev, E, el):
                L = ev.circ(E.leaf("L"))
                p, e, i, W, w, f = el
                Wi = conj(W) if retro else W
                return (p, e, i, W, w, cmul(L, conj(cmul(w, Wi))))
            drive(rep, prog, "kv_eq2ic", EQ, retro, ea, pw, (), "ic", filt=ef)
        with rep.part(f"eq2par {retro}"):
            E = drive(rep, prog, "kv_eq2par", EQ, retro, ea, lambda ev, el: parnum(el), (2, 3, 4, 5), "par", filt=ef)
            ranges(rep, E, f"eq2par{' (retrograde)' if retro else ' (direct)'}",
                   {2: (0, math.pi), 3: (0, 2 * math.pi), 4: (0, 2 * math.pi)})
        with rep.part(f"par2eq {retro}"):
            drive(rep, prog, "kv_par2eq", PAR, retro, pa, ew, (5,), "eq", filt=pf)


def ranges(rep, E, name, rng):
    for p in E.rets:
        b = Bounds(p.conds)
        for j, (lo, hi) in rng.items():
            o = p.extra["out"][j]
            l, h = b(o)
            if l == -math.inf or h == math.inf:
                rep.undecided(name, f"range of {LBL['par'][j]}")
                continue
            ok = l >= lo - 1e-9 and h <= hi + 1e-9
            rep.check(ok, f"{name}: range of the {LBL['par'][j]}", nodeloc(o),
                      f"trace [{pathdesc(p)}]: value may lie in [{l:.6g},{h:.6g}], documented range "
                      f"[{lo:.6g},{hi:.6g}]")


if __name__ == "__main__":
    sys.exit(main("C10", RULE, run))
