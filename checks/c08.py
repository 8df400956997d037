import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.states import state_assign, qr

RULE = ("The equation, first and second derivative of each Kepler equation, and the tuple every root-finder call "
        "receives from its functor, are abstractly interpreted into value graphs; the derivative components must have "
        "the value numbers of the symbolic derivatives of the first one with respect to the unknown.")
EQ = {"kepE": ["X", "M", "e"], "kepH": ["X", "M", "e"], "kepDE": ["X", "DM", "sigma0", "sqrta", "a", "R"],
      "kepDH": ["X", "DM", "sigma0", "sqrta", "a", "R"], "kepDS": ["X", "DT", "r0", "vr0", "alpha", "mu"]}
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]


def nat(name):
    """Natural domain of an equation: which parameters are positive."""
    def f(rng):
        if name == "kepDE" or name == "kepDH":
            a = qr(rng)
            from kv.field import P
            return {"sqrta": a, "a": a * a % P if name == "kepDE" else -a * a % P}
        return {}
    return f


def equations(rep):
    prog = program(["d_kepeq"], [])
    for name, args in EQ.items():
        with rep.part(name):
            E = Entry(prog, "kv_" + name, args, 3, rep=rep)
            X = E.leaf("X")
            seeds = {X.id: 0}
            n = 0
            for p in E.rets:
                f, d, dd = p.extra["out"]
                for ev in samples(p, 3 if rep.thorough else 2, rep, name, need=[f, d, dd], positive=["mu", "r0"]
                                  if name == "kepDS" else []):
                    n += 1
                    rep.check(ev.grad(f, seeds)[0] == ev.num(d), f"{name}: first derivative", nodeloc(d),
                              f"trace [{pathdesc(p)}]: d_{name} is not the derivative of {name}")
                    rep.check(ev.grad(d, seeds)[0] == ev.num(dd), f"{name}: second derivative", nodeloc(dd),
                              f"trace [{pathdesc(p)}]: dd_{name} is not the derivative of d_{name}")
            if not n:
                rep.undecided(name, "no trace could be modelled")


def sites(rep):
    jobs = [("d_prop", CORE, ["kv_propagate_lagrangian", "kv_propagate_lagrangian_u", "kv_propagate_keplerian"]),
            ("d_anom", [], ["kv_m2e", "kv_n2h", "kv_m2f", "kv_n2f"])]
    for drv, srcs, fns in jobs:
        with rep.part(drv):
            prog = program([drv], srcs)
            for fn in fns:
                with rep.part(fn):
                    site(rep, prog, fn, ST if drv == "d_prop" else ["X", "ecc"], drv)


def third_order(r):
    return r["code"] % 10 == 2 and r["code"] // 10 > 2


def real(ev):
    """For |lambda| < 1 the quantity y - lambda x is positive."""
    l, x = ev.assign["lambda"], ev.assign["x"]
    y = sqrt(1 - l * l * (1 - x * x))
    if not isqr(y - l * x):
        raise Reject("y - lambda x")


def lam(rng):
    while True:
        l = rng.randrange(1, P)
        if isqr(1 - l) and isqr(1 + l):
            return {"lambda": l, "x": rng.randrange(1, P)}


def site(rep, prog, fn, names, drv):
    E = Entry(prog, fn, names, 43 if drv == "d_prop" else 1, extra=[0] if drv == "d_prop" else [], rep=rep)
    seen = 0
    for p in E.rets:
        roots = [r for r in p.roots if r["done"]]
        if not roots:
            continue
        need = [x for r in roots for x in (r["f0"], r["f1"], r["f2"]) if x is not None]
        # at the values a solver visits the equation need not hold: the unknowns stay free
        ss = samples(p, 2, rep, fn[3:], assign=state_assign() if drv == "d_prop" else None, need=need, slope=False,
                     tries=300)
        for ev in ss:
            for r in roots:
                seeds = {r["var"].id: 0}
                l = where(locof(r["f0"])) if isinstance(r["f0"], Node) else "?"
                if r["code"] // 10 < 2:
                    continue
                pairs = [(r["f0"], r["f1"], "first"), (r["f1"], r["f2"], "second")]
                for a, b, what in pairs:
                    if a is None or b is None or (what == "second" and not third_order(r)):
                        continue
                    seen += 1
                    rep.check(ev.grad(a, seeds)[0] == ev.num(b), f"{fn[3:]}: {what} derivative given to the solver", l,
                              f"trace [{pathdesc(p)}]: the {what} derivative handed to the root solver is not the "
                              f"derivative of the equation it solves")
    if not seen:
        rep.undecided(fn[3:], "no root solver call could be modelled")


def lambert(rep):
    prog = program(["d_lambert_priv"], ["lambert_problem.cpp"])
    with rep.part("lambert time of flight derivatives"):
        E = Entry(prog, "kv_lambert_dtdx", ["lambda", "x", "T"], 3, rep=rep)
        x, T = E.leaf("x"), E.leaf("T")
        seeds = {x.id: 0, T.id: 1}
        for p in E.rets:
            D = p.extra["out"]
            for ev in samples(p, 2, rep, "dTdx", need=D):
                d1 = ev.num(D[0])
                for k in (0, 1):
                    g = ev.grad(D[k], seeds)
                    rep.check((g[0] + g[1] * d1) % P == ev.num(D[k + 1]), f"lambert: derivative of order {k + 2}",
                              nodeloc(D[k + 1]), f"trace [{pathdesc(p)}]: the derivative of order {k + 2} of the time of "
                              f"flight is not the derivative of the one of order {k + 1}")
    with rep.part("lambert time of flight"):
        E = Entry(prog, "kv_lambert_x2tof", ["lambda", "x"], 4, rep=rep, extra=[0])
        x = E.leaf("x")
        for p in E.rets:
            if p.loopvars:
                continue
            T, D = p.extra["out"][0], p.extra["out"][1]
            for ev in samples(p, 2, rep, "x2tof", need=[T, D], assign=lam, filt=real, tries=1500):
                rep.check(ev.grad(T, {x.id: 0})[0] == ev.num(D), "lambert: first derivative", nodeloc(D),
                          f"trace [{pathdesc(p)}]: the first derivative of the time of flight used by the solver is "
                          f"not the derivative of the time of flight")


def run(rep):
    with rep.part("equations"):
        equations(rep)
    sites(rep)
    with rep.part("lambert"):
        lambert(rep)


if __name__ == "__main__":
    sys.exit(main("C08", RULE, run))
