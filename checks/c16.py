import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy
from kv.states import qr
from kv.dag import exact
from kv.field import frac

RULE = ("The functions that build the Stark and the restricted three-body dynamics, and those that hand out their "
        "(variational) integrators, are abstractly interpreted against a stand-in for heyoka in which an expression is "
        "the value it denotes.  Each right-hand side must have the value number of the documented equation of motion, "
        "in the documented order of states and parameters; each integrator must integrate exactly that system, at the "
        "tolerance asked for, from time zero; a variational one with respect to the documented quantities, in order.")

SRC = ["ta/stark.cpp", "ta/cr3bp.cpp"]
VARS = ["x", "y", "z", "vx", "vy", "vz", "m"]
KIND = ["get_ta_stark", "get_ta_stark_var", "get_ta_cr3bp", "get_ta_cr3bp_var"]


def stark(q, ev):
    x, v, m = [q("var " + c) for c in "xyz"], [q("var v" + c) for c in "xyz"], q("var m")
    mu, ve, u = q("par 0"), q("par 1"), [q(f"par {i}") for i in (2, 3, 4)]
    r2 = sum(a * a for a in x) % P
    k = mu * inv(r2 * sqrt(r2)) % P
    u2 = sum(a * a for a in u) % P
    return v + [(u[i] * inv(m) - k * x[i]) % P for i in range(3)] + [-(sqrt(u2) if u2 else 0) * inv(ve) % P]


def cr3bp(q, ev):
    x, y, z = [q("var " + c) for c in "xyz"]
    v, mu = [q("var v" + c) for c in "xyz"], q("par 0")
    d1 = ((x + mu) ** 2 + y * y + z * z) % P
    d2 = ((x - 1 + mu) ** 2 + y * y + z * z) % P
    a, b = (1 - mu) * inv(d1 * sqrt(d1)) % P, mu * inv(d2 * sqrt(d2)) % P
    return v + [(2 * v[1] + x - a * (x + mu) - b * (x + mu - 1)) % P, (y - 2 * v[0] - (a + b) * y) % P,
                -(a + b) * z % P]


def explore(rep, prog, fn, n, tail, sym, **kw):
    box = {}
    I = interp.Interp(prog, intercepts=sym, max_steps=20_000_000)
    I.inits = kw.get("inits", False)

    def mk(I):
        box["o"] = I.outarray("out", n)
        return [box["o"]] + [I.dag.const(x) if isinstance(x, float) else x for x in tail]

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = I.read(box["o"], n)
    paths = I.explore(fn, mk, post)
    rep.count("traces", len(paths))
    for src, f in I.funcs_seen:
        rep.functions.add(prog.sym[f].dem if f in prog.sym else f)
    return I, paths


def syms(fixed):
    def par(I, mod, dem, args, ins):
        k = f"par {args[0]}"
        return I.dag.const(fixed[k]) if k in fixed else hy.par(I, mod, dem, args, ins)
    return {"kv_hy_var": hy.var, "kv_hy_par": par}


def assign(n, cr, mu0=None):
    def f(rng):
        a = {"par 1": qr(rng)}
        while True:
            x = {"var " + c: rng.randrange(1, P) for c in VARS}
            mu = rng.randrange(1, P) if mu0 is None else mu0
            x["par 0"] = mu
            u = [rng.randrange(1, P) for _ in range(3)]
            r2 = sum(x["var " + c] ** 2 for c in "xyz") % P
            r2s = [r2]
            if cr:
                X = x["var x"]
                yz = r2 - X * X
                r2s = [((X + mu) ** 2 + yz) % P, ((X - 1 + mu) ** 2 + yz) % P]
            if all(isqr(w) for w in r2s) and isqr(sum(w * w for w in u)):
                break
        a.update(x)
        for i in range(3):
            a[f"par {2 + i}"] = u[i]
        if not cr:
            a["var m"] = qr(rng)
        return a
    return f


def system(rep, ev, q, out, off, want, names, tag, what):
    n = len(names)
    if not rep.check(ev.num(out[off]) == n, f"{what}: number of equations", nodeloc(out[off]),
                     f"{tag}: not {n} equations"):
        return
    w = want(q, ev)
    for i, c in enumerate(names):
        rep.check(ev.num(out[off + 1 + 2 * i]) == q("var " + c), f"{what}: order of the states",
                  nodeloc(out[off + 2 + 2 * i]), f"{tag}: equation {i} is not that of {c}")
        rep.check(ev.num(out[off + 2 + 2 * i]) == w[i], f"{what}: d{c}/dt", nodeloc(out[off + 2 + 2 * i]),
                  f"{tag}: the right-hand side of {c} is not the documented equation of motion")


def run(rep):
    prog = program(["d_ta"], SRC)
    zero = {f"par {i}": 0.0 for i in (2, 3, 4)}
    for fixed in ({}, zero, {"par 3": 0.0}, {"par 2": 0.0, "par 4": 0.0}):
        with rep.part("stark dynamics"):
            dyn(rep, prog, "kv_ta_stark", stark, VARS, fixed, "Stark dynamics" + (f" with {fixed}" if fixed else ""))
    for fixed in ({}, {"par 0": 0.0}, {"par 0": 1.0}, {"par 0": 0.5}):
        with rep.part("cr3bp dynamics"):
            dyn(rep, prog, "kv_ta_cr3bp", cr3bp, VARS[:6], fixed, "CR3BP dynamics" + (f" with {fixed}" if fixed else ""))
    for w, name in enumerate(KIND):
        for tol in (1e-16, 1e-8, 0.25):
            with rep.part(name):
                integrator(rep, prog, w, name, tol)


def leaves(I, fixed, ev):
    def q(k):
        return frac(exact(fixed[k])[0]) if k in fixed else ev.num(I.dag.leaf(k))
    return q


def dyn(rep, prog, fn, want, names, fixed, tag):
    I, paths = explore(rep, prog, fn, 21, [], syms(fixed))
    done = 0
    for p in paths:
        if not rep.check(p.outcome == "ret", f"{tag}: built", where(p.loc) if p.outcome == "throw" else "",
                         "building the dynamics throws"):
            continue
        out = p.extra["out"]
        mu0 = frac(exact(fixed["par 0"])[0]) if "par 0" in fixed else None
        a = assign(len(names), want is cr3bp, mu0)
        for ev in samples(p, 3 if rep.thorough else 2, rep, tag, assign=a, need=out[:1 + 2 * len(names)]):
            done += 1
            system(rep, ev, leaves(I, fixed, ev), out, 0, want, names, tag, fn[6:])
    if not done:
        rep.undecided(tag, "no trace could be decided")


def integrator(rep, prog, w, name, tol):
    var, cr = w % 2, w >= 2
    names = VARS[:6] if cr else VARS
    n, npar = len(names), 1 if cr else 5
    codes = ([] if not var else list(range(n)) + ([] if cr else [102, 103, 104]))
    I, paths = explore(rep, prog, "kv_ta_get", 400, [w, tol], hy.SYM, inits=True)
    done = 0
    for p in paths:
        if not rep.check(p.outcome == "ret", f"{name}: obtained", where(p.loc) if p.outcome == "throw" else "",
                         f"{name}({tol}) throws"):
            continue
        out = p.extra["out"]
        for ev in samples(p, 1, rep, name, assign=assign(n, cr), need=out[300:301 + 2 * n]):
            done += 1
            num = lambda i: ev.num(out[i])
            at = "src/ta/%s.cpp %s" % ("cr3bp" if cr else "stark", name)
            rep.check(num(0) == frac(exact(tol)[0]), f"{name}: tolerance", at, f"{name}({tol}) has another tolerance")
            rep.check(num(1) == 0, f"{name}: time", at, f"{name} does not start at time zero")
            ok = rep.check(num(2) == n and num(3) == n + n * len(codes), f"{name}: dimension", at,
                           f"{name} does not have {n} states and {n * len(codes)} sensitivities")
            rep.check(num(4) == npar, f"{name}: parameters", at, f"{name} does not have {npar} parameters")
            if rep.check(num(5) == len(codes), f"{name}: sensitivities", at,
                         f"{name} does not have sensitivities with respect to {len(codes)} quantities"):
                for j, c in enumerate(codes):
                    rep.check(num(200 + j) == c, f"{name}: sensitivities", at,
                              f"{name}: sensitivity {j} is not with respect to "
                              + (f"parameter {c - 100}" if c >= 100 else f"state {names[c]}"))
            if ok:
                for i in range(n):
                    for j, c in enumerate(codes):
                        rep.check(num(10 + n + len(codes) * i + j) == int(c == i), f"{name}: initial sensitivities", at,
                                  f"{name}: the sensitivities do not start from the identity")
            system(rep, ev, leaves(I, {}, ev), out, 300, cr3bp if cr else stark, names, name, name)
    if not done:
        rep.undecided(name, "no trace could be decided")


if __name__ == "__main__":
    sys.exit(main("C16", RULE, run))
