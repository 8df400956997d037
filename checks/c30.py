import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy, sf
from kv.sizes import Sizes
from kv.dag import exact
from kv.field import frac

RULE = ("The high-fidelity leg is abstractly interpreted, per number of segments and forward/backward split, with the "
        "integrator of the Stark dynamics as an uninterpreted flow whose sensitivities are uninterpreted too.  The value "
        "numbers of mismatch, constraints and state history are compared with those of the documented leg; the mismatch "
        "is differentiated symbolically and every gradient entry compared by value number.")
VARS = ["x", "y", "z", "vx", "vy", "vz", "m"]


def prog():
    return program(["d_hf"], ["linalg.cpp"] + hy.SRC)


def run(rep):
    pr = prog()
    N = 16 if rep.thorough else 9
    S = Sizes()
    for n in range(1, N + 1):
        with rep.part(f"{n} segments"), S.at(n):
            values(rep, pr, n, n % 2)
    S.beyond(rep, "segments", lambda n: values(rep, pr, n, n % 2, few=True))
    for c, v in (("cut", 0.0), ("cut", 1.0), ("cut", 0.5), ("thrust", 0.0), ("tof", 0.0), ("u0", 0.0), ("u1", 0.0),
                 ("u2", 0.0)):
        with rep.part(f"3 segments, {c}={v}"):
            values(rep, pr, 3, 0, {c: v} if c[0] != "u" else {c + k: v for k in "xyz"})
    G = 8 if rep.thorough else 6
    S = Sizes()
    for n in range(1, G + 1):
        with rep.part(f"gradients, {n} segments"), S.at(n):
            grads(rep, pr, n)
    S.beyond(rep, "segments in the gradients", lambda n: grads(rep, pr, n, few=True))
    for n in range(1, 5 if rep.thorough else 4):
        for g in (2, 3, 5):
            with rep.part(f"history, {n} segments, {g} points"):
                history(rep, pr, n, g)
    S = Sizes()
    for g in range(4, 8):
        with rep.part(f"history, 2 segments, {g} points"), S.at(g):
            history(rep, pr, 2, g)
    S.beyond(rep, "points per segment in the history", lambda g: history(rep, pr, 2, g))
    S = Sizes()
    for n in range(3, 6):
        with rep.part(f"history, {n} segments"), S.at(n):
            history(rep, pr, n, 2, few=True)
    S.beyond(rep, "segments in the history", lambda n: history(rep, pr, n, 2, few=True))
    with rep.part("state derivative"):
        derivative(rep, pr, {})
        derivative(rep, pr, {"ux": 0.0, "uy": 0.0, "uz": 0.0})
        derivative(rep, pr, {"thrust": 0.0})
    rep.assumptions.append(f"decided for legs of 1 to {N} segments ({G} for gradients), every split; the integrator is "
                           "taken as an exact flow of the Stark dynamics with exact sensitivities (C16 decides that it is "
                           "given those dynamics)")


def setup(E, p, ev, n, const):
    q = lambda x: frac(exact(const[x])[0]) if x in const else ev.num(E.leaf(x))
    us = [[q(f"u{i}{c}") * q("thrust") % P for c in "xyz"] for i in range(n)]
    ve = q("isp") * sf.g0() % P
    go = lambda x, u, dt: list(hy.flown(ev, list(x) + [q("mu"), ve] + u + [dt, q("tol")])[0])
    xs = [q(x) for x in hy.BASE[:7]]
    xf = [q(x) for x in hy.BASE[7:14]]
    return q, us, go, xs, xf


def split(rep, E, p, ev, n, const, tag, q):
    conv = p.extra.get("f2i", [])
    ks = {k for _, k in conv} or ({int(n * const["cut"])} if "cut" in const else set())
    if len(ks) != 1:
        rep.undecided(tag, f"{len(ks)} conversions of the cut to a segment count")
        return None
    for node, k in conv:
        rep.check(ev.num(node) == n * q("cut") % P, f"split: forward segments of {n}", nodeloc(node),
                  "the number of forward segments is not derived from cut times the number of segments")
    return ks.pop()


def values(rep, pr, n, form, const={}, few=False):
    leafs = hy.names(n)
    nm = [const.get(x, x) for x in leafs]
    tag = f"{n} segments" + "".join(f", {k}={v}" for k, v in const.items())
    no = 10 + n + 3 * n * n + 7 + n
    E = Entry(pr, "kv_hf_eval", nm, no, extra=[3 * n, form], rep=rep, intercepts=hy.IC,
              f2i_range=sf.few if few else sf.counts, max_steps=100_000_000)
    splits = set()
    for p in E.rets:
        out = p.extra["out"]
        for ev in samples(p, 2 if rep.thorough else 1, rep, tag, assign=hy.assign(n), need=out, hook=hy.hook):
            q, us, go, xs, xf = setup(E, p, ev, n, const)
            nf = split(rep, E, p, ev, n, const, tag, q)
            if nf is None:
                continue
            dt = q("tof") * inv(n) % P
            for i in range(nf):
                xs = go(xs, us[i], dt)
            for i in range(n - 1, nf - 1, -1):
                xf = go(xf, us[i], -dt % P)
            want = [(a - b) % P for a, b in zip(xs, xf)]
            tc, tg, ac = out[10:10 + n], out[10 + n:10 + n + 3 * n * n], out[10 + n + 3 * n * n:]
            for i, c in enumerate(VARS):
                rep.check(ev.num(out[i]) == want[i], f"mismatch {c}", nodeloc(out[i]),
                          f"{tag}, {nf} forward: the {c} mismatch is not the forward state at the cut minus the "
                          f"backward one")
                rep.check(ev.num(ac[i]) == ev.num(out[i]), "constraints: mismatch part", nodeloc(ac[i]),
                          f"{tag}: constraint {i} is not the {c} mismatch")
            splits.add(nf)
            rep.check(ev.num(out[7]) == n and ev.num(out[8]) == 3 * n * n and ev.num(out[9]) == 7 + n, "sizes",
                      nodeloc(out[7]), f"{tag}: wrong number of constraints or gradient entries")
            seeds = p.extra.setdefault("useeds", {E.leaf(x).id: i for i, x in enumerate(leafs[20:])})
            for i in range(n):
                u = [q(f"u{i}{c}") for c in "xyz"]
                w = (sum(x * x for x in u) - 1) % P
                rep.check(ev.num(tc[i]) == w, "throttle constraint value", nodeloc(tc[i]),
                          f"{tag}: constraint {i} is not the squared norm of throttle {i} minus one")
                rep.check(ev.num(ac[7 + i]) == w, "constraints: throttle part", nodeloc(ac[7 + i]),
                          f"{tag}: constraint {7 + i} is not throttle constraint {i}")
                g = ev.grad(tc[i], seeds)
                for j in range(3 * n):
                    w = 0 if leafs[20 + j] in const else g[j] % P
                    rep.check(ev.num(tg[3 * n * i + j]) == w, "throttle constraint gradient", nodeloc(tg[3 * n * i + j]),
                              f"{tag}: gradient entry ({i},{j}) is not the derivative of constraint {i} with respect to "
                              f"throttle component {j}")
    if len(splits) < (min(n + 1, 5) if few else n + 1) and "cut" not in const:
        rep.undecided(tag, f"splits {sorted(splits)} only")


def grads(rep, pr, n, few=False):
    nm = hy.names(n)
    nc = 3 * n + 1
    E = Entry(pr, "kv_hf_grad", nm, 7 + 1 + 98 + 7 * nc, extra=[3 * n], rep=rep, intercepts=hy.IC,
              f2i_range=sf.few if few else sf.counts, max_steps=300_000_000)
    splits = set()
    for p in E.rets:
        out = p.extra["out"]
        mc, size, ga, gb, gc = out[:7], out[7], out[8:57], out[57:106], out[106:]
        ks = {k for _, k in p.extra.get("f2i", [])}
        nf = ks.pop() if len(ks) == 1 else None
        for ev in samples(p, 1, rep, f"{n} segments", assign=hy.assign(n), need=out, hook=hy.hook):
            seeds = p.extra.setdefault("seeds", {x.id: i for i, x in enumerate(E.ins)})
            splits.add(nf)
            rep.check(ev.num(size) == 7 * nc, "gradient size", nodeloc(size), f"{n} segments: wrong size")
            for i in range(7):
                g = ev.grad(mc[i], seeds)
                ctx = f"{n} segments, {nf} forward: row {VARS[i]}"
                for j in range(7):
                    rep.check(ev.num(ga[7 * i + j]) == g[j] % P, "gradient w.r.t. departure state and mass",
                              nodeloc(ga[7 * i + j]), f"{ctx}, column {VARS[j]} is not the derivative of the mismatch")
                    rep.check(ev.num(gb[7 * i + j]) == g[7 + j] % P, "gradient w.r.t. arrival state and mass",
                              nodeloc(gb[7 * i + j]), f"{ctx}, column {VARS[j]} is not the derivative of the mismatch")
                for j in range(3 * n):
                    rep.check(ev.num(gc[nc * i + j]) == g[20 + j] % P, "gradient w.r.t. throttles",
                              nodeloc(gc[nc * i + j]), f"{ctx}, throttle component {j} is not the derivative of the "
                              f"mismatch")
                rep.check(ev.num(gc[nc * i + nc - 1]) == g[14] % P, "gradient w.r.t. time of flight",
                          nodeloc(gc[nc * i + nc - 1]), f"{ctx} is not the derivative of the mismatch w.r.t. tof")
    if len(splits) < (min(n + 1, 5) if few else n + 1):
        rep.undecided(f"gradients, {n} segments", f"splits {sorted(splits, key=str)} only")


def history(rep, pr, n, g, few=False):
    nm = hy.names(n)
    tag = f"state history of {n} segments, {g} points"
    no = 1 + n * (1 + 7 * g)
    E = Entry(pr, "kv_hf_hist", nm, no, extra=[3 * n, g], rep=rep, intercepts=hy.IC,
              f2i_range=sf.few if few else sf.counts, max_steps=100_000_000)
    splits = set()
    for p in E.paths:
        for what, obj, off, size, loc in p.oob:
            rep.check(False, "state history: within bounds", where(loc), f"{tag}: {what} at byte {off} of an object of {size}")
    for p in E.rets:
        if p.oob:
            continue
        out = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=hy.assign(n), need=out, hook=hy.hook):
            q, us, go, xs, xf = setup(E, p, ev, n, {})
            nf = split(rep, E, p, ev, n, {}, tag, q)
            if nf is None:
                continue
            splits.add(nf)
            dt = q("tof") * inv(n * (g - 1)) % P
            want = [None] * n
            for i in range(nf):
                want[i] = [xs]
                for _ in range(g - 1):
                    xs = go(xs, us[i], dt)
                    want[i].append(xs)
            for i in range(n - 1, nf - 1, -1):
                want[i] = [xf]
                for _ in range(g - 1):
                    xf = go(xf, us[i], -dt % P)
                    want[i].append(xf)
            rep.check(ev.num(out[0]) == n, "state history: segments", nodeloc(out[0]), f"{tag}: not {n} segments")
            for i in range(n):
                o = out[1 + i * (1 + 7 * g):][:1 + 7 * g]
                if not rep.check(ev.num(o[0]) == 7 * g, "state history: points", nodeloc(o[0]),
                                 f"{tag}: segment {i} does not have {g} states"):
                    continue
                for k in range(g):
                    for j in range(7):
                        rep.check(ev.num(o[1 + 7 * k + j]) == want[i][k][j], "state history: states",
                                  nodeloc(o[1 + 7 * k + j]),
                                  f"{tag}, {nf} forward: {VARS[j]} at point {k} of segment {i} is not that of the leg")
    if len(splits) < (min(n + 1, 5) if few else n + 1) and not any(p.oob for p in E.paths):
        rep.undecided(tag, f"splits {sorted(splits)} only")


def derivative(rep, pr, const):
    from kv.states import qr
    xs = ["x", "y", "z", "vx", "vy", "vz", "m", "ux", "uy", "uz"]
    nm = [const.get(x, x) for x in hy.names(1)]
    tag = "state derivative" + "".join(f", {k}={v}" for k, v in const.items())
    E = Entry(pr, "kv_hf_rhs", nm, 7, extra=[3, lambda I: I.darray("s", [const.get(x, x) for x in xs])], rep=rep,
              intercepts=hy.IC, f2i_range=sf.counts)
    base = hy.assign(1)

    def assign(rng):
        a = base(rng)
        for s in ("xyz", ("ux", "uy", "uz")):
            while True:
                r = [rng.randrange(1, P) for _ in range(3)]
                if isqr(sum(w * w for w in r)):
                    break
            a.update(zip(s, r))
        a["m"] = qr(rng)
        return a
    done = 0
    for p in E.rets:
        out = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=assign, need=out, hook=hy.hook):
            done += 1
            q = lambda x: frac(exact(const[x])[0]) if x in const else ev.num(E.leaf(x))
            u = [q(c) * q("thrust") % P for c in ("ux", "uy", "uz")]
            w = hy.stark([q(x) for x in xs[:7]], q("mu"), q("isp") * sf.g0() % P, u)
            for i in range(7):
                rep.check(ev.num(out[i]) == w[i], f"state derivative {VARS[i]}", nodeloc(out[i]),
                          f"{tag}: d{VARS[i]}/dt is not that of the Stark dynamics")
    if not done:
        rep.undecided(tag, "no trace could be decided")


if __name__ == "__main__":
    sys.exit(main("C30", RULE, run))
