import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import sf
from kv.sizes import Sizes
from kv.dag import exact
from kv.field import frac

RULE = ("The impulsive leg's constraints are abstractly interpreted, per number of segments and forward/backward split, "
        "with the Keplerian propagator as an uninterpreted time-reversible flow.  The value numbers of the mismatch "
        "are compared with those of the documented impulsive transfer, and those of the throttle constraints and "
        "their gradient with |u_i|^2 - 1 and its symbolic derivative.")


def run(rep):
    prog = program(["d_sf"], CORE + sf.SRC)
    S = Sizes(300)
    for n in range(1, 33 if rep.thorough else 17):
        with rep.part(f"{n} segments"), S.at(n):
            one(rep, prog, n)
    S.beyond(rep, "segments", lambda n: one(rep, prog, n, few=True))
    # boundary values as constants
    for c, v in (("cut", 0.0), ("cut", 1.0), ("cut", 0.5), ("cut", 0.7), ("thrust", 0.0), ("tof", 0.0), ("u1", 0.0),
                 ("u0", 0.0), ("u2", 0.0)):
        with rep.part(f"3 segments, {c}={v}"):
            one(rep, prog, 3, {c: v} if c[0] != "u" else {c + k: v for k in "xyz"})
    rep.assumptions.append("decided for legs of 1 to %d segments (every split); the propagator is taken as a "
                           "deterministic time-reversible flow (C03)" % (32 if rep.thorough else 16))


def one(rep, prog, n, const={}, few=False):
    leafs = sf.names(n)
    names = [const.get(x, x) for x in leafs]
    tag = f"{n} segments" + "".join(f", {k}={v}" for k, v in const.items())
    no = 9 + n + 3 * n * n
    E = Entry(prog, "kv_sf_eval", names, no, extra=[3 * n], rep=rep, intercepts=sf.IC,
              f2i_range=sf.few if few else sf.counts, max_steps=100_000_000)
    splits = set()
    for p in E.rets:
        out = p.extra["out"]
        conv = p.extra.get("f2i", [])
        ks = {k for _, k in conv} or {int(n * const.get("cut", -1))}
        if len(ks) != 1:
            rep.undecided(tag, f"{len(ks)} conversions of the cut to a segment count")
            continue
        nf = ks.pop()
        for ev in samples(p, 2 if rep.thorough else 1, rep, tag, assign=sf.assign(n), need=out[:7],
                          hook=sf.hook):
            q = lambda x: frac(exact(const[x])[0]) if x in const else ev.num(E.leaf(x))
            for node, k in conv:
                rep.check(ev.num(node) == n * q("cut") % P, f"split: forward segments of {n}", nodeloc(node),
                          "the number of forward segments is not derived from cut times the number of segments")
            us = [[q(f"u{i}{c}") for c in "xyz"] for i in range(n)]
            dt = q("tof") * inv(n) % P
            ve = q("isp") * sf.g0() % P
            xf, mf = sf.half(ev, [q(x) for x in leafs[:6]], q("ms"), us[:nf], dt, q("thrust"), ve, q("mu"), 1)
            xb, mb = sf.half(ev, [q(x) for x in leafs[7:13]], q("mf"), us[nf:][::-1], dt, q("thrust"), ve,
                             q("mu"), -1)
            want = [(a - b) % P for a, b in zip(xf + [mf], xb + [mb])]
            for i, c in enumerate(("x", "y", "z", "vx", "vy", "vz", "mass")):
                rep.check(ev.num(out[i]) == want[i], f"mismatch {c}", nodeloc(out[i]),
                          f"{tag}, {nf} forward: the {c} mismatch is not the forward minus backward impulsive "
                          f"transfer of the documentation")
            splits.add(nf)
            tc, tg = out[9:9 + n], out[9 + n:]
            rep.check(ev.num(out[7]) == n and ev.num(out[8]) == 3 * n * n, "throttle constraints: sizes",
                      nodeloc(out[7]), f"{tag}: wrong number of throttle constraints or gradient entries")
            seeds = p.extra.setdefault("useeds", {E.leaf(x).id: i for i, x in enumerate(leafs[19:])})
            for i in range(n):
                rep.check(ev.num(tc[i]) == (sum(x * x for x in us[i]) - 1) % P, "throttle constraint value",
                          nodeloc(tc[i]), f"{tag}: constraint {i} is not the squared norm of throttle {i} minus "
                          f"one")
                g = ev.grad(tc[i], seeds)
                for j in range(3 * n):
                    if leafs[19 + j] in const:
                        rep.check(ev.num(tg[3 * n * i + j]) == 0, "throttle constraint gradient", "", "not zero")
                        continue
                    rep.check(ev.num(tg[3 * n * i + j]) == g[j] % P, "throttle constraint gradient",
                              nodeloc(tg[3 * n * i + j]), f"{tag}: gradient entry ({i},{j}) is not the "
                              f"derivative of constraint {i} with respect to throttle component {j}")
    if len(splits) < (min(n + 1, 5) if few else n + 1) and "cut" not in const:
        rep.undecided(tag, f"splits {sorted(splits)} only")


if __name__ == "__main__":
    sys.exit(main("C14", RULE, run))
