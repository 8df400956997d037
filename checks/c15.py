import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import sf
from kv.sizes import Sizes

RULE = ("The impulsive leg's mismatch and its gradients are abstractly interpreted into one value graph per number of "
        "segments and split, with the Keplerian propagator as an uninterpreted reversible flow whose derivatives are "
        "its transition matrix and the two-body field.  The mismatch is differentiated symbolically and every gradient "
        "entry compared by value number.")


def run(rep):
    prog = program(["d_sf"], CORE + sf.SRC)
    N = 12 if rep.thorough else 7
    S = Sizes()
    for n in range(1, N + 1):
        with rep.part(f"{n} segments"), S.at(n):
            one(rep, prog, n)
    S.beyond(rep, "segments", lambda n: one(rep, prog, n, few=True))
    rep.assumptions.append(f"decided for legs of 1 to {N} segments (every split); the transition matrix is taken as the "
                           f"Jacobian of the propagated state (C04)")


VARS = ["x", "y", "z", "vx", "vy", "vz", "m"]


def one(rep, prog, n, few=False):
    names = sf.names(n)
    nc = 3 * n + 1
    E = Entry(prog, "kv_sf_grad", names, 7 + 1 + 98 + 7 * nc, extra=[3 * n], rep=rep, intercepts=sf.IC,
              f2i_range=sf.few if few else sf.counts, max_steps=300_000_000)
    ix = {x: i for i, x in enumerate(names)}
    splits = set()
    for p in E.rets:
        out = p.extra["out"]
        mc, size, ga, gb, gc = out[:7], out[7], out[8:57], out[57:106], out[106:]
        ks = {k for _, k in p.extra.get("f2i", [])}
        nf = ks.pop() if len(ks) == 1 else None
        for ev in samples(p, 1, rep, f"{n} segments", assign=sf.assign(n), need=out, hook=sf.hook):
            seeds = p.extra.setdefault("seeds", {x.id: i for i, x in enumerate(E.ins)})
            splits.add(nf)
            rep.check(ev.num(size) == 7 * nc, "gradient size", nodeloc(size), f"{n} segments: wrong size")
            for i in range(7):
                g = ev.grad(mc[i], seeds)
                ctx = f"{n} segments, {nf} forward: row {VARS[i]}"
                for j in range(7):
                    rep.check(ev.num(ga[7 * i + j]) == g[j] % P, "gradient w.r.t. departure state and mass",
                              nodeloc(ga[7 * i + j]), f"{ctx}, column {VARS[j]} is not the derivative of the mismatch")
                    rep.check(ev.num(gb[7 * i + j]) == g[7 + j] % P, "gradient w.r.t. arrival state and mass",
                              nodeloc(gb[7 * i + j]), f"{ctx}, column {VARS[j]} is not the derivative of the "
                              f"mismatch")
                for j in range(3 * n):
                    rep.check(ev.num(gc[nc * i + j]) == g[19 + j] % P, "gradient w.r.t. throttles",
                              nodeloc(gc[nc * i + j]), f"{ctx}, throttle component {j} is not the derivative of the "
                              f"mismatch")
                rep.check(ev.num(gc[nc * i + nc - 1]) == g[ix["tof"]] % P, "gradient w.r.t. time of flight",
                          nodeloc(gc[nc * i + nc - 1]), f"{ctx} is not the derivative of the mismatch w.r.t. tof")
    if len(splits) < (min(n + 1, 5) if few else n + 1):
        rep.undecided(f"{n} segments", f"splits {sorted(splits, key=str)} only")


if __name__ == "__main__":
    sys.exit(main("C15", RULE, run))
