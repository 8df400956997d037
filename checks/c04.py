import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.states import state_assign

N = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]
RULE = ("Each propagator asked for its state transition matrix is abstractly interpreted into a value graph per trace; "
        "along every trace each of the 36 returned entries has the value number of the derivative of the propagated "
        "component obtained by differentiating the value graph of the propagated state (implicitly through the root "
        "of the Kepler equation), and the state returned has the value numbers of the one returned without a matrix.")


def run(rep):
    prog = program(["d_prop"], CORE)
    for fn, must in (("kv_propagate_lagrangian", True), ("kv_propagate_stm_reynolds", True),
                     ("kv_propagate_lagrangian_both", True), ("kv_propagate_keplerian", False),
                     ("kv_propagate_lagrangian_u", False)):
        with rep.part(fn[3:]):
            one(rep, prog, fn, must)


def one(rep, prog, fn, must):
    name = fn[3:]
    E = Entry(prog, fn, N, 86, extra=[1], rep=rep)
    kinds = set()
    for p in E.rets:
        o = p.extra["out"]
        out = o[:6]
        flag = o[6]
        if flag.op == "c" and flag.args[0] == 0.0:
            if must:
                rep.check(False, f"{name}: matrix returned", where(None), "no matrix is returned although requested")
            continue
        stm = o[7:43]
        ss = samples(p, 3 if rep.thorough else 2, rep, name, assign=state_assign(), pivots=["tof"], need=o[:43],
                     tries=3000 if rep.thorough else 300)
        roots = [r for r in p.roots if r["done"]]
        seeds = root_seeds(E.ins, roots)
        for ev in ss:
            rr = [ev.num(n) for n in E.ins[:3]]
            vv = [ev.num(n) for n in E.ins[3:6]]
            mu = ev.num(E.leaf("mu"))
            en = (sum(x * x for x in vv) * inv(2) - mu * inv(sqrt(sum(x * x for x in rr)))) % P
            kind = "hyperbolic" if isqr(en) else "elliptic"
            kinds.add(kind)
            if fn.endswith("_both"):
                other = o[43:49]
                for i in range(6):
                    rep.check(ev.num(out[i]) == ev.num(other[i]), f"{name}: component {i} unchanged by the request",
                              nodeloc(out[i]), f"{kind} motion, trace [{pathdesc(p)}]: the propagated state differs "
                              f"when the matrix is requested")
                continue
            for i in range(6):
                g = total_grad(ev, out[i], E.ins, roots, seeds)
                for j in range(6):
                    rep.check(ev.num(stm[6 * i + j]) == g[j], f"{name}: stm[{i}][{j}]", nodeloc(stm[6 * i + j]),
                              f"{kind} motion, trace [{pathdesc(p)}]: entry ({i},{j}) is not the derivative of "
                              f"component {i} of the propagated state by component {j} of the initial one")
    if must and kinds != {"elliptic", "hyperbolic"}:
        rep.undecided(name, f"only {sorted(kinds)} motion could be modelled")


if __name__ == "__main__":
    sys.exit(main("C04", RULE, run))
