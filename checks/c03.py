import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.states import state_assign
from kv.field import check_cond

N = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]
RULE = ("Each Keplerian propagator is abstractly interpreted into a value graph per trace (elliptic/hyperbolic, sign of "
        "time).  Along every trace, with the Kepler-equation unknown constrained by its equation and differentiated "
        "implicitly, the value numbers of d r/d tof, d v/d tof, the energy and the state at tof=0 are compared with "
        "those of the two-body equations of motion.")


def dot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P


def run(rep):
    prog = program(["d_prop"], CORE)
    for fn in ("kv_propagate_lagrangian", "kv_propagate_lagrangian_u", "kv_propagate_keplerian"):
        name = fn[3:]
        E = Entry(prog, fn, N, 43, extra=[0], rep=rep)
        ndec = 0
        kinds = set()
        for p in E.rets:
            out = p.extra["out"][:6]
            ss = samples(p, 3 if rep.thorough else 2, rep, name, assign=state_assign(), pivots=["tof"], need=out,
                         tries=3000 if rep.thorough else 400)
            if not ss:
                continue
            roots = [r for r in p.roots if r["done"]]
            seeds = root_seeds(E.ins, roots)
            ndec += 1
            for ev in ss:
                mu = ev.num(E.leaf("mu"))
                r0 = [ev.num(n) for n in E.ins[:3]]
                v0 = [ev.num(n) for n in E.ins[3:6]]
                r = [ev.num(n) for n in out[:3]]
                v = [ev.num(n) for n in out[3:]]
                en0 = (dot(v0, v0) * inv(2) - mu * inv(sqrt(dot(r0, r0)))) % P
                kind = "hyperbolic" if isqr(en0) else "elliptic"
                kinds.add(kind)
                d = [total_grad(ev, n, E.ins, roots, seeds)[6] for n in out]
                for i in range(3):
                    rep.check(d[i] == v[i], f"{name}: d r{'xyz'[i]}/dt = v{'xyz'[i]}", nodeloc(out[i]),
                              f"{kind} motion, trace [{pathdesc(p)}]: the time derivative of the returned position is "
                              f"not the returned velocity")
                acc = d[3:]
                ar = dot(acc, r)
                if ar == 0:
                    rep.bad(f"{name}: acceleration", nodeloc(out[3]), "radial acceleration vanishes")
                    continue
                rho = -mu * inv(ar) % P
                good = rho * rho % P == dot(r, r) and all(
                    acc[i] == -mu * r[i] * inv(rho ** 3 % P) % P for i in range(3))
                rep.check(good, f"{name}: dv/dt = -mu r/|r|^3", nodeloc(out[3]),
                          f"{kind} motion, trace [{pathdesc(p)}]: the time derivative of the returned velocity is not "
                          f"the two-body acceleration")
                rep.check((dot(v, v) * inv(2) - mu * inv(rho)) % P == en0, f"{name}: energy conserved",
                          nodeloc(out[3]), f"{kind} motion, trace [{pathdesc(p)}]: the returned state does not have the "
                          f"energy of the initial state")
                initial(rep, E, p, ev, out, name, kind, roots)
        rep.count("traces_decided", ndec)
        if kinds != {"elliptic", "hyperbolic"}:
            rep.undecided(name, f"only {sorted(kinds)} motion could be modelled")


def initial(rep, E, p, ev, out, name, kind, roots):
    """State at zero time of flight equals the initial state."""
    a = dict(ev.assign)
    a["tof"] = 0
    if len(roots) != 1:
        rep.undecided(name, "no single Kepler equation on this trace")
        return
    X = roots[0]["var"]
    for attempt in range(1):
        try:
            e0 = Eval(ev.seed, a)
            e0.num(roots[0]["f0"])
            cands = [0] + [c for c in list(e0.num2circ) + list(e0.num2exp) if c]
            for c in cands[:200]:
                e1 = Eval(ev.seed, a, {X.id: c})
                # the known angles of the initial state must be registered before the unknown
                for n in topo([roots[0]["f0"]]):
                    if X not in n.args and n is not X and n.op in ("atan2", "atan", "acos", "asin", "atanh", "asinh"):
                        try:
                            e1.num(n)
                        except Reject:
                            pass
                try:
                    if e1.num(roots[0]["f0"]) != 0:
                        continue
                    for q in p.conds:
                        check_cond(e1, q, zero_ok=True)
                    got = [e1.num(n) for n in out]
                except Reject:
                    continue
                want = [e1.num(n) for n in E.ins[:6]]
                rep.check(got == want, f"{name}: state at zero time", nodeloc(out[0]),
                          f"{kind} motion, trace [{pathdesc(p)}]: with zero time of flight the returned state is not "
                          f"the initial one")
                return
        except Reject:
            pass
    rep.count("zero_time_not_applicable")


if __name__ == "__main__":
    sys.exit(main("C03", RULE, run))
