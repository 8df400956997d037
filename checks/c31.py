import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy
from kv.states import qr
from kv.dag import exact
from kv.field import frac

RULE = ("The Stark problem is abstractly interpreted with the integrator as an uninterpreted flow with uninterpreted "
        "sensitivities.  After every combination of construction, setters and an earlier propagation, the propagated "
        "state must have the value number of that flow at the given state, thrust, time and the current parameters, and "
        "the returned matrices those of its sensitivities, row by row; a vanishing mass must be refused.")
NAMES = ["mu", "veff", "tol", "mu2", "veff2", "x", "y", "z", "vx", "vy", "vz", "m", "ux", "uy", "uz", "tof"]
VARS = NAMES[5:12]


def assign(rng):
    a = {k: qr(rng) for k in ("mu", "veff", "tol", "mu2", "veff2", "m")}
    a["tof"] = rng.randrange(1, P)
    for s in (("x", "y", "z"), ("ux", "uy", "uz"), ("vx", "vy", "vz")):
        while True:
            r = [rng.randrange(1, P) for _ in range(3)]
            if isqr(sum(w * w for w in r)):
                break
        a.update(zip(s, r))
    return a


def run(rep):
    pr = program(["d_hf"], ["linalg.cpp"] + hy.SRC)
    u0 = {"ux": 0.0, "uy": 0.0, "uz": 0.0}
    for var in (0, 1):
        for which in range(4):
            for before in (0, 1):
                for const in ({}, u0, {"tof": 0.0}, {"m": 0.0}):
                    with rep.part(f"propagate{'_var' * var}, setters {which}, {const}"):
                        one(rep, pr, var, which, before, const)


def one(rep, pr, var, which, before, const):
    fn = "propagate_var" if var else "propagate"
    tag = fn + (", set_mu" if which & 1 else "") + (", set_veff" if which & 2 else "") \
        + (", after other propagations" if before else "") + "".join(f", {k}={v}" for k, v in const.items())
    nm = [const.get(x, x) for x in NAMES]
    n = 3 + 7 + (49 + 21) * var
    E = Entry(pr, "kv_stark", nm, n, extra=[which, var, before], rep=rep, intercepts=hy.IC)
    done = 0
    if const.get("m") == 0.0:
        for p in E.paths:
            if p.outcome == "throw":
                done += 1
            rep.check(p.outcome == "throw", f"{fn}: zero mass refused", "src/stark_problem.cpp",
                      f"{tag}: a vanishing initial mass is not refused")
        return
    for p in E.throws:
        # the state given beforehand has the mass x
        rep.check(any(q.op == "c" and q.args[0] == 0 for c in p.conds for q in c[:2]) and before,
                  f"{fn}: completes", where(p.loc), f"{tag}: throws; trace [{pathdesc(p)}]")
    for p in E.rets:
        out = p.extra["out"]
        for ev in samples(p, 2 if rep.thorough else 1, rep, tag, assign=assign, need=out, hook=hy.hook):
            done += 1
            q = lambda x: frac(exact(const[x])[0]) if x in const else ev.num(E.leaf(x))
            mu, ve = q("mu2" if which & 1 else "mu"), q("veff2" if which & 2 else "veff")
            for i, (w, g) in enumerate(((mu, "get_mu"), (ve, "get_veff"), (q("tol"), "get_tol"))):
                rep.check(ev.num(out[i]) == w, f"{g}", nodeloc(out[i]), f"{tag}: {g} does not return the value set")
            y, M, U = hy.flown(ev, [q(c) for c in VARS] + [mu, ve] + [q(c) for c in ("ux", "uy", "uz")]
                               + [q("tof"), q("tol")])
            for i in range(7):
                rep.check(ev.num(out[3 + i]) == y[i], f"{fn}: state", nodeloc(out[3 + i]),
                          f"{tag}: the {VARS[i]} returned is not that of the trajectory at the final time")
            if var:
                for i in range(7):
                    for j in range(7):
                        o = out[10 + 7 * i + j]
                        rep.check(ev.num(o) == M[i][j], f"{fn}: state transition matrix", nodeloc(o),
                                  f"{tag}: entry ({i},{j}) is not d{VARS[i]}/d{VARS[j]}")
                    for j in range(3):
                        o = out[59 + 3 * i + j]
                        rep.check(ev.num(o) == U[i][j], f"{fn}: sensitivity to the thrust", nodeloc(o),
                                  f"{tag}: entry ({i},{j}) is not d{VARS[i]}/du{'xyz'[j]}")
    if not done:
        rep.undecided(tag, "no trace could be decided")


if __name__ == "__main__":
    sys.exit(main("C31", RULE, run))
