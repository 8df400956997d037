import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main

RULE = ("Every entry point reaching a root solver is abstractly interpreted over all its traces; at each solver call "
        "the analysis forks on 'converged' and 'iteration budget exhausted' (the solver leaves the budget in its "
        "counter).  Every trace on which some call exhausted its budget must end in an exception.")
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "tof", "mu"]
ANOM = ["m2e", "m2f", "n2h", "n2f"]


def one(rep, prog, fn, names, nout, extra=(), **kw):
    E = Entry(prog, fn, names, nout, extra=extra, rep=rep, **kw)
    n = 0
    for p in E.paths:
        if not p.exhausted:
            continue
        n += 1
        what, loc = p.exhausted[0][:2]
        key = f"{fn[3:]}: exhausted iteration budget reported"
        w = where(locof(loc)) if not isinstance(loc, list) else where(loc)
        if p.roots and p.roots[0].get("f0") is not None and isinstance(p.roots[0]["f0"], Node):
            w = nodeloc(p.roots[0]["f0"]) + " (solver)"
        if p.outcome == "backedge":
            rep.count("traces_widened")
            continue
        rep.check(p.outcome == "throw", key, w,
                  f"trace [{pathdesc(p)}]: the root solver may return with its iterations exhausted ({what}) and the "
                  f"function then returns normally")
    if not n:
        rep.undecided(fn[3:], "no root solver call found")


def run(rep):
    prog = program(["d_prop"], CORE)
    for fn in ("kv_propagate_lagrangian", "kv_propagate_lagrangian_u", "kv_propagate_keplerian",
               "kv_propagate_stm_reynolds"):
        with rep.part(fn[3:]):
            one(rep, prog, fn, ST, 43, [1])
            one(rep, prog, fn, ST, 43, [0])
    with rep.part("propagate_lagrangian_v"):
        one(rep, prog, "kv_propagate_lagrangian_v", ST[:6] + ["mu", "t0", "t1"], 86, [0, 2])
    with rep.part("anomalies"):
        prog = program(["d_anom"], [])
        for a in ANOM:
            one(rep, prog, "kv_" + a, ["x", "ecc"], 1)


if __name__ == "__main__":
    sys.exit(main("C09", RULE, run))
