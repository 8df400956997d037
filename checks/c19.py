import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.dag import Node, topo
from kv.interp import Thrown
from kv.report import main
from kv import flyby, hy, lamb, planets, sf, vsop
from kv.pure import Pure

RULE = ("Effect analysis over abstract traces: no trace of a computation writes a mutable global or static without a lock "
        "(other than initialising it once from constants), asks the environment for anything, or writes the object a "
        "const member function was called on; where state that outlives a call is written under a lock or per thread, a "
        "second call with one argument changed must not depend on the first.")


class Calls:
    """Traces of an entry point under the recording interpreter."""

    def __init__(self, rep, pr, fn, args, nout, first=None, **kw):
        I = self.I = Pure(pr, **kw)
        I.inits = True
        box = {}

        def mk(I):
            if first is not None:
                try:
                    I.call(pr.sym[fn], first(I) + [])
                except Thrown:
                    pass
            a = args(I, box)
            I.start()
            return a

        def post(I, r):
            if r.outcome == "ret" and "o" in box:
                r.extra["out"] = I.read(box["o"], nout)
            r.extra["pure"] = I.result()
        self.paths = I.explore(fn, mk, post)
        rep.count("traces", len(self.paths))
        rep.count("instructions_interpreted", I.total_steps)
        for src, f in I.funcs_seen:
            rep.functions.add(pr.sym[f].dem if f in pr.sym else f)


def short(o):
    n = o.name.split("#")[0].split("@")[0]
    try:
        return subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip() or n
    except OSError:
        return n


def entry(rep, what, pr, fn, names, nout, extra=(), **kw):
    kw.setdefault("max_steps", 60_000_000)
    kind = what.split(",")[0]
    with rep.part(what):
        def args(I, box, names=names):
            box["o"] = I.outarray("out", nout)
            return [I.darray("in", names) if names is not None else None, box["o"]] + [e(I) if callable(e) else e for e in extra]
        C = Calls(rep, pr, fn, args, nout, **kw)
        again = False
        for p in C.paths:
            writes, env, tainted, changed = p.extra["pure"]
            for o, off, held, loc, tls in writes:
                if held or tls:
                    again = True
                else:
                    rep.check(False, f"{kind}: no shared state is written", where(locof(loc)),
                              f"{what}: writes {short(o)}, which outlives the call and is shared between threads, without a lock")
            if any("atomic" in u[0] or "cmpxchg" in u[0] for u in p.unknown):
                rep.undecided(what, "atomic operations")
            for w, loc in env:
                rep.check(False, f"{kind}: results depend on the arguments only", where(locof(loc)), f"{what}: calls {w}")
            for w, loc in tainted:
                rep.check(False, f"{kind}: statics are the same whatever call comes first", where(locof(loc)),
                          f"{what}: {short(w)} keeps what it is given by the first call")
            for o, off, loc in changed:
                rep.check(False, f"{kind}: const member functions leave the object as it is", where(locof(loc)),
                          f"{what}: writes {short(o)}, part of the object")
            rep.ok(f"{kind}: no shared state is written")
            rep.ok(f"{kind}: results depend on the arguments only")
            if fn.startswith("kv_const"):
                rep.ok(f"{kind}: const member functions leave the object as it is")
        if not C.paths:
            rep.undecided(what, "no trace ends")
        if again:
            for k, n in enumerate(names):
                if isinstance(n, str):
                    twice(rep, what, pr, fn, names, nout, extra, k, args, kw)


def twice(rep, what, pr, fn, names, nout, extra, k, args, kw):
    """A second call that differs from the first in argument k does not depend on the first."""
    old = "first " + names[k]
    kind = what.split(",")[0]

    def first(I):
        return args(I, {}, [old if i == k else n for i, n in enumerate(names)])
    C = Calls(rep, pr, fn, args, nout, first=first, **kw)
    for p in C.paths:
        if p.outcome != "ret":
            continue
        bad = [x for x in p.extra["out"] if isinstance(x, Node) and any(n.op == "in" and n.args[0] == old for n in topo([x]))]
        for x in bad[:1]:
            rep.check(False, f"{kind}: a call does not depend on earlier calls", nodeloc(x),
                      f"{what}: a result of the second of two calls depends on the first's {names[k]}")
        if not bad:
            rep.ok(f"{kind}: a call does not depend on earlier calls")


def kernels(rep):
    pr = program(["d_prop"], CORE)
    st = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]
    for f in ("propagate_lagrangian", "propagate_lagrangian_u", "propagate_keplerian", "propagate_stm_reynolds"):
        for stm in (0, 1):
            entry(rep, f, pr, "kv_" + f, st[:-1] + ["t", "mu"], 43, [stm])
    for n in (0, 1, 2, 5):
        for stm in (0, 1):
            entry(rep, "propagate_lagrangian_v", pr, "kv_propagate_lagrangian_v", st + [f"t{i}" for i in range(n)],
                  max(43 * n, 1), [stm, n], intercepts=sf.IC)
    pr = program(["d_elem"], CORE)
    for f in ("ic2par", "par2ic", "ic2eq", "eq2ic", "eq2par", "par2eq"):
        for r in (0, 1):
            entry(rep, f, pr, "kv_" + f, [f"x{i}" for i in range(6)] + ["mu"], 6, [r])
    pr = program(["d_lambert"], ["lambert_problem.cpp"])
    ic = dict(lamb.IC)
    if not any(pr.by_dem(k) for k in ic):
        ic = {}
    for cw in (0, 1):
        for revs in range(3):
            entry(rep, "lambert_problem", pr, "kv_lambert", lamb.N, 5 + 7 * (2 * revs + 3), [cw, revs], intercepts=ic,
                  f2i_range=range(revs + 2))
    entry(rep, "lambert_problem, with its solver", pr, "kv_lambert", lamb.N, 5 + 7 * 3, [0, 0], f2i_range=range(2))
    pr = program(["d_flyby"], flyby.SRC)
    for f, n in (("con", flyby.IN), ("dv", flyby.IN), ("con_pl", flyby.IN), ("dv_pl", flyby.IN), ("vout", flyby.VO)):
        entry(rep, "fly-by, " + f, pr, "kv_fb_" + f, n, 8)
    pr = program(["d_anom"], [])
    for f in ("m2e", "e2m", "m2f", "f2m", "e2f", "f2e", "n2h", "h2n", "n2f", "f2n", "h2f", "f2h", "zeta2f", "f2zeta"):
        if "kv_" + f in pr.sym:
            entry(rep, "anomalies, " + f, pr, "kv_" + f, ["x", "e"], 1)


def legs(rep):
    pr = program(["d_sf"], CORE + sf.SRC)
    kw = dict(intercepts=sf.IC, f2i_range=sf.counts)
    for n in (1, 2, 3):
        entry(rep, "sims_flanagan", pr, "kv_sf_eval", sf.names(n), 9 + n + 3 * n * n, [3 * n], **kw)
        entry(rep, "sims_flanagan gradients", pr, "kv_sf_grad", sf.names(n), 7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
    pr = program(["d_hf"], ["linalg.cpp"] + hy.SRC)
    kw = dict(intercepts=hy.IC, f2i_range=sf.counts)
    for n in (1, 2, 3):
        entry(rep, "sims_flanagan_hf", pr, "kv_hf_eval", hy.names(n), 10 + 7 + 2 * n + 3 * n * n, [3 * n, n % 2], **kw)
        entry(rep, "sims_flanagan_hf gradients", pr, "kv_hf_grad", hy.names(n), 7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
        entry(rep, "sims_flanagan_hf state history", pr, "kv_hf_hist", hy.names(n), 1 + n * 22, [3 * n, 3], **kw)


def ephemerides(rep):
    pr = planets.prog()
    for kind in range(3):
        entry(rep, "planet, getters", pr, "kv_pl_get", planets.N, 4, [kind])
        entry(rep, "planet, eph", pr, "kv_pl_eph", planets.N, 6, [kind])
        entry(rep, "planet, eph_v", pr, "kv_pl_ephv", planets.N[:-1] + ["t0", "t1"], 13, [kind, 2])
        entry(rep, "planet, period", pr, "kv_pl_period", planets.N, 1, [kind])
        for t in range(4):
            entry(rep, "planet, elements", pr, "kv_pl_elements", planets.N, 6, [kind, t])
    for how in range(-1, 4):
        for t in range(4):
            entry(rep, "keplerian, elements", pr, "kv_kep_elem", planets.KEP, 6, [how, t], intercepts=sf.IC)
        entry(rep, "keplerian, eph", pr, "kv_kep_eph", planets.KEP, 6, [how], intercepts=sf.IC)
    for w in range(8):
        entry(rep, "jpl_lp, eph", pr, "kv_jpl_eph", ["t"], 6, [w])
        entry(rep, "jpl_lp, elements", pr, "kv_jpl_elements", ["t"], 6, [w, 0])
    pr = program(["d_epoch"], ["epoch.cpp"])
    for w in range(3):
        entry(rep, "epoch, from days", pr, "kv_ep_days", ["x"], 4, [w])
    for us in (0, -1, 86400000000, 123456789012345):
        entry(rep, "epoch, views", pr, "kv_ep_views", ["x"], 4, [us])


def consts(rep):
    pr = program(["d_const"], CORE + sf.SRC[:] + ["lambert_problem.cpp", "planet.cpp", "epoch.cpp", "udpla/keplerian.cpp",
                                                  "udpla/jpl_lp.cpp"])
    for n in (1, 2, 3):
        entry(rep, "sims_flanagan, const members", pr, "kv_const_sf", sf.names(n), 9 + n, [3 * n], intercepts=sf.IC,
              f2i_range=sf.counts)
    ic = dict(lamb.IC)
    if not any(pr.by_dem(k) for k in ic):
        ic = {}
    for cw in (0, 1):
        for revs in range(3):
            entry(rep, "lambert_problem, const members", pr, "kv_const_lambert", lamb.N, 1, [cw, revs], intercepts=ic,
                  f2i_range=range(revs + 2))
    for how in range(-1, 4):
        for t in range(4):
            entry(rep, "keplerian, const members", pr, "kv_const_kep", planets.KEP, 7, [how, t], intercepts=sf.IC)
    for w in range(8):
        entry(rep, "jpl_lp, const members", pr, "kv_const_jpl", ["t"], 7, [w])
    entry(rep, "planet, const members", pr, "kv_const_pl", planets.C6 + ["mu", "t"], 7)
    for us in (0, 1, 86400000000):
        entry(rep, "epoch, const members", pr, "kv_const_ep", ["a", "b"], 1, [us])


def run(rep):
    for f in (kernels, legs, ephemerides, consts):
        with rep.part(f.__name__):
            f(rep)


if __name__ == "__main__":
    sys.exit(main("C19", RULE, run))
