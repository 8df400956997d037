import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.sizes import Sizes
from kv import sf
from kv.states import qr
from kv.field import frac
from kv.dag import exact

RULE = ("Every constructor and setter of the leg is abstractly interpreted with symbolic and boundary arguments.  On each "
        "trace that completes, the trace's conditions must imply that the new values are in range; on each trace that "
        "throws, that some new value is out of range; after a throw every observable equals its value before the call.")

NONNEG = ("tof", "thrust", "isp", "mu")
SETTERS = {0: ("set_rvs", ["r0x", "r0y", "r0z", "v0x", "v0y", "v0z"]), 1: ("set_ms", ["ms"]),
           2: ("set_rvf", ["r1x", "r1y", "r1z", "v1x", "v1y", "v1z"]), 3: ("set_mf", ["mf"]), 4: ("set_tof", ["tof"]),
           5: ("set_max_thrust", ["thrust"]), 6: ("set_isp", ["isp"]), 7: ("set_mu", ["mu"]), 8: ("set_cut", ["cut"]),
           9: ("set_throttles", ["u"]), 10: ("set_throttles(iterators)", ["u"]),
           11: ("set", sf.BASE + ["u"])}


def valid(ev, E, names, which):
    """Validity of the sampled new values: None when within range, else a description."""
    for k, x in names.items():
        if k not in which:
            continue
        v = frac(exact(x)[0]) if isinstance(x, float) else ev.num(E.leaf(x))
        if isinstance(x, float):
            lo, hi = x < 0, x > 1
        else:
            lo, hi = v != 0 and not isqr(v), v != 1 and isqr(v - 1)
        if k in NONNEG and lo:
            return f"negative {k}"
        if k == "cut" and (lo or hi):
            return "cut outside [0,1]"
    return None


def anyassign(names, p):
    """Scalars of either sign, except where the trace compares them with zero."""
    sign = {}
    for a, b, rel, loc in p.conds:
        if a.op == "in" and b.op == "c" and b.args[0] == 0 and rel in ("lt", "le", "gt", "ge"):
            sign[a.args[0]] = rel in ("gt", "ge")

    def f(rng):
        a = {}
        for k, x in names:
            if isinstance(x, str):
                a[x] = qr(rng)
                if not sign.get(x, rng.random() < 0.5):
                    a[x] = P - a[x]
        return a
    return f


def run(rep):
    prog = program(["d_sf"], CORE + sf.SRC)
    S = Sizes()
    for nth in (0, 1, 2, 3, 4, 5, 6, 9):
        with rep.part(f"constructor, {nth} throttle values"), S.at(nth // 3 if nth and nth % 3 == 0 else 0):
            ctor(rep, prog, nth, {})
    S.beyond(rep, "segments at construction", lambda n: [ctor(rep, prog, m, {}) for m in (3 * n, 3 * n + 1)])
    for k, v in boundary():
        with rep.part(f"constructor, {k}={v}"):
            ctor(rep, prog, 6, {k: v})
    for w, (name, pars) in SETTERS.items():
        S = Sizes()
        for nth in ((0, 1, 2, 3, 4, 5, 6, 9) if "u" in pars else (6,)):
            with rep.part(f"{name}, {nth} throttle values"), S.at(nth // 3 if nth and nth % 3 == 0 else 0):
                setter(rep, prog, w, nth, {})
        S.beyond(rep, f"segments given to {name}",
                 lambda n, w=w: [setter(rep, prog, w, m, {}) for m in (3 * n, 3 * n + 1)], 4)
        for k, v in boundary():
            if k in pars:
                with rep.part(f"{name}, {k}={v}"):
                    setter(rep, prog, w, 6, {k: v})


def boundary():
    for k in NONNEG:
        yield k, 0.0
    for v in (0.0, 1.0, 0.5):
        yield "cut", v
    for k in NONNEG + ("cut",):
        yield k, -1.0
    yield "cut", 1.5


def judge(rep, E, p, threw, names, pars, nth, tag, loc):
    badth = "u" in pars and (nth == 0 or nth % 3 != 0)
    if badth:
        rep.check(threw, f"{tag}: throttle count", loc, f"accepts {nth} throttle values")
        return True
    return False


def ctor(rep, prog, nth, const):
    n = nth // 3
    names = [const.get(k, k) for k in sf.BASE] + [f"u{i}" for i in range(nth)]
    E = Entry(prog, "kv_sf_ctor", names, 23 + nth, extra=[nth], rep=rep, f2i_range=sf.few)
    nm = {k: const.get(k, k) for k in sf.BASE}
    pars = sf.BASE + ["u"]
    for p in E.rets + E.throws:
        threw = p.outcome == "throw"
        loc = where(p.loc) if threw else "include/kep3/leg/sims_flanagan.hpp"
        if judge(rep, E, p, threw, nm, pars, nth, "constructor", loc):
            continue
        for ev in samples(p, 2, rep, "constructor", assign=anyassign(nm.items(), p), tries=400):
            v = valid(ev, E, nm, pars)
            verdict(rep, "constructor", threw, v, loc, p, const)


def verdict(rep, tag, threw, v, loc, p, const):
    c = "".join(f" with {k}={x}" for k, x in const.items())
    if threw:
        rep.check(v is not None, f"{tag}: rejects only invalid values", loc,
                  f"throws although every new value is in range{c}; trace [{pathdesc(p)}]")
    else:
        rep.check(v is None, f"{tag}: rejects {v or 'invalid values'}", loc,
                  f"completes with {v}{c}; trace [{pathdesc(p)}]")


def setter(rep, prog, w, nth, const):
    name, pars = SETTERS[w]
    n0 = 2
    A = sf.names(n0, "A")
    nm = {k: const.get(k, "B" + k) for k in sf.BASE}
    B = [nm[k] for k in sf.BASE] + [f"Bu{i}" for i in range(nth)]
    nd = 23 + max(6, nth)
    box = {}
    I = interp.Interp(prog, f2i_range=sf.few)

    def mk(I):
        box["o"] = I.outarray("out", 100 + nd)
        return [I.darray("a", A), I.darray("b", B), box["o"], 3 * n0, nth, w]

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = I.read(box["o"], 100 + nd)

    class E:
        leaf = staticmethod(I.dag.leaf)
    paths = I.explore("kv_sf_mod", mk, post)
    rep.count("traces", len(paths))
    for src, f in I.funcs_seen:
        rep.functions.add(prog.sym[f].dem if f in prog.sym else f)

    def assign(rng, p):
        a = sf.assign(n0, "A")(rng)
        a.update(anyassign(nm.items(), p)(rng))
        return a
    for p in paths:
        if p.outcome != "ret":
            continue      # construction of the original leg failed
        out = p.extra["out"]
        flag, before, after = out[0], out[1:1 + nd], out[100:100 + nd]
        if flag.op != "c":
            rep.undecided(name, "outcome not decided")
            continue
        threw = flag.args[0] != 0
        loc = where(p.extra["caught"][-1]) if threw and p.extra.get("caught") else nodeloc(after[0])
        loc = loc if loc != "?" else f"sims_flanagan::{name}"
        if threw:
            ss = samples(p, 1, rep, name, assign=lambda r: assign(r, p), tries=600)
            for ev in ss:
                for i in range(23 + 3 * n0):
                    same = before[i] is after[i] or ev.num(before[i]) == ev.num(after[i])
                    rep.check(same, f"{name}: unchanged after a throw", loc,
                              f"a rejected call leaves {label(i)} modified; trace [{pathdesc(p)}]")
        if judge(rep, E, p, threw, nm, pars, nth, name, loc):
            continue
        for ev in samples(p, 2, rep, name, assign=lambda r: assign(r, p), tries=600):
            v = valid(ev, E, nm, pars)
            verdict(rep, name, threw, v, loc, p, const)


def label(i):
    if i < 3:
        return ("nseg", "nseg_fwd", "nseg_bck")[i]
    if i < 22:
        return sf.BASE[i - 3]
    return "the throttles"


if __name__ == "__main__":
    sys.exit(main("C12", RULE, run))
