import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import flyby, hy, lamb, planets, sf
from kv.dag import topo
from kv.sizes import Sizes

RULE = ("Entry points are abstractly interpreted for every small number of segments, inputs, revolutions or grid points, "
        "over symbolic values: on every trace each access lies inside the object it is made to, no released object is "
        "touched, no integer division is by zero, no container is given an impossible size, and no result depends on "
        "memory that was never written.")
SIZES = ("length_error", "bad_alloc", "bad_array_new_length", "out_of_range")


def entry(rep, what, pr, fn, names, nout, extra=(), **kw):
    kw.setdefault("max_steps", 60_000_000)
    with rep.part(what):
        E = Entry(pr, fn, names, nout, extra=extra, rep=rep, **kw)
        judge(rep, what, E)


def judge(rep, what, E):
    kind = what.split(",")[0]
    live = 0
    for p in E.paths:
        for w, obj, off, size, loc in p.oob:
            rep.check(False, f"{kind}: accesses within bounds", where(loc),
                      f"{what}: {w} of byte {off} of an object of {size} bytes" if "released" not in w else f"{what}: {w}")
        for w, loc in p.divs:
            rep.check(False, f"{kind}: no division by zero", where(locof(loc)), f"{what}: {w}")
        if p.outcome == "throw":
            typ = p.throw.typ or ""
            rep.check(not any(s in typ for s in SIZES), f"{kind}: sizes", where(locof(p.loc)), f"{what}: {typ} is thrown")
        if p.exhausted:
            rep.count("traces_cut_short")
            continue
        live += 1
        if not p.oob:
            rep.ok(f"{kind}: accesses within bounds")
        if not p.divs:
            rep.ok(f"{kind}: no division by zero")
        if p.outcome == "ret":
            bad = [n for n in topo(p.extra["out"]) if n.op == "unk" and "uninit" in n.args]
            out = [i for i, n in enumerate(p.extra["out"]) if bad and n.op != "unk" and any(m in bad for m in topo([n]))]
            rep.check(not out, f"{kind}: results depend on written memory only", nodeloc(p.extra["out"][out[0]]) if out else "",
                      f"{what}: result {out[:1]} depends on memory never written")
    if not live:
        rep.undecided(what, "no trace ends")


class Calls:
    """Traces of an entry point whose arguments are not one block of inputs and one of outputs."""

    def __init__(self, rep, pr, fn, args, nout, **kw):
        I = interp.Interp(pr, **kw)
        I.inits = True
        box = {}

        def mk(I):
            box["o"] = []
            return args(I, box["o"])

        def post(I, r):
            if r.outcome == "ret":
                r.extra["out"] = [x for o in box["o"] for x in I.read(o, nout)]
        self.paths = I.explore(fn, mk, post)
        rep.count("traces", len(self.paths))
        rep.count("instructions_interpreted", I.total_steps)
        for src, f in I.funcs_seen:
            rep.functions.add(pr.sym[f].dem if f in pr.sym else f)


def out(I, o, n):
    o.append(I.outarray(f"out{len(o)}", n))
    return o[-1]


def calls(rep, what, *a, **kw):
    with rep.part(what):
        judge(rep, what, Calls(rep, *a, **kw))


SCALARS = {"ms": 2., "mf": 1.5, "tof": 3., "thrust": .25, "isp": 7., "mu": 1., "tol": 1e-8}


def plain(base, pre, n, cut):
    """A leg's block with its scalars chosen, so that only the split and the sizes vary."""
    return [cut if x == "cut" else SCALARS.get(x, pre + x) for x in base] + [f"{pre}u{i}" for i in range(max(n, 1))]


def after(rep, pr, what, fn, base, w, a, b, kw, nout, tail):
    """Made with a segments, set to b segments by setter w, then used; for cuts giving every kind of split."""
    for ca, cb in ((.5, .5), (0., 1.), (1., 0.), (.4, .7)):
        A, B, C = plain(base, "A", 3 * a, ca), plain(base, "B", 3 * b, cb), plain(base, "C", 3 * b, cb)
        calls(rep, f"{what} used after a setter, from {a} to {b} segments, setter {w}, cuts {ca} and {cb}", pr, fn,
              lambda I, o: [I.darray("a", A), I.darray("b", B), I.darray("c", C), out(I, o, nout), out(I, o, nout),
                            3 * a, 3 * b, 3 * b, w, -1] + tail, nout, **kw)


def legs(rep):
    pr = program(["d_sf"], CORE + sf.SRC)
    kw = dict(intercepts=sf.IC, f2i_range=sf.counts)
    N = 14 if rep.thorough else 8
    S = Sizes()

    def one(n):
        nm = sf.names(n)
        entry(rep, f"sims_flanagan, {n} segments", pr, "kv_sf_eval", nm, 9 + n + 3 * n * n, [3 * n], **kw)
        entry(rep, f"sims_flanagan gradients, {n} segments", pr, "kv_sf_grad", nm, 7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
    for n in range(1, N + 1):
        with S.at(n):
            one(n)
    kw["f2i_range"] = sf.few
    S.beyond(rep, "segments of an impulsive leg", one, 4)
    kw["f2i_range"] = sf.counts
    for n in (1, 3):
        for c in (0., 1.):
            nm = [c if x == "cut" else x for x in sf.names(n)]
            entry(rep, f"sims_flanagan gradients, {n} segments and cut {c:g}", pr, "kv_sf_grad", nm,
                  7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
    for n, cut in ((90, .4), (290, .9)):
        nm = plain(sf.BASE, "", 3 * n, cut)
        entry(rep, f"sims_flanagan, {n} segments", pr, "kv_sf_eval", nm, 9 + n + 3 * n * n, [3 * n], **kw)
        if n < 100 or rep.thorough:
            entry(rep, f"sims_flanagan gradients, {n} segments", pr, "kv_sf_grad", nm, 7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
    for a in (1, 2, 3):
        for w in (9, 10, 11):
            for b in (0, 1, 3, 6, 9, 12):
                A, B = sf.names(a, "A"), [f"B{x}" for x in sf.BASE] + [f"u{i}" for i in range(max(b, 1))]
                calls(rep, f"sims_flanagan setters, {a} segments, setter {w}, {b} throttle values", pr, "kv_sf_mod",
                      lambda I, o: [I.darray("a", A), I.darray("b", B), out(I, o, 160), 3 * a, b, w], 160, **kw)
        for w in (8, 9, 10, 11):
            for b in (1, 2, 3, 4, 7) if w > 8 else (a,):
                after(rep, pr, "sims_flanagan", "kv_sf_hist", sf.BASE, w, a, b, kw, 90, [])


def highfi(rep):
    pr = program(["d_hf"], ["linalg.cpp"] + hy.SRC)
    kw = dict(intercepts=hy.IC, f2i_range=sf.counts)
    N = 8 if rep.thorough else 5
    S = Sizes(60)

    def one(n, gs=(2,)):
        nm = hy.names(n)
        entry(rep, f"sims_flanagan_hf, {n} segments", pr, "kv_hf_eval", nm, 10 + 7 + 2 * n + 3 * n * n, [3 * n, n % 2], **kw)
        entry(rep, f"sims_flanagan_hf gradients, {n} segments", pr, "kv_hf_grad", nm, 7 + 1 + 98 + 7 * (3 * n + 1), [3 * n], **kw)
        for g in gs:
            entry(rep, f"sims_flanagan_hf state history, {n} segments and {g} points", pr, "kv_hf_hist", nm, 1 + n * (1 + 7 * g),
                  [3 * n, g], **kw)
    for n in range(1, N + 1):
        with S.at(n):
            one(n, range(2, 9 if rep.thorough else 6))
    kw["f2i_range"] = sf.few
    S.beyond(rep, "segments of a high-fidelity leg", one, 4)
    kw["f2i_range"] = sf.counts
    for a in (1, 2):
        for w in (9, 10, 11, 15, 16):
            for b in (0, 1, 3, 6, 9):
                A, B = hy.names(a), ["B" + x for x in hy.BASE] + [f"w{i}" for i in range(max(b, 1))]
                calls(rep, f"sims_flanagan_hf setters, {a} segments, setter {w}, {b} throttle values", pr, "kv_hf_mod",
                      lambda I, o: [I.darray("a", A), I.darray("b", B), out(I, o, 160), 3 * a, b, w], 160, **kw)
        for w in (8, 9, 10, 11, 15, 16):
            for b in (1, 2, 3, 4) if w > 8 else (a,):
                after(rep, pr, "sims_flanagan_hf", "kv_hf_hist2", hy.BASE, w, a, b, kw, 400, [1])


def lambert(rep):
    pr = program(["d_lambert"], ["lambert_problem.cpp"])
    ic = dict(lamb.IC)
    if not any(pr.by_dem(k) for k in ic):
        ic = {}
    for cw in (0, 1):
        S = Sizes(100)

        def one(revs):
            entry(rep, f"lambert_problem, {revs} revolutions", pr, "kv_lambert", lamb.N, 5 + 7 * (2 * revs + 3), [cw, revs],
                  intercepts=ic, f2i_range=sorted({*range(min(8, revs + 2)), revs - 1, revs, revs + 1} - {-1}))
        for revs in range(9 if rep.thorough else 6):
            with S.at(revs):
                one(revs)
        S.beyond(rep, "revolutions", one)


def vectors(rep):
    pr = program(["d_prop"], CORE)
    st = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]
    for n in list(range(9)) + [17, 33, 65, 129, 270]:
        for stm in (0, 1):
            entry(rep, f"propagate_lagrangian_v, {n} inputs", pr, "kv_propagate_lagrangian_v", st + [f"t{i}" for i in range(n)],
                  max(43 * n, 1), [stm, n], intercepts=sf.IC)
    for f in ("propagate_lagrangian", "propagate_lagrangian_u", "propagate_keplerian", "propagate_stm_reynolds"):
        for stm in (0, 1):
            entry(rep, f, pr, "kv_" + f, st[:-1] + ["t", "mu"], 43, [stm])
    pr = program(["d_elem"], CORE)
    for f in ("ic2par", "par2ic", "ic2eq", "eq2ic", "eq2par", "par2eq"):
        for r in (0, 1):
            entry(rep, f, pr, "kv_" + f, [f"x{i}" for i in range(6)] + ["mu"], 6, [r])


def ephemerides(rep):
    pr = planets.prog()
    for n in list(range(5)) + [17, 270]:
        ts = [f"t{i}" for i in range(n)]
        for kind in (0, 1):
            entry(rep, f"planet::eph_v, {n} inputs", pr, "kv_pl_ephv_each", planets.N[:-1] + ts, 1 + 12 * n, [kind, n])
        for how in (-1, 0):
            entry(rep, f"keplerian eph_v, {n} inputs", pr, "kv_kep_ephv", planets.KEP[:-1] + ts, 1 + 12 * n, [how, n],
                  intercepts=sf.IC)
        if n <= 2:
            for w in range(8):
                entry(rep, f"jpl_lp eph_v, {n} inputs", pr, "kv_jpl_ephv", ts, 1 + 12 * n, [w, n], inits=True)
    for how in range(-1, 4):
        for t in range(4):
            entry(rep, f"keplerian elements, type {t}", pr, "kv_kep_elem", planets.KEP, 6, [how, t], intercepts=sf.IC)


def strings(rep):
    from checks import c20
    pr = program(["d_epoch", "d_string"], ["epoch.cpp"])
    for n in range(0, 40):
        for f in (0, 1):
            what = f"epoch from a string, {n} characters"
            with rep.part(what):
                E = c20.text(rep, pr, "kv_ep_string", n, [n, f])
                for p in E.paths:
                    for w, obj, off, size, loc in p.oob:
                        rep.check(False, "epoch from a string: accesses within bounds", where(loc),
                                  f"{what}: {w} of byte {off} of an object of {size} bytes")
                    rep.ok("epoch from a string: accesses within bounds")


def run(rep):
    for f in (legs, highfi, lambert, vectors, ephemerides, strings):
        with rep.part(f.__name__):
            f(rep)


if __name__ == "__main__":
    sys.exit(main("C27", RULE, run))
