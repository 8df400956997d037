import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy, vsop, sf
from kv.interp import FuncRef, Ptr, SymI
from kv.planets import KEP

RULE = ("An object of arbitrary contents is abstractly interpreted through its own saving and loading code, over a byte "
        "buffer standing for the archive, into an object that held something else.  As many bytes must be read as were "
        "written, and every getter and computation of the loaded object must have the value number of the saved one's.")
F64 = ("l", "double", 8)
TYPES = ["KEP_F", "KEP_M", "MEQ", "MEQ_R"]
CONV = ("ic2par", "par2ic", "ic2eq", "eq2ic", "par2eq", "eq2par")
ANOM = ("m2e", "e2m", "e2f", "f2e", "m2f", "f2m", "f2n", "n2f", "n2h", "h2n", "zeta2f", "f2zeta")


def opaque(name, n):
    """A conversion as six uninterpreted values of its arguments."""
    def f(I, mod, dem, args, ins):
        loc = I.mkloc(mod, ins)
        sret, ptr, rest = args[0], args[1], args[2:]
        a = [I.fl(I.load_leaf(Ptr(ptr.obj, ptr.off + 8 * i), "double", 8)) for i in range(6)]
        for r in rest:
            a.append(r if not isinstance(r, SymI) else repr(r))
        for i in range(n):
            I.store(F64, I.dag.mk("opq", (name, i) + tuple(a), loc), Ptr(sret.obj, sret.off + 8 * i))
        return None
    return f


def scalar(name):
    def f(I, mod, dem, args, ins):
        return I.dag.mk("opq", (name, 0) + tuple(I.fl(a) for a in args), I.mkloc(mod, ins))
    return f


IC = dict(sf.IC)
IC.update({"kep3::" + c: opaque(c, 6) for c in CONV})
IC.update({"kep3::" + c: scalar(c) for c in ANOM})


def hook(ev, n, g=None, nd=None):
    if n.op == "opq" and g is None:
        return sf.h(ev.seed, n.args[:2], tuple(ev.num(x) if hasattr(x, "op") else x for x in n.args[2:]))
    return sf.hook(ev, n, g, nd)


def trip(rep, pr, fn, tag, nout, names, extra, labels, hook=hook, assign=None, ic=IC, **kw):
    """labels(i): what output i is."""
    I = interp.Interp(pr, intercepts=ic, **kw)
    I.inits = True
    box = {}

    def mk(I):
        box["o"] = [I.outarray("o1", nout), I.outarray("o2", nout)]
        return [I.darray("in", names)] + box["o"] + [e(I) if callable(e) else e for e in extra]

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = [I.read(x, nout) for x in box["o"]]
    paths = I.explore(fn, mk, post)
    rep.count("traces", len(paths))
    rep.count("value_graph_nodes", len(I.dag.nodes))
    for src, f in I.funcs_seen:
        rep.functions.add(pr.sym[f].dem if f in pr.sym else f)
    done = 0
    for p in paths:
        for what, obj, off, size, loc in p.oob:
            rep.check(False, f"{tag}: within bounds", where(loc), f"{what} at byte {off} of an object of {size}")
        if p.outcome != "ret" or p.exhausted:
            continue
        a, b = p.extra["out"]
        evs = None
        done += 1
        for i in range(nout):
            if "unk" in (a[i].op, b[i].op):
                rep.undecided(f"{tag}: {labels(i)}", "unknown value")
                continue
            if a[i] is b[i]:
                rep.ok(f"{tag}: {labels(i)}", nodeloc(a[i]))
                continue
            if evs is None:
                evs = samples(p, 1, rep, tag, assign=assign, hook=hook, need=[x for x in a + b if x.op != "unk"], tries=300,
                              slope=False)
                conv = {}
                evs = [ev for ev in evs
                       if not any(conv.setdefault(ev.num(x), k) != k for x, k in p.extra.get("f2i", []))]
            for ev in evs:
                try:
                    same = ev.num(a[i]) == ev.num(b[i])
                except Unknown as e:
                    rep.undecided(tag, str(e))
                    continue
                rep.check(same, f"{tag}: {labels(i).split(' [')[0]}", nodeloc(b[i]) or nodeloc(a[i]),
                          f"{tag}: {labels(i)} of the loaded object differs from that of the saved one"
                          if i else f"{tag}: {labels(i)} differ between saving and loading")
    if not done:
        rep.undecided(tag, f"no trace returns: {[(p.outcome, where(p.loc) if p.loc else '') for p in paths[:3]]}")


def sym(n):
    return lambda I: SymI(n)


def double(n):
    return lambda I: I.dag.leaf(n)


def arr(names):
    return lambda I: I.darray("in2", names)


def table(first, rows):
    """rows: (name, count)"""
    flat = [first]
    for n, c in rows:
        flat += [n if c == 1 else f"{n} [{k}]" for k in range(c)]
    return lambda i: flat[i] if i < len(flat) else "rest"


BYTES = "bytes"


def epoch(rep, pr):
    for fresh in (0, 1):
        trip(rep, pr, "kv_s_epoch", "epoch", 5, [0.0], [sym("us"), sym("us2"), fresh],
             table(BYTES, [("time stamp", 1), ("mjd2000", 1), ("mjd", 1), ("jd", 1)]))


def leg(rep, pr, n, n2):
    rows = [("get_nseg", 1), ("get_nseg_fwd", 1), ("get_nseg_bck", 1), ("get_rvs", 6), ("get_rvf", 6)]
    rows += [(x, 1) for x in ("get_ms", "get_mf", "get_tof", "get_max_thrust", "get_isp", "get_mu", "get_cut")]
    rows += [("number of throttles", 1), ("get_throttles", 3 * n), ("compute_mismatch_constraints", 7),
             ("compute_throttle_constraints", n), ("compute_tc_grad", 3 * n * n)]
    nout = 1 + sum(c for _, c in rows)

    def assign(rng):
        a = sf.assign(n, "A")(rng)
        a.update(sf.assign(max(n2, 1), "B")(rng))
        return a
    trip(rep, pr, "kv_s_sf", "sims_flanagan", nout, sf.names(n, "A"), [arr(sf.names(max(n2, 1), "B")), 3 * n, 3 * n2],
         table(BYTES, rows), assign=assign, f2i_range=sf.counts)


def kepler(rep, pr, how, how2, type):
    k = KEP[:10]
    rows = [(x, 1) for x in ("get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius", "get_ref_epoch")]
    rows += [("eph", 6), ("period", 1), ("length of the name", 1), ("get_name", 20), (f"elements ({TYPES[type]})", 6)]
    trip(rep, pr, "kv_s_kep", "keplerian", 1 + sum(c for _, c in rows), k,
         [arr([x + "'" for x in k]), sym("us"), sym("us2"), how, how2, type, double("t")], table(BYTES, rows))


def jpl(rep, pr, a, b, type):
    rows = [(x, 1) for x in ("get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius")]
    rows += [("eph", 6), ("length of the name", 1), ("get_name", 20), (f"elements ({TYPES[type]})", 6)]
    trip(rep, pr, "kv_s_jpl", "jpl_lp", 1 + sum(c for _, c in rows), [0.0], [a, b, type, double("t")], table(BYTES, rows))


def lambert(rep, pr, n, n2):
    names = lambda m, pre: [pre + x for x in ("r0x", "r0y", "r0z", "r1x", "r1y", "r1z", "tof", "mu", "s", "c", "lambda")] \
        + [f"{pre}{q}{i}" for i in range(2 * m + 1) for q in ("x", "ax", "ay", "az", "bx", "by", "bz")]
    k = 2 * n + 1
    rows = [("get_r0", 3), ("get_r1", 3), ("get_tof", 1), ("get_mu", 1), ("get_Nmax", 1), ("semiperimeter", 1), ("chord", 1),
            ("lambda", 1), ("solutions in get_x", 1), ("solutions in get_v0", 1), ("solutions in get_v1", 1),
            ("solutions in get_iters", 1), ("get_x", k), ("get_v0", 3 * k), ("get_v1", 3 * k), ("get_iters", k)]

    def iters(I):
        o = I.alloc("iters", 64) if hasattr(I, "alloc") else None
        p = I.outarray("iters", 8)
        for i in range(16):
            I.store(("l", "i32", 4), 3 + i, Ptr(p.obj, p.off + 4 * i))
        return p
    trip(rep, pr, "kv_s_lp", "lambert_problem", 1 + sum(c for _, c in rows), names(n, ""), [arr(names(n2, "o")), iters, n, n2],
         table(BYTES, rows))


def hf(rep, pr, n, n2):
    rows = [(x, 1) for x in ("get_nseg", "get_nseg_fwd", "get_nseg_bck")]
    rows += [("get_rvs", 6), ("get_ms", 1), ("get_rvf", 6), ("get_mf", 1)]
    rows += [(x, 1) for x in ("get_tof", "get_max_thrust", "get_isp", "get_mu", "get_cut", "get_tol")]
    rows += [("get_rvms, get_rvmf", 14), ("number of throttles", 1), ("get_throttles", 3 * n),
             ("compute_mismatch_constraints", 7), ("compute_throttle_constraints", n), ("compute_mc_grad", 98 + 7 * (3 * n + 1))]
    base = hy.names(n), hy.names(max(n2, 1))

    def assign(rng):
        a = hy.assign(n)(rng)
        a.update({"o" + k: v for k, v in hy.assign(max(n2, 1))(rng).items()})
        return a
    trip(rep, pr, "kv_s_hf", "sims_flanagan_hf", 1 + sum(c for _, c in rows), base[0],
         [arr(["o" + x for x in base[1]]), 3 * n, 3 * n2], table(BYTES, rows), assign=assign, hook=hy.hook, ic=hy.IC,
         f2i_range=sf.counts)


def stark(rep, pr):
    from checks import c31
    names = ["mu", "veff", "tol", "mu'", "veff'", "tol'"] + c31.VARS + ["ux", "uy", "uz", "tof"]
    rows = [(x, 1) for x in ("get_mu", "get_veff", "get_tol")] + [("propagate", 7), ("propagate_var", 77)]

    def assign(rng):
        a = c31.assign(rng)
        a.update({"mu'": a["mu2"], "veff'": a["veff2"], "tol'": a["mu"] * a["mu"] % P})
        return a
    trip(rep, pr, "kv_s_stark", "stark_problem", 1 + sum(c for _, c in rows), names, [], table(BYTES, rows), assign=assign,
         hook=hy.hook, ic=hy.IC)


def vsops(rep, pr, n, n2):
    rows = [("eph", 6), ("length of the name", 1)]

    def assign(rng):
        return {k: rng.randrange(1, P) for k in ("h", "k", "t")}
    trip(rep, pr, "kv_s_vsop", "vsop2013", 8, [0.], [n, double("h"), n2, double("k"), double("t")], table(BYTES, rows),
         assign=assign, hook=vsop.hook, ic=vsop.IC)


def run(rep):
    with rep.part("vsop2013"):
        try:
            pr = vsop.prog()
        except AnalysisError as e:
            rep.undecided("vsop2013", str(e))
        else:
            for n, n2 in ((0, 0), (4, 8), (8, 4), (2, 3)):
                vsops(rep, pr, n, n2)
    try:
        pr = program(["d_s11n", "d_string"], CORE + sf.SRC + ["planet.cpp", "epoch.cpp", "udpla/keplerian.cpp", "udpla/jpl_lp.cpp"])
    except AnalysisError as e:
        rep.undecided("epoch, leg, planets", str(e))
    else:
        with rep.part("epoch"):
            epoch(rep, pr)
        for n, n2 in ((2, 0), (3, 0), (1, 2), (2, 3)):
            with rep.part(f"sims_flanagan {n} {n2}"):
                leg(rep, pr, n, n2)
        for how, how2 in ((-1, 9), (0, 9), (-1, 0), (1, -1), (2, 9)):
            for t in (0, 2) if not rep.thorough else range(4):
                with rep.part(f"keplerian {how} {how2} {t}"):
                    kepler(rep, pr, how, how2, t)
        for a, b in ((0, -1), (2, 7), (7, 3), (4, 5)):
            for t in (0, 2):
                with rep.part(f"jpl_lp {a} {b} {t}"):
                    jpl(rep, pr, a, b, t)
    try:
        pr = program(["d_s11n_lp"], CORE + ["lambert_problem.cpp"])
    except AnalysisError as e:
        rep.undecided("lambert_problem", str(e))
    else:
        for n, n2 in ((0, 0), (1, 0), (0, 2), (2, 1)):
            with rep.part(f"lambert_problem {n} {n2}"):
                lambert(rep, pr, n, n2)
    try:
        pr = program(["d_hf"], ["linalg.cpp"] + hy.SRC)
    except AnalysisError as e:
        rep.undecided("sims_flanagan_hf, stark_problem", str(e))
    else:
        for n, n2 in ((2, 0), (3, 0), (1, 2)):
            with rep.part(f"sims_flanagan_hf {n} {n2}"):
                hf(rep, pr, n, n2)
        with rep.part("stark_problem"):
            stark(rep, pr)


if __name__ == "__main__":
    sys.exit(main("C18", RULE, run))
