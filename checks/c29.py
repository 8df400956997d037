import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy, sf
from kv.sizes import Sizes
from kv.states import qr
from kv.field import frac
from kv.dag import exact

RULE = ("Every constructor and setter of the high-fidelity leg is abstractly interpreted with symbolic and boundary "
        "arguments: a trace that completes must imply new values in range, one that throws some value out of range and "
        "every observable as before.  The leg after each setter (and pairs) and a leg freshly constructed from the "
        "resulting parameters are interpreted into one value graph, the integrators being uninterpreted flows: getters, "
        "constraints and gradients must have the same value numbers.")

NONNEG = ("tof", "thrust", "isp", "mu")
ST0, ST1 = hy.BASE[:6], hy.BASE[7:13]
SETTERS = {0: ("set_rvs", ST0), 1: ("set_ms", ["ms"]), 2: ("set_rvf", ST1), 3: ("set_mf", ["mf"]),
           4: ("set_tof", ["tof"]), 5: ("set_max_thrust", ["thrust"]), 6: ("set_isp", ["isp"]), 7: ("set_mu", ["mu"]),
           8: ("set_cut", ["cut"]), 9: ("set_throttles", ["u"]), 10: ("set_throttles(iterators)", ["u"]),
           11: ("set(rvs, ms, ...)", hy.BASE + ["u"]), 12: ("set_tol", ["tol"]), 13: ("set_rvms", ST0 + ["ms"]),
           14: ("set_rvmf", ST1 + ["mf"]), 15: ("set(rvms, ...)", hy.BASE + ["u"]),
           16: ("set(rvms, throttles, rvmf, tof)", hy.BASE[:15] + ["u"])}
VARS = ["x", "y", "z", "vx", "vy", "vz", "mass"]


def prog():
    return program(["d_hf"], ["linalg.cpp"] + hy.SRC)


def boundary():
    for k in NONNEG:
        yield k, 0.0
    for v in (0.0, 1.0, 0.5):
        yield "cut", v
    for v in (0.0, 1.0, 1.5, 1e-16):
        yield "tol", v
    for k in NONNEG + ("cut", "tol"):
        yield k, -1.0
    yield "cut", 1.5


def run(rep):
    pr = prog()
    for form in (0, 1):
        S = Sizes()
        for nth in (0, 1, 2, 3, 4, 6, 9):
            with rep.part(f"constructor {form}, {nth} throttle values"), S.at(nth // 3 if nth and nth % 3 == 0 else 0):
                ctor(rep, pr, form, nth, {})
        S.beyond(rep, "segments at construction", lambda n: [ctor(rep, pr, form, m, {}) for m in (3 * n, 3 * n + 1)], 4)
        for k, v in boundary():
            with rep.part(f"constructor {form}, {k}={v}"):
                ctor(rep, pr, form, 6, {k: v})
    for w, (name, pars) in SETTERS.items():
        S = Sizes()
        for nth in ((0, 1, 2, 3, 4, 6, 9) if "u" in pars else (6,)):
            with rep.part(f"{name}, {nth} throttle values"), S.at(nth // 3 if nth and nth % 3 == 0 else 0):
                setter(rep, pr, w, nth, {})
        S.beyond(rep, f"segments given to {name}",
                 lambda n, w=w: [setter(rep, pr, w, m, {}) for m in (3 * n, 3 * n + 1)], 4)
        for k, v in boundary():
            if k in pars:
                with rep.part(f"{name}, {k}={v}"):
                    setter(rep, pr, w, 6, {k: v})
    for w, (name, pars) in SETTERS.items():
        for n0, n1 in ((((2, 1), (1, 2), (3, 2)) if rep.thorough else ((2, 1), (1, 2))) if "u" in pars else ((2, 2),)):
            for used in ((0, 1) if rep.thorough else (1,)):
                with rep.part(f"{name} {n0}->{n1}"):
                    hist(rep, pr, [w], n0, n1, used)
        S = Sizes()
        for n in (3, 4, 5) if "u" in pars else ():
            with rep.part(f"{name} 1->{n}"), S.at(n):
                hist(rep, pr, [w], 1, n, 0, sf.two)
        S.beyond(rep, f"segments after {name}", lambda n, w=w: hist(rep, pr, [w], 1, n, 0, sf.two), 4)
        with rep.part(f"default leg, {name}"):
            default(rep, pr, w)
    with rep.part("default leg"):
        default(rep, pr, -1)
    with rep.part("set_and_compute_constraints"):
        for n in (1, 2, 3):
            chromo(rep, pr, n)
    pairs = [(a, b) for a in SETTERS for b in SETTERS if a != b] if rep.thorough else \
        [(8, 9), (9, 8), (5, 9), (9, 5), (5, 16), (16, 5), (12, 6), (12, 7), (6, 12), (7, 12), (12, 16), (15, 12), (11, 8)]
    for a, b in pairs:
        with rep.part(f"{SETTERS[a][0]}, {SETTERS[b][0]}"):
            hist(rep, pr, [a, b], 2, 1, 0)


# ------------------------------------------------------------------------------------------------ arguments in range
def out_of_range(ev, I, names, which):
    for k, x in names.items():
        if k not in which:
            continue
        if isinstance(x, float):
            lo, hi, zero = x < 0, x > 1, x == 0
        else:
            v = ev.num(I.dag.leaf(x))
            lo, hi, zero = v != 0 and not isqr(v), v != 1 and isqr(v - 1), v == 0
        if k in NONNEG and lo:
            return f"negative {k}"
        if k == "cut" and (lo or hi):
            return "cut outside [0,1]"
        if k == "tol" and (lo or hi or zero):
            return "tolerance outside (0,1]"
    return None


def anyassign(names, p):
    sign = {}
    for a, b, rel, loc in p.conds:
        if a.op == "in" and b.op == "c" and b.args[0] == 0 and rel in ("lt", "le", "gt", "ge"):
            sign[a.args[0]] = rel in ("gt", "ge")

    def f(rng):
        a = {}
        for k, x in names:
            if isinstance(x, str):
                a[x] = qr(rng)
                if not sign.get(x, rng.random() < 0.5):
                    a[x] = P - a[x]
        return a
    return f


def verdict(rep, tag, threw, v, loc, p, const, badth, nth):
    c = "".join(f" with {k}={x}" for k, x in const.items())
    if badth:
        rep.check(threw, f"{tag}: throttle count", loc, f"accepts {nth} throttle values")
    elif threw:
        rep.check(v is not None, f"{tag}: rejects only invalid values", loc,
                  f"throws although every new value is in range{c}; trace [{pathdesc(p)}]")
    else:
        rep.check(v is None, f"{tag}: rejects {v or 'invalid values'}", loc,
                  f"completes with {v}{c}; trace [{pathdesc(p)}]")


def ctor(rep, pr, form, nth, const):
    nm = {k: const.get(k, k) for k in hy.BASE}
    names = list(nm.values()) + [f"u{i}" for i in range(nth)]
    E = Entry(pr, "kv_hf_ctor", names, 38 + nth, extra=[nth, form], rep=rep, f2i_range=sf.few, intercepts=hy.IC)
    tag = "constructor(rvs, ms, ...)" if form == 0 else "constructor(rvms, ...)"
    bad = nth == 0 or nth % 3 != 0
    for p in E.rets + E.throws:
        threw = p.outcome == "throw"
        loc = where(p.loc) if threw else "sims_flanagan_hf " + tag
        if bad:
            verdict(rep, tag, threw, None, loc, p, const, True, nth)
            continue
        for ev in samples(p, 1, rep, tag, assign=anyassign(nm.items(), p), tries=400):
            verdict(rep, tag, threw, out_of_range(ev, E.I, nm, hy.BASE), loc, p, const, False, nth)
            if not threw:
                getters(rep, ev, tag, p.extra["out"], [x if isinstance(x, float) else E.leaf(x) for x in names], nth)


def getters(rep, ev, tag, out, want, nth):
    """The dump block against the parameters given."""
    num = lambda x: frac(exact(x)[0]) if isinstance(x, float) else ev.num(x)
    for i, x in enumerate(want):
        for j in positions(i):
            rep.check(ev.num(out[j]) == num(x), f"{tag}: {label(j, nth)}", nodeloc(out[j]),
                      f"after {tag} the {label(j, nth)} is not the value given")
    n = nth // 3
    rep.check(ev.num(out[0]) == n and ev.num(out[37]) == nth, f"{tag}: number of segments", nodeloc(out[0]),
              f"after {tag} with {n} segments the number of segments is wrong")
    rep.check((ev.num(out[1]) + ev.num(out[2])) % P == n, f"{tag}: forward plus backward", nodeloc(out[1]),
              f"after {tag} the forward and backward segments do not add up")


def positions(i):
    """Places of the dump block that show parameter i."""
    if i >= 20:
        return [38 + i - 20]
    r = [3 + i]
    if i < 7:
        r.append(23 + i)
    elif i < 14:
        r.append(30 + i - 7)
    return r


def setter(rep, pr, w, nth, const):
    name, pars = SETTERS[w]
    n0 = 2
    A = hy.names(n0, "A")
    nm = {k: const.get(k, "B" + k) for k in hy.BASE}
    B = list(nm.values()) + [f"Bu{i}" for i in range(nth)]
    nd = 38 + max(6, nth)
    box = {}
    I = interp.Interp(pr, f2i_range=sf.few, intercepts=hy.IC)

    def mk(I):
        box["o"] = I.outarray("out", 100 + nd)
        return [I.darray("a", A), I.darray("b", B), box["o"], 3 * n0, nth, w]

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = I.read(box["o"], 100 + nd)
    paths = I.explore("kv_hf_mod", mk, post)
    seen(rep, pr, I, paths)

    def assign(rng, p):
        a = hy.assign(n0, "A")(rng)
        a.update(anyassign(nm.items(), p)(rng))
        return a
    bad = "u" in pars and (nth == 0 or nth % 3 != 0)
    for p in paths:
        if p.outcome != "ret":
            continue      # construction of the original leg failed
        out = p.extra["out"]
        flag, before, after = out[0], out[1:1 + nd], out[100:100 + nd]
        if flag.op != "c":
            rep.undecided(name, "outcome not decided")
            continue
        threw = flag.args[0] != 0
        loc = where(p.extra["caught"][-1]) if threw and p.extra.get("caught") else f"sims_flanagan_hf::{name}"
        for ev in samples(p, 1, rep, name, assign=lambda r: assign(r, p), tries=200):
            if threw:
                for i in range(38 + 3 * n0):
                    same = before[i] is after[i] or ev.num(before[i]) == ev.num(after[i])
                    rep.check(same, f"{name}: unchanged after a throw", loc,
                              f"a rejected call leaves {label(i, 3 * n0)} modified; trace [{pathdesc(p)}]")
            verdict(rep, name, threw, out_of_range(ev, I, nm, pars), loc, p, const, bad, nth)


def seen(rep, pr, I, paths):
    rep.count("traces", len(paths))
    for src, f in I.funcs_seen:
        rep.functions.add(pr.sym[f].dem if f in pr.sym else f)


# ------------------------------------------------------------------------------------------------------ histories
def label(i, nth):
    if i < 3:
        return ("get_nseg", "get_nseg_fwd", "get_nseg_bck")[i]
    if i < 23:
        return "getter of " + hy.BASE[i - 3]
    if i < 37:
        return ("get_rvms", "get_rvmf")[(i - 23) // 7]
    if i < 38 + nth:
        return "get_throttles"
    i -= 38 + nth
    if i < 7:
        return "mismatch " + VARS[i]
    i -= 7 + nth // 3
    if i < 0:
        return "throttle constraints"
    return ("gradient w.r.t. the departure", "gradient w.r.t. the arrival", "gradient w.r.t. throttles and tof")[
        min(2, i // 49)]


def size(n):
    return 38 + 3 * n + 7 + n + 98 + 7 * (3 * n + 1)


def two(rep, pr, fn, arrays, nd, tail, splits=sf.few):
    I = interp.Interp(pr, intercepts=hy.IC, f2i_range=splits, max_steps=30_000_000)
    box = {}

    def mk(I):
        box["o"] = [I.outarray("o1", nd), I.outarray("o2", nd)]
        return [I.darray("a%d" % i, a) for i, a in enumerate(arrays)] + box["o"] + tail

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = [I.read(x, nd) for x in box["o"]]
    paths = I.explore(fn, mk, post)
    seen(rep, pr, I, paths)
    return I, paths


def consistent(ev, p):
    # the count of forward segments is one function of cut * segments: traces giving it two values do not exist
    conv = {}
    return not any(conv.setdefault(ev.num(x), k) != k for x, k in p.extra.get("f2i", []))


def compare(rep, ev, tag, a, b, nd, nth, off=0):
    for i in range(nd):
        same = a[i] is b[i] or ev.num(a[i]) == ev.num(b[i])
        rep.check(same, f"{tag}: {label(i - off, nth)}", nodeloc(a[i]),
                  f"after {tag} the {label(i - off, nth)} differs from that of a leg constructed with the same "
                  f"parameters")


def hist(rep, pr, ws, n0, n1, used, splits=sf.few):
    tag = " then ".join(SETTERS[w][0] for w in ws)
    pars = set(sum((SETTERS[w][1] for w in ws), []))
    A, B = hy.names(n0, "A"), hy.names(n1, "B")
    n = n1 if "u" in pars else n0
    C = [("B" if k in pars else "A") + k for k in hy.BASE]
    C += [("B" if "u" in pars else "A") + f"u{i}{c}" for i in range(n) for c in "xyz"]
    nd = size(n)
    I, paths = two(rep, pr, "kv_hf_hist2", [A, B, C], nd,
                   [3 * n0, 3 * n1, 3 * n, ws[0], ws[1] if len(ws) > 1 else -1, used], splits)

    def assign(rng):
        a = hy.assign(n0, "A")(rng)
        a.update(hy.assign(n1, "B")(rng))
        return a
    done = 0
    for p in paths:
        if p.outcome != "ret":
            continue
        a, b = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=assign, hook=hy.hook, need=a + b, tries=200):
            if not consistent(ev, p):
                continue
            done += 1
            compare(rep, ev, tag, a, b, nd, 3 * n)
            getters(rep, ev, tag, a, [I.dag.leaf(k) for k in C], 3 * n)
    rep.count("traces_decided", done)
    if not done:
        rep.undecided(tag, "no trace could be decided")


def default(rep, pr, w):
    n = 2
    nd = size(n)
    I, paths = two(rep, pr, "kv_hf_default", [hy.names(n, "B")], nd, [3 * n, w])
    tag = "default leg" + (", " + SETTERS[w][0] if w >= 0 else "")
    for p in paths:
        if p.outcome != "ret":
            continue
        a, b = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=hy.assign(n, "B"), hook=hy.hook, need=a + b, tries=100):
            if consistent(ev, p):
                compare(rep, ev, tag, a, b, nd, 3 * n)


def chromo(rep, pr, n):
    tag = "set_and_compute_constraints"
    A = hy.names(n, "A")
    C = hy.names(n, "B")
    for i in range(15, 20):
        C[i] = A[i]
    nd = 1 + 7 + n + size(n)
    I, paths = two(rep, pr, "kv_hf_chromo", [A, C], nd, [3 * n])

    def assign(rng):
        a = hy.assign(n, "A")(rng)
        a.update(hy.assign(n, "B")(rng))
        return a
    done = 0
    for p in paths:
        if p.outcome != "ret":
            continue
        a, b = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=assign, hook=hy.hook, need=a + b, tries=100):
            if not consistent(ev, p):
                continue
            done += 1
            rep.check(ev.num(a[0]) == 7 + n, f"{tag}: size", nodeloc(a[0]), f"{tag} does not return {7 + n} values")
            for i in range(7 + n):
                rep.check(ev.num(a[1 + i]) == ev.num(b[1 + i]), f"{tag}: value", nodeloc(a[1 + i]),
                          f"{tag}: constraint {i} differs from that of a leg with these parameters")
            compare(rep, ev, tag, a[8 + n:], b[8 + n:], size(n), 3 * n)
    if not done:
        rep.undecided(tag, "no trace could be decided")


if __name__ == "__main__":
    sys.exit(main("C29", RULE, run))
