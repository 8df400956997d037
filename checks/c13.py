import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.sizes import Sizes
from kv import sf
from kv.states import qr

RULE = ("For an arbitrary constructed leg and every setter (and ordered pair of setters), the leg after the calls and a leg "
        "freshly constructed from the resulting parameters are abstractly interpreted into one value graph; every getter, "
        "derived count and computed constraint must have the same value number.  By induction over the setters the "
        "equality extends to every sequence of calls.")
SETTERS = {0: ("set_rvs", ["r0x", "r0y", "r0z", "v0x", "v0y", "v0z"]), 1: ("set_ms", ["ms"]),
           2: ("set_rvf", ["r1x", "r1y", "r1z", "v1x", "v1y", "v1z"]), 3: ("set_mf", ["mf"]), 4: ("set_tof", ["tof"]),
           5: ("set_max_thrust", ["thrust"]), 6: ("set_isp", ["isp"]), 7: ("set_mu", ["mu"]), 8: ("set_cut", ["cut"]),
           9: ("set_throttles", ["u"]), 10: ("set_throttles(iterators)", ["u"]),
           11: ("set", sf.BASE + ["u"])}
BEH = ["x", "y", "z", "vx", "vy", "vz", "mass"]


def run(rep):
    prog = program(["d_sf"], CORE + sf.SRC)
    for w, (name, pars) in SETTERS.items():
        for n0, n1 in (((2, 1), (2, 3), (3, 2), (1, 4)) if "u" in pars else ((2, 2), (3, 3))):
            with rep.part(f"{name} {n0}->{n1}"):
                hist(rep, prog, [w], n0, n1)
        with rep.part(f"default leg, {name}"):
            default(rep, prog, w)
    with rep.part("default leg"):
        default(rep, prog, -1)
    for w, (name, pars) in SETTERS.items():
        S = Sizes()
        for n in (3, 4, 5):
            with rep.part(f"{name} {n}"), S.at(n):
                hist(rep, prog, [w], 2 if "u" in pars else n, n, few=True)
        S.beyond(rep, "segments after " + name, lambda n: hist(rep, prog, [w], 2 if "u" in pars else n, n, few=True))
    if rep.thorough:
        for w1 in SETTERS:
            for w2 in SETTERS:
                if w1 != w2:
                    with rep.part(f"{SETTERS[w1][0]}, {SETTERS[w2][0]}"):
                        hist(rep, prog, [w1, w2], 2, 3)
    else:
        for w1, w2 in ((8, 9), (9, 8), (8, 10), (10, 8), (11, 8), (8, 11), (9, 11), (11, 9), (4, 11), (11, 10)):
            with rep.part(f"{SETTERS[w1][0]}, {SETTERS[w2][0]}"):
                hist(rep, prog, [w1, w2], 2, 3)


def label(i, nth):
    if i < 3:
        return ("get_nseg", "get_nseg_fwd", "get_nseg_bck")[i]
    if i < 22:
        return "getter of " + sf.BASE[i - 3]
    if i < 23 + nth:
        return "get_throttles"
    i -= 23 + nth
    return "mismatch " + BEH[i] if i < 7 else "throttle constraints"


def explore(rep, prog, fn, arrays, nd, tail, few=False):
    I = interp.Interp(prog, intercepts=sf.IC, f2i_range=sf.few if few else sf.counts, max_steps=30_000_000)
    box = {}

    def mk(I):
        box["o"] = [I.outarray("o1", nd), I.outarray("o2", nd)]
        return [I.darray("a%d" % i, a) for i, a in enumerate(arrays)] + box["o"] + tail

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = [I.read(x, nd) for x in box["o"]]
    paths = I.explore(fn, mk, post)
    rep.count("traces", len(paths))
    for src, f in I.funcs_seen:
        rep.functions.add(prog.sym[f].dem if f in prog.sym else f)
    return I, paths


def compare(rep, ev, tag, a, b, n, nth):
    for i in range(n):
        same = a[i] is b[i] or ev.num(a[i]) == ev.num(b[i])
        rep.check(same, f"{tag}: {label(i, nth)}", nodeloc(a[i]),
                  f"after {tag} the {label(i, nth)} differs from that of a leg constructed with the same parameters")


def hist(rep, prog, ws, n0, n1, few=False):
    tag = " then ".join(SETTERS[w][0] for w in ws)
    pars = set(sum((SETTERS[w][1] for w in ws), []))
    A, B = sf.names(n0, "A"), sf.names(n1, "B")
    nC = n1 if "u" in pars else n0
    C = [("B" if k in pars else "A") + k for k in sf.BASE]
    C += [("B" if "u" in pars else "A") + f"u{i}{c}" for i in range(nC) for c in "xyz"]
    nd = 23 + 4 * nC + 7
    I, paths = explore(rep, prog, "kv_sf_hist", [A, B, C], nd, [3 * n0, 3 * n1, 3 * nC, ws[0], ws[1] if len(ws) > 1 else -1], few)

    def assign(rng):
        a = sf.assign(n0, "A")(rng)
        a.update(sf.assign(n1, "B")(rng))
        return a
    nrm = 0
    for p in paths:
        if p.outcome != "ret":
            continue
        # the count of forward segments is one function of cut * segments: traces giving it two values do not exist
        a, b = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=assign, hook=sf.hook, need=a + b, tries=200):
            conv = {}
            if any(conv.setdefault(ev.num(x), k) != k for x, k in p.extra.get("f2i", [])):
                continue
            nrm += 1
            compare(rep, ev, tag, a, b, nd, 3 * nC)
            for i, k in enumerate(C):
                j = 3 + i if i < 19 else 23 + i - 19
                rep.check(ev.num(a[j]) == ev.num(I.dag.leaf(k)), f"{tag}: {label(j, 3 * nC)} returns the value set",
                          nodeloc(a[j]), f"after {tag} the {label(j, 3 * nC)} does not return the value set")
            rep.check(ev.num(a[0]) == nC and ev.num(a[22]) == 3 * nC, f"{tag}: number of segments", nodeloc(a[0]),
                      f"after {tag} with {nC} segments the number of segments is wrong")
            rep.check((ev.num(a[1]) + ev.num(a[2])) % P == nC, f"{tag}: forward plus backward", nodeloc(a[1]),
                      f"after {tag} the forward and backward segments do not add up")
            cut = ev.num(I.dag.leaf(C[18]))
            ks = [k for x, k in p.extra.get("f2i", []) if ev.num(x) == nC * cut % P]
            if p.extra.get("f2i"):
                rep.check(ks and ev.num(a[1]) == ks[-1], f"{tag}: forward segments", nodeloc(a[1]),
                          f"after {tag} the number of forward segments is not floor(cut * segments)")
    rep.count("traces_decided", nrm)
    if not nrm:
        rep.undecided(tag, "no trace could be decided")


def default(rep, prog, w):
    n1 = 2
    B = sf.names(n1, "B")
    nd = 23 + 4 * 2 + 7
    I, paths = explore(rep, prog, "kv_sf_hist_default", [B], nd, [3 * n1, w])
    tag = "default leg" + (", " + SETTERS[w][0] if w >= 0 else "")
    for p in paths:
        if p.outcome != "ret":
            continue
        a, b = p.extra["out"]
        for ev in samples(p, 1, rep, tag, assign=sf.assign(n1, "B"), hook=sf.hook, need=a + b, tries=100):
            conv = {}
            if any(conv.setdefault(ev.num(x), k) != k for x, k in p.extra.get("f2i", [])):
                continue
            compare(rep, ev, tag, a, b, nd, 6)


if __name__ == "__main__":
    sys.exit(main("C13", RULE, run))
