import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.interp import SymI
from kv.report import main

RULE = ("Epochs are abstractly interpreted for symbolic time stamps, numbers of days and durations, dates and date strings "
        "with symbolic fields.  Value numbers decide the offsets between the calendars, the round trips, the arithmetic "
        "with durations and the placement of every field of a date; the truth table of each comparison operator is read "
        "off its traces.")
US = 86400000000
Y2K = 946684800000000
OFF = {"JD": 2451544.5, "MJD": 51544., "MJD2000": 0.}
CAL = list(OFF)


def sym(n, lo=None, hi=None):
    def f(I):
        if lo is not None:
            I.bnd.setdefault(n, (lo, hi))
        return SymI(n)
    return f


def const(I):
    return I


def views(ev, days):
    """The three calendars' values of a number of days since MJD2000 0."""
    return [(days + int(2 * OFF[c]) * inv(2)) % P for c in CAL]


def trunc_ok(E, o, want):
    """Is o the wanted number, up to less than a microsecond lost in the conversion to whole microseconds?"""
    base = Eval(7)
    if base.num(o) != want(base):
        return "differs"
    atoms = sorted(E.I.f2i_all)
    for a in atoms:
        ev = Eval(7)
        ev.delta = {a: 1}
        d = (ev.num(o) - base.num(o)) * US % P
        if d not in (0, 1, P - 1):
            return "is truncated to more than a microsecond"
    return None


def entry(rep, pr, fn, names, nout, extra, **kw):
    E = Entry(pr, fn, names, nout, extra=extra, rep=rep, **kw)
    # the truncations made on any trace
    from kv.dag import INTS
    pre = "f2i%d." % E.dag.serial
    E.I.f2i_all = [k for k in INTS if k.startswith(pre)]
    return E


def one(rep, what, E):
    if len(E.paths) != 1 or not E.rets:
        rep.undecided(what, f"{len(E.paths)} traces")
        return None
    return E.rets[0].extra["out"]


def calendars(rep, pr):
    E = entry(rep, pr, "kv_ep_views", [], 4, [sym("us")])
    o = one(rep, "views", E)
    if o:
        ev = Eval(rep.seed)
        us = ev.intval("us")
        for i, w in enumerate(views(ev, (us - Y2K) * inv(US))):
            rep.check(ev.num(o[i]) == w, f"views: {CAL[i]}", nodeloc(o[i]),
                      f"not the days since {CAL[i]} 0 of the time point: {fmt(o[i], 3)}")
        rep.check(ev.num(o[3]) == us, "views: time point", nodeloc(o[3]), "the time point given is not kept")
    for w in range(5):
        nm = CAL[w] if w < 3 else "MJD2000"
        if w == 3:
            continue
        E = entry(rep, pr, "kv_ep_days", ["t"], 3, [w])
        calendar(rep, E, f"epoch({nm})" if w < 3 else "epoch(days)", nm)
    E = entry(rep, pr, "kv_ep_tp", ["t"], 3, [])
    calendar(rep, E, "tp_from_days", "MJD2000")
    E = entry(rep, pr, "kv_ep_default", [], 3, [])
    o = one(rep, "default epoch", E)
    if o:
        ev = Eval(rep.seed)
        for i, w in enumerate(views(ev, 0)):
            rep.check(ev.num(o[i]) == w, "default epoch", nodeloc(o[i]), f"not MJD2000 0: {fmt(o[i], 2)}")
    E = entry(rep, pr, "kv_ep_free", ["t"], 6, [])
    o = one(rep, "conversions", E)
    if o:
        ev = Eval(rep.seed)
        t = ev.num(E.leaf("t"))
        k = 0
        for i, a in enumerate(CAL):
            for j, b in enumerate(CAL):
                if i != j:
                    w = (t + int(2 * (OFF[b] - OFF[a])) * inv(2)) % P
                    nm = f"{a.lower()}2{b.lower()}"
                    rep.check(ev.num(o[k]) == w, f"{nm}: offset", nodeloc(o[k]), f"gives {fmt(o[k], 2)}")
                    k += 1


def calendar(rep, E, what, nm):
    o = one(rep, what, E)
    if not o:
        return
    for i, c in enumerate(CAL):
        bad = trunc_ok(E, o[i], lambda ev: (ev.num(E.leaf("t")) + int(2 * (OFF[c] - OFF[nm])) * inv(2)) % P)
        rep.check(not bad, f"{what}: read as {c}", nodeloc(o[i]),
                  f"t days in {nm} read back as {c} {bad}: {fmt(o[i], 3)}")


def durations(rep, pr):
    H = 3600000000
    # operation: (coefficient of the time stamp, of the duration d, of in[0], constant)
    OPS = [("epoch + duration", 1, 1, 0, 0), ("epoch - duration", 1, -1, 0, 0), ("epoch += duration", 1, 1, 0, 0),
           ("epoch -= duration", 1, -1, 0, 0), ("epoch + hours", 1, H, 0, 0), ("epoch - hours", 1, -H, 0, 0),
           ("epoch += hours", 1, H, 0, 0), ("epoch -= hours", 1, -H, 0, 0), ("epoch + days(x)", 1, 0, US, 0),
           ("epoch - days(x)", 1, 0, -US, 0), ("epoch + sec(x)", 1, 0, 10 ** 6, 0),
           ("epoch + real days", 1, 0, US, 0), ("epoch - real seconds", 1, 0, -10 ** 6, 0),
           ("epoch(duration)", 0, 1, 0, Y2K), ("epoch(duration)", 0, H, 0, Y2K), ("epoch(duration)", 0, 0, US, Y2K),
           ("(epoch + duration) - duration", 1, 0, 0, 0), ("epoch + (other - epoch)", 1, 0, 0, 0)]
    for k, (what, a, b, c, d) in enumerate(OPS):
        with rep.part(what):
            E = entry(rep, pr, "kv_ep_dur", ["t"], 1, [k, sym("us"), sym("d")])
            o = one(rep, what, E)
            if not o:
                continue
            bad = trunc_ok1(E, o[0], lambda ev: (a * ev.intval("us") + b * ev.intval("d") + c * ev.num(E.leaf("t")) + d) % P)
            key = what + (": counts from MJD2000" if what == "epoch(duration)" else ": exact to the microsecond")
            rep.check(not bad, key, nodeloc(o[0]), f"the resulting time stamp {bad}: {fmt(o[0], 5)}")
    E = entry(rep, pr, "kv_ep_diff", [], 2, [sym("a"), sym("b")])
    o = one(rep, "epoch - epoch", E)
    if o:
        ev = Eval(rep.seed)
        w = (ev.intval("a") - ev.intval("b")) % P
        rep.check(ev.num(o[0]) == w, "epoch - epoch", nodeloc(o[0]), f"gives {fmt(o[0], 4)} microseconds")
        rep.check(ev.num(o[1]) == w * inv(10 ** 6) % P, "as_sec", nodeloc(o[1]), f"gives {fmt(o[1], 4)} seconds")


def trunc_ok1(E, o, want):
    """As trunc_ok for a number of microseconds."""
    base = Eval(7)
    if base.num(o) != want(base):
        return "differs"
    for a in E.I.f2i_all:
        ev = Eval(7)
        ev.delta = {a: 1}
        if (ev.num(o) - base.num(o)) % P not in (0, 1, P - 1):
            return "is truncated to more than a microsecond"
    return None


def comparisons(rep, pr):
    OPS = [("<", (1, 0, 0)), ("<=", (1, 1, 0)), (">", (0, 0, 1)), (">=", (0, 1, 1)), ("==", (0, 1, 0)), ("!=", (1, 0, 1))]
    for k, (op, truth) in enumerate(OPS):
        what = f"operator{op}"
        with rep.part(what):
            E = entry(rep, pr, "kv_ep_cmp", [], 1, [k, sym("a"), sym("b")])
            for order, want in zip((-1, 0, 1), truth):
                got = set()
                loc = what
                for p in E.rets:
                    fits = all(holds(c, order) is not False for c in p.iconds)
                    if fits:
                        got.add(p.extra["out"][0].args[0] if p.extra["out"][0].op == "c" else None)
                        loc = nodeloc(p.extra["out"][0])
                if len(got) != 1 or None in got:
                    rep.undecided(what, "truth value not determined by the order of the time stamps")
                    continue
                rep.check(got == {float(want)}, f"{what}: agrees with the order of time", loc,
                          f"is {bool(list(got)[0])} for an epoch {('before', 'equal to', 'after')[order + 1]} the other")


def holds(c, order):
    """Does the recorded comparison of a and b hold when a is before (-1), at (0) or after (1) b?"""
    pred, a, b, r = c
    if not (isinstance(a, SymI) and isinstance(b, SymI)):
        return None
    x, y = a.base, b.base
    if {x, y} != {"a", "b"} or a.off != b.off:
        return None
    o = order if x == "a" else -order
    t = {"slt": o < 0, "sle": o <= 0, "sgt": o > 0, "sge": o >= 0, "eq": o == 0, "ne": o != 0}.get(pred)
    return None if t is None else t == r


R8 = [("y", -32767, 32767), ("mon", 1, 12), ("d", 1, 31), ("h", None, None), ("min", None, None), ("s", None, None),
      ("ms", None, None), ("us", None, None)]


def dates(rep, pr):
    for fn, k in (("kv_ep_date3", 3), ("kv_ep_date", 8)):
        what = f"calendar date ({k} fields)"
        with rep.part(what):
            E = entry(rep, pr, fn, [], 2, [sym(*r) for r in R8[:k]])
            rng = random.Random(rep.seed)
            bad = None
            for p in E.rets:
                o = p.extra["out"]
                ev = Eval(rep.seed)
                if ev.num(o[0]) == ev.num(o[1]):
                    rep.ok(f"{what}: placed field by field")
                else:
                    bad = o
            if bad is None and not E.throws:
                continue
            # not the standard calendar's expression: compare on particular dates
            n = 0
            for i in range(40):
                v = [rng.randint(-3000, 4000), rng.randint(1, 12), rng.randint(1, 31), rng.randint(0, 23),
                     rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999), rng.randint(0, 999)][:k]
                F = entry(rep, pr, fn, [], 2, [x % (1 << 64) if x < 0 else x for x in v])
                if len(F.paths) == 1 and not F.rets:
                    rep.bad(f"{what}: accepted", where(locof(F.paths[0].loc)), f"the date {v} is refused")
                elif len(F.rets) == 1 and all(x.op == "c" for x in F.rets[0].extra["out"]):
                    n += 1
                    o = F.rets[0].extra["out"]
                    if o[0] is not o[1]:
                        rep.bad(f"{what}: placed field by field", nodeloc((bad or o)[0]),
                                f"{v} is placed {int(o[0].args[0] - o[1].args[0])} microseconds off")
            if bad is not None:
                rep.undecided(what, f"not the standard calendar's expression (no difference on {n} dates)")


LENS = [7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26]


def strings(rep, pr):
    for n in LENS:
        what = f"date string of {n} characters"
        with rep.part(what):
            A = text(rep, pr, "kv_ep_string", n, [n, 0])
            B = text(rep, pr, "kv_ep_fields", n, [n])
            a, b = ([p for p in E.rets if not p.extra.get("nondigits")] for E in (A, B))
            if not a:
                rep.bad(f"{what}: accepted", "src/epoch.cpp", "refused")
                continue
            # values on the traces of the same conditions
            ea, eb = Eval(rep.seed), Eval(rep.seed)
            va = {signature(p): ea.num(p.extra["out"][0]) for p in a}
            vb = {signature(p): eb.num(p.extra["out"][0]) for p in b}
            if set(va.values()) == set(vb.values()):
                rep.ok(f"{what}: placed field by field")
                continue
            rng = random.Random(f"{rep.seed}{n}")
            diff = 0
            for i in range(12):
                t = (f"{rng.randint(1, 9999):04d}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}T{rng.randint(0, 23):02d}:"
                     f"{rng.randint(0, 59):02d}:{rng.randint(0, 59):02d}.{rng.randint(0, 999999):06d}")[:n]
                F, G = text(rep, pr, "kv_ep_string", n, [n, 0], t), text(rep, pr, "kv_ep_fields", n, [n], t)
                if len(F.rets) == 1 and len(G.rets) == 1:
                    x, y = F.rets[0].extra["out"][0], G.rets[0].extra["out"][0]
                    if x.op == "c" and y.op == "c" and x.args != y.args:
                        rep.bad(f"{what}: placed field by field", nodeloc(a[0].extra["out"][0]),
                                f"{t} is placed {int(x.args[0] - y.args[0])} microseconds off")
                        diff = 1
                elif len(F.paths) == 1 and not F.rets and len(G.rets) == 1:
                    rep.bad(f"{what}: accepted", where(locof(F.paths[0].loc)), f"{t} is refused")
                    diff = 1
            if not diff:
                rep.undecided(what, "not the standard calendar's expression")


def signature(p):
    return str([c for c in p.iconds if "digits" in str(c)])


def text(rep, pr, fn, n, extra, value=None):
    """Entry whose first argument points to n characters, symbolic unless given."""
    def mk(I):
        from kv.interp import Ptr
        o = I.new("text", n + 1, "arg")
        for i in range(n):
            if value is None:
                c = SymI(f"ch{i}")
                I.bnd.setdefault(c.base, (48, 57))
            else:
                c = ord(value[i])
            I.store(("l", "i8", 1), c, Ptr(o, i))
        return Ptr(o, 0)
    return TextEntry(pr, fn, mk, extra, rep)


class TextEntry:
    def __init__(self, pr, fn, mk, extra, rep):
        from kv import interp
        I = self.I = interp.Interp(pr)
        self.dag = I.dag
        obox = {}

        def args(I):
            obox["o"] = I.outarray("out", 1)
            return [mk(I), obox["o"]] + extra

        def post(I, r):
            if r.outcome == "ret":
                r.extra["out"] = I.read(obox["o"], 1)
        self.paths = I.explore(fn, args, post)
        self.rets = [p for p in self.paths if p.outcome == "ret" and not p.exhausted]
        self.throws = [p for p in self.paths if p.outcome == "throw"]
        rep.count("traces", len(self.paths))
        rep.count("instructions_interpreted", I.total_steps)
        for src, nm in I.funcs_seen:
            rep.functions.add(pr.sym[nm].dem if nm in pr.sym else nm)


def run(rep):
    pr = program(["d_epoch", "d_string"], ["epoch.cpp"])
    for f in (calendars, durations, comparisons, dates, strings):
        with rep.part(f.__name__):
            f(rep, pr)


if __name__ == "__main__":
    sys.exit(main("C20", RULE, run))
