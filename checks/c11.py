import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.box import Box
from kv.client import *
from kv.report import main
from kv import planets, vsop

RULE = ("Each entry point with a documented domain is abstractly interpreted into traces ending in an exception or in a "
        "result; an interval analysis over boxes of arguments inside and outside the domain, on both sides of and on its "
        "boundary, decides which traces each box can take: every trace taken from outside ends in an exception, none "
        "taken from inside does.")


def outcomes(paths, box):
    """Outcomes possible for some input of the box, each with a trace."""
    maybe = {}
    for p in paths:
        if p.exhausted:
            continue
        if Box(box).follows(p) is not False:
            maybe.setdefault("throw" if p.outcome == "throw" else "return", p)
    return maybe


def decide(rep, E, what, names, pt, valid, why):
    """E: the traces, or a function giving those of a box."""
    box = dict(zip(names, ((v, v) for v in pt)))
    maybe = outcomes((E(box) if callable(E) else E).paths, box)
    good, bad = ("return", "throw") if valid else ("throw", "return")
    key = f"{what}: {why}" if not valid else f"{what}: arguments inside the domain accepted"
    arg = ", ".join(f"{n}={v:g}" for n, v in zip(names, pt))
    if good not in maybe:
        p = maybe.get(bad)
        c = ((p.conds or p.extra.get("decided")) if p else None) or None
        loc = where(locof(c[-1][3])) if c else what
        rep.bad(key, loc, f"{'rejected' if valid else 'accepted'} although {'inside' if valid else 'outside'} the "
                f"domain: {arg}" + (f"; trace [{pathdesc(p)}]" if p else ""))
    elif bad not in maybe:
        rep.ok(key)
    else:
        rep.undecided(key, arg)


def lambert(rep):
    prog = program(["d_lambert"], ["lambert_problem.cpp"])
    names = ["r0x", "r0y", "r0z", "r1x", "r1y", "r1z", "tof", "mu"]
    rng = random.Random(f"{rep.seed}lam")
    what = "lambert_problem"
    for cw in (0, 1):
        E = Entry(prog, "kv_lambert", names, 5, extra=[cw, 0], rep=rep, fork_eq=True)

        def boxed(box, revs=0, cw=cw):
            return Entry(prog, "kv_lambert", names, 5, extra=[cw, revs], rep=rep, box=box, max_paths=60)
        for k in range(30 if rep.thorough else 12):
            L = 10. ** rng.uniform(-3, 9)
            r0 = [L * rng.gauss(0, 1) for _ in range(3)]
            r1 = [L * rng.gauss(0, 1) for _ in range(3)]
            mu = 10. ** rng.uniform(-3, 15)
            T = math.sqrt(L ** 3 / mu) * 10. ** rng.uniform(-1.5, 1.5)
            geo = r0 + r1
            t = rng.choice((0., -T, -1e-300, -T * 1e-6))
            m = rng.choice((0., -mu, -1e-300, -mu * 1e-6))
            # a transfer plane holding the z axis, or nearly so
            flat = [r0[0], 0., r0[2], r1[0], 0., r1[2]] if k % 2 else [0., r0[1], r0[2], 0., r1[1], r1[2]]
            near = [r0[0], 1e-6 * L, r0[2], r1[0], -1e-6 * L, r1[2]]
            for X in (E, lambda b: boxed(b, 1), lambda b: boxed(b, 5)):
                with rep.part(what):
                    decide(rep, X, what, names, geo + [t, mu], False, "non-positive time of flight rejected")
                    decide(rep, X, what, names, geo + [T, m], False, "non-positive gravity parameter rejected")
                    decide(rep, X, what, names, flat + [T, mu], False, "angular momentum without z component rejected")
                    if X is E:
                        decide(rep, X, what, names, geo + [T, mu], True, "")
                        decide(rep, X, what, names, near + [T, mu], True, "")


def par2ic(rep):
    prog = program(["d_elem"], CORE)
    names = ["a", "e", "i", "W", "w", "f", "mu"]
    E = Entry(prog, "kv_par2ic", names, 6, extra=[0], rep=rep)
    elements(rep, E, "par2ic", names)


def elements(rep, E, what, names, tail=(), n=25):
    rng = random.Random(f"{rep.seed}el")
    for k in range(60 if rep.thorough else n):
        L, mu = 10. ** rng.uniform(-3, 12), 10. ** rng.uniform(-3, 20)
        ang = [rng.uniform(0, math.pi), rng.uniform(-7, 7), rng.uniform(-7, 7)]
        el, eh = rng.choice((0., 1e-9, rng.random(), .999999)), rng.choice((1.000001, 1 + rng.random(), 7., 150.))
        f = rng.uniform(-20, 20)
        lim = math.acos(-1 / eh)
        turn = 2 * math.pi * rng.choice((0, 0, 0, 1, -1, 2))
        s = rng.choice((1, -1))
        g = s * lim * rng.choice((0., .3, .9, .999999)) + turn
        d = math.pi - lim
        out = s * (lim + d * rng.choice((1e-6, 1e-3, .3, .9, 1.))) + turn
        decide(rep, E, what, names, [L, el] + ang + [f, mu, *tail], True, "")
        decide(rep, E, what, names, [-L, eh] + ang + [g, mu, *tail], True, "")
        decide(rep, E, what, names, [-L, el] + ang + [f, mu, *tail], False, "negative semi-major axis of an ellipse rejected")
        decide(rep, E, what, names, [L, eh] + ang + [g, mu, *tail], False, "positive semi-major axis of a hyperbola rejected")
        decide(rep, E, what, names, [-L, eh] + ang + [out, mu, *tail], False,
               "true anomaly beyond the asymptotes rejected")


def lazy(rep, pr, fn, names, nout, args, **kw):
    return lambda box: Entry(pr, fn, names, nout, extra=args, rep=rep, box=box, **kw)


def keplerian(rep):
    pr = planets.prog()
    names = planets.KEP
    tail = (1., 1., 1., 1e9, 0.)
    elements(rep, lazy(rep, pr, "kv_kep_ctor", names, 1, [0]), "keplerian", names, tail, 8)
    rng = random.Random(f"{rep.seed}kep")
    for k in range(12 if rep.thorough else 5):
        L, mu, f = 10. ** rng.uniform(-3, 12), 10. ** rng.uniform(-3, 20), rng.uniform(-3, 3)
        ang = [rng.uniform(0, math.pi), rng.uniform(-7, 7), rng.uniform(-7, 7)]
        el, eh = rng.uniform(0, .99), rng.choice((1.000001, 1 + rng.random(), 7., 150.))
        X = lazy(rep, pr, "kv_kep_ctor", names, 1, [1])
        decide(rep, X, "keplerian", names, [L, el] + ang + [f, mu, *tail], True, "")
        decide(rep, X, "keplerian", names, [-L, eh] + ang + [f, mu, *tail], False, "mean anomaly of a hyperbola rejected")
        decide(rep, X, "keplerian", names, [-L, el] + ang + [f, mu, *tail], False,
               "negative semi-major axis of an ellipse rejected")
        decide(rep, X, "keplerian", names, [L, eh] + ang + [f, mu, *tail], False,
               "positive semi-major axis of a hyperbola rejected")
        X = lazy(rep, pr, "kv_kep_ctor", names, 1, [4])
        decide(rep, X, "keplerian", names, [L, el] + ang + [f, mu, *tail], False, "unknown element type rejected")
        for how in (-1, 0):
            # a state on a circular orbit, or elements
            v = math.sqrt(mu / L)
            x = [L, 0., 0., 0., v * .6, v * .8] if how < 0 else [L, el] + ang + [f]
            X = lazy(rep, pr, "kv_kep_elem", names, 6, [how, 4])
            decide(rep, X, "keplerian elements", names, x + [mu, *tail], False, "unknown element type rejected")
        X = lazy(rep, pr, "kv_pl_elements", planets.N, 6, [1, 4])
        decide(rep, X, "planet elements", planets.N, [L, 0., 0., 0., v * .6, v * .8] + [0.] * 6 + [mu] + [1.] * 5 + [0.],
               False, "unknown element type rejected")


def jpl(rep):
    pr = planets.prog()
    rng = random.Random(f"{rep.seed}jpl")
    for w in range(12):
        ok = w < 9
        X = lazy(rep, pr, "kv_jpl_get", ["t"], 4, [w], inits=True)
        decide(rep, X, "jpl_lp", ["t"], [0.], ok, "unknown planet name rejected")
        if not ok:
            continue
        for t, ok in [(-73049., 0), (-73047., 1), (18262., 1), (18264., 0), (rng.uniform(-1e6, -73050), 0),
                      (rng.uniform(18265, 1e6), 0), (rng.uniform(-73040, 18260), 1)]:
            for fn, args, n in (("kv_jpl_eph", [w], 6), ("kv_jpl_elements", [w, 0], 6)):
                X = lazy(rep, pr, fn, ["t"], n, args, inits=True)
                decide(rep, X, "jpl_lp", ["t"], [t], ok, "epoch outside the validity interval rejected")
        decide(rep, lazy(rep, pr, "kv_jpl_elements", ["t"], 6, [w, 4], inits=True), "jpl_lp", ["t"], [0.], False,
               "unknown element type rejected")


def vsops(rep):
    pr = vsop.prog()
    for w, name in enumerate(vsop.NAMES):
        what = f"vsop2013 {name}"
        with rep.part(what):
            E = Entry(pr, "kv_vs_eph", ["h", "t"], 6, extra=[w, lambda I: I.dag.leaf("h"), lambda I: I.dag.leaf("t")],
                      intercepts=dict(vsop.IC), inits=True)
            if name.lower() not in vsop.NAMES[:9]:
                for p in E.paths:
                    rep.check(p.outcome == "throw", "vsop2013: unknown bodies rejected", "src/udpla/vsop2013.cpp",
                              f"a planet named '{name}' is accepted")
                continue
            for p in E.paths:
                rel = [r for x, y, r, _ in p.conds if x is E.leaf("h") and y.op == "c" and y.args[0] == 0]
                lt = "lt" in rel or "le" in rel
                if lt or p.outcome == "throw":
                    rep.check(lt == (p.outcome == "throw"), "vsop2013: negative threshold rejected",
                              where(locof(p.loc)) if p.loc else "src/udpla/vsop2013.cpp",
                              f"a negative threshold is accepted; trace [{pathdesc(p)}]" if lt else
                              f"{name} with a threshold that is not negative is refused; trace [{pathdesc(p)}]")
    for v, ok in ((math.inf, 0), (-math.inf, 0), (math.nan, 0), (-1e-300, 0), (-7., 0), (0., 1), (1e-300, 1), (1e-5, 1), (3., 1)):
        with rep.part("vsop2013 threshold"):
            E = Entry(pr, "kv_vs_eph", ["t"], 6, extra=[2, lambda I: I.dag.const(v), lambda I: I.dag.leaf("t")],
                      intercepts=dict(vsop.IC), inits=True)
            for p in E.paths:
                rep.check((p.outcome != "throw") == bool(ok), "vsop2013: threshold", "src/udpla/vsop2013.cpp",
                          f"a threshold of {v} is {'refused' if ok else 'accepted'}")


def always(rep, what, why, E, valid, arg):
    """Do all traces of E end as they should?"""
    key = f"{what}: {why}" if not valid else f"{what}: arguments inside the domain accepted"
    live = [p for p in E.paths if not p.exhausted]
    good = [p for p in live if (p.outcome == "throw") != valid]
    if len(good) == len(E.paths) and good:
        rep.ok(key)
    elif live and not good:
        p = live[0]
        rep.bad(key, where(locof(p.loc)) if p.outcome == "throw" else "src/epoch.cpp", f"{'rejected' if valid else 'accepted'} although "
                f"{'inside' if valid else 'outside'} the domain: {arg}")
    else:
        rep.undecided(key, arg)


def epochs(rep):
    from checks.c20 import TextEntry, text
    from kv.interp import SymI
    pr = program(["d_epoch", "d_string"], ["epoch.cpp"])
    what = "epoch"
    for w in range(5):
        always(rep, what, "unknown calendar rejected", Entry(pr, "kv_ep_days", ["t"], 3, extra=[w], rep=rep), w != 3,
               f"calendar {w}")
    LENS = (7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26)
    for n in range(0, 34):
        E = text(rep, pr, "kv_ep_string", n, [n, 0])
        digits, other = Some(E, lambda p: not p.extra.get("nondigits")), Some(E, lambda p: p.extra.get("nondigits"))
        with rep.part("date strings"):
            if n not in LENS:
                other = "date string of another length rejected"
                for t in ("1980-10-17T11:36:21.121841", "2024-03-09T23:59:58.123456", "1999-02-01T00:00:00.000001"):
                    t = (t + "0000000000")[:n]
                    X = text(rep, pr, "kv_ep_string", n, [n, 0], t)
                    if X.rets and not X.throws:
                        rep.bad(f"{what}: {other}", "src/epoch.cpp", f"accepted although outside the domain: {t}")
                always(rep, what, other, E, False, f"a string of {n} characters")
                continue
            if other.paths:
                always(rep, what, "date string without a number where one is expected rejected", other, False,
                       f"a string of {n} characters")
            for t in ("2024-03-09T23:59:58.123456", "1999-12-31T00:00:00.000001", "0001-01-01T01:01:01.999999"):
                always(rep, what, "", text(rep, pr, "kv_ep_string", n, [n, 0], t[:n]), True, t[:n])
            always(rep, what, "unknown string format rejected", text(rep, pr, "kv_ep_string", n, [n, 1]), False,
                   f"format 9, a string of {n} characters")
            for t in ("2024-00", "2024-13", "2024-99", "2024-02-00", "2024-02-32", "2024-12-99"):
                if len(t) <= n:
                    t += "-01T00:00:00.000000"[len(t) - 7:] if len(t) > 7 else "-01T00:00:00.000000"
                    always(rep, what, "date string with month or day outside the calendar rejected",
                           text(rep, pr, "kv_ep_string", n, [n, 0], t[:n]), False, t[:n])
    # fields inside and outside their ranges, whole intervals at a time
    Y, M, D = (-32767, 32767), (1, 12), (1, 31)
    B = 1 << 31
    years = [(-B, -65536), (-65535, -32769), (-32768, -32768), (32768, 65535), (65536, 98303), (98304, B - 1), Y]
    months = [(0, 0), (13, 255), (256, 256), (257, 268), (269, 65536), (65537, 65548), (65549, B - 1), (B, 2 * B - 1), M]
    days = [(0, 0), (32, 255), (256, 256), (257, 287), (288, 65536), (65537, 65567), (65568, B - 1), (B, 2 * B - 1), D]

    def sym(nm, r):
        def f(I):
            I.bnd.setdefault(nm, r)
            return SymI(nm)
        return r[0] % (2 * B) if r[0] == r[1] else f
    rest = ["h", "min", "s", "ms", "us"]
    for fn, extra in (("kv_ep_date3", []), ("kv_ep_date", [sym(r, (-B, B - 1)) for r in rest])):
        cases = [((y, M, D), y is Y) for y in years] + [((Y, m, D), False) for m in months[:-1]]
        cases += [((Y, M, d), False) for d in days[:-1]]
        for (y, m, d), ok in cases:
            with rep.part("date fields"):
                E = Entry(pr, fn, [], 2, extra=[sym("y", y), sym("mon", m), sym("d", d)] + extra, rep=rep)
                always(rep, what, "year, month or day outside the calendar rejected", E, ok,
                       f"year in {list(y)}, month in {list(m)}, day in {list(d)}")


class Some:
    def __init__(self, E, f):
        self.paths = [p for p in E.paths if f(p)]


def run(rep):
    with rep.part("epoch"):
        epochs(rep)
    with rep.part("keplerian"):
        keplerian(rep)
    with rep.part("jpl_lp"):
        jpl(rep)
    with rep.part("vsop2013"):
        vsops(rep)
    with rep.part("par2ic"):
        par2ic(rep)
    with rep.part("lambert_problem"):
        lambert(rep)


if __name__ == "__main__":
    sys.exit(main("C11", RULE, run))
