import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.planets import *
from kv.field import equal_mod_turn
from kv.report import main
from kv import sf, vsop

RULE = ("Queries of the built-in planets are abstractly interpreted for a symbolic epoch.  Value numbers decide that a "
        "Keplerian planet returns the flow of its state over (t - reference epoch) days taken in seconds, that a JPL "
        "low-precision planet returns, in SI units, the state of the published mean elements extrapolated by "
        "(t - 0.5)/36525 Julian centuries, and that its physical data are in SI; interval boxes decide the validity bounds.")


def kepler(rep, pr):
    for how in range(-1, 4):
        built = "state" if how < 0 else TYPES[how]
        what = f"keplerian ({built})"
        with rep.part(what):
            E = Entry(pr, "kv_kep_flow", KEP, 19, extra=[how], rep=rep, intercepts=sf.IC)
            done = 0
            for p in E.rets:
                o = p.extra["out"]
                if o[0].op != "kflow":
                    rep.undecided(what, "the ephemeris does not come from the propagator")
                    done += 1
                    continue
                for ev in samples(p, 2 if rep.thorough else 1, rep, what, assign=orbit(how), hook=sf.hook, need=o,
                                  pivots=["s5"] if how == 1 else [], tries=200, slope=False):
                    done += 1
                    for i in range(6):
                        rep.check(ev.num(o[i]) == ev.num(o[12 + i]), f"{what}: ephemeris", nodeloc(o[i]),
                                  f"component {i} is not that of the flow of the planet's state over the days from the "
                                  f"reference epoch in seconds; trace [{pathdesc(p)}]")
            if not done:
                rep.undecided(what, "no trace could be modelled")
    # the reference epoch handed in, in MJD2000
    E = Entry(pr, "kv_kep_eph", KEP, 7, extra=[-1], rep=rep, intercepts=sf.IC)
    for p in E.rets:
        o = p.extra["out"][6]
        for ev in samples(p, 1, rep, "reference epoch", assign=orbit(-1), hook=sf.hook, need=[o], slope=False):
            # microseconds since 1970 are given
            want = (ev.num(E.dag.mk("trunc", (E.leaf("ref"),))) - 946684800000000) * inv(86400000000) % P
            alt = (ev.num(E.leaf("ref")) - 946684800000000) * inv(86400000000) % P
            g = ev.num(o)
            if g == want or g == alt:
                rep.ok("keplerian: reference epoch")


def jpl_names(w, seed):
    el, d = JPL[BODIES[w]]
    return ["t"] + el + d


def jpl(rep, pr, bodies=None):
    def assign(rng):
        return {"t": rng.randrange(1, P)}
    for w, b in enumerate(BODIES):
        if bodies and b not in bodies:
            continue
        el, d = JPL[b]
        for k in range(4):
            what = f"jpl_lp {b}"
            with rep.part(what):
                E = Entry(pr, "kv_jpl_ref", ["t"] + el + d, 24, extra=[w, k], rep=rep, inits=True)
                done = 0
                for p in E.rets:
                    o = p.extra["out"]
                    for ev in samples(p, 1, rep, what, assign=assign, need=o, tries=400, slope=False):
                        done += 1
                        for i in range(12):
                            a, c = ev.num(o[i]), ev.num(o[12 + i])
                            good = a == c or i < 6 and (i == 5 or k < 2 and i > 1) and equal_mod_turn(ev, a, c)
                            q = f"elements ({TYPES[k]})" if i < 6 else "ephemeris"
                            rep.check(good, f"{what}: {q}", nodeloc(o[i]),
                                      f"value {i % 6} is not that of the published elements at that epoch in SI units; "
                                      f"trace [{pathdesc(p)}]")
                if not done:
                    rep.undecided(what, "no trace could be modelled")


def near(n, v, tol):
    return n.op == "c" and abs(n.args[0] - v) <= tol * abs(v)


def data(rep, pr):
    for w, b in enumerate(BODIES):
        with rep.part(f"jpl_lp {b}: data"):
            E = Entry(pr, "kv_jpl_get", [0.], 4, extra=[w], rep=rep, inits=True)
            if len(E.rets) != 1:
                rep.undecided(f"jpl_lp {b}: data", f"{len(E.rets)} traces")
                continue
            o = E.rets[0].extra["out"]
            R, m = BODY[b]
            if any(x.op != "c" for x in o):
                rep.undecided(f"jpl_lp {b}: data", "not constant")
                continue
            rep.check(near(o[0], MU, 1e-6), f"jpl_lp {b}: mu of the Sun", nodeloc(o[0]), f"{fmt(o[0], 1)} m^3/s^2")
            rep.check(near(o[1], m * 1e9, .01), f"jpl_lp {b}: mu", nodeloc(o[1]), f"{fmt(o[1], 1)} m^3/s^2")
            rep.check(near(o[2], R * 1e3, .02), f"jpl_lp {b}: radius", nodeloc(o[2]), f"{fmt(o[2], 1)} m")
            rep.check(o[3].args[0] >= o[2].args[0] and o[3].args[0] <= 20 * o[2].args[0], f"jpl_lp {b}: safe radius",
                      nodeloc(o[3]), f"{fmt(o[3], 1)} m for a radius of {fmt(o[2], 1)} m")


def bounds(rep, pr):
    rng = random.Random(rep.seed)
    for w, b in enumerate(BODIES):
        pts = [(-73049., 1), (-73047., 0), (18262., 0), (18264., 1), (0., 0)]
        pts += [(rng.uniform(-1e6, -73050), 1), (rng.uniform(18265, 1e6), 1), (rng.uniform(-73040, 18260), 0)]
        for t, bad in pts:
            for fn, args in (("kv_jpl_eph", [w]), ("kv_jpl_elements", [w, 0])):
                what = f"jpl_lp {b}: validity"
                E = Entry(pr, fn, ["t"], 6, extra=args, rep=rep, box={"t": (t, t)}, inits=True)
                outs = {p.outcome == "throw" for p in E.paths if not p.exhausted}
                if len(outs) != 1:
                    rep.undecided(what, "not decided")
                    continue
                c = E.paths[0].extra.get("decided") or []
                rep.check(outs == {bool(bad)}, what, where(locof(c[-1][3])) if c else what,
                          f"MJD2000 {t:g} is {'accepted' if bad else 'refused'}: the elements hold from 1800 to 2050")


def vsops(rep):
    """The VSOP2013 planets over an opaque model."""
    pr = vsop.prog()
    t0, kd, au = 0.5, 365250, 149597870700
    assign = lambda rng: {"t": rng.randrange(1, P), "h": rng.randrange(1, P)}
    for w, name in enumerate(vsop.NAMES[:10]):
        what = f"vsop2013 {name}"
        with rep.part(what):
            E = Entry(pr, "kv_vs_eph", ["h", "t"], 6, extra=[w, lambda I: I.dag.leaf("h"), lambda I: I.dag.leaf("t")], rep=rep,
                      intercepts=dict(vsop.IC), inits=True)
            body = vsop.NAMES.index(name.lower()) + 1
            done = 0
            for p in E.rets:
                o = p.extra["out"]
                for ev in samples(p, 2, rep, what, assign=assign, hook=vsop.hook, need=o, slope=False):
                    done += 1
                    t, hh = ev.num(E.leaf("t")), ev.num(E.leaf("h"))
                    for i in range(6):
                        want = vsop.h(ev.seed, "vsop", i, body, (t - inv(2)) * inv(kd) % P, hh) * au % P
                        if i > 2:
                            want = want * inv(86400) % P
                        rep.check(ev.num(o[i]) == want, f"{what}: ephemeris", nodeloc(o[i]),
                                  f"component {i} is not that of the model of the body at thousands of Julian years from "
                                  f"J2000, in SI units")
            if not done:
                rep.undecided(what, "no trace could be modelled")


def run(rep):
    pr = prog()
    for f in (kepler, jpl, data, bounds):
        with rep.part(f.__name__):
            f(rep, pr)
    try:
        vsops(rep)
    except AnalysisError as e:
        rep.undecided("vsop2013", str(e))


if __name__ == "__main__":
    sys.exit(main("C22", RULE, run))
