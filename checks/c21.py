import math
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.box import Box
from kv.planets import *
from kv.field import equal_mod_turn
from kv.report import main

RULE = ("User-defined planets offering nothing but an ephemeris, an ephemeris and a central mu, or everything are "
        "wrapped and queried; the queries are abstractly interpreted through the type-erased interface into value graphs.  "
        "Value numbers decide that each query yields what the user-defined planet provides or the documented default, "
        "and, for the built-in planets, that elements and period are those of the orbit they were built from; interval "
        "boxes decide which element types are refused.")


def same(rep, key, a, b, ev, what):
    return rep.check(ev.num(a) == ev.num(b), key, nodeloc(a), what)


def isnan(n):
    return n.op == "nan" or n.op == "c" and n.args[0] != n.args[0]


def const(n, v):
    return n.op == "c" and n.args[0] == v


def only(rep, what, E):
    if len(E.paths) != 1 or not E.rets:
        rep.undecided(what, f"{len(E.paths)} traces")
        return None
    return E.rets[0].extra["out"]


def getters(rep, pr):
    names = ["mu_central_body", "mu_self", "radius", "safe_radius"]
    for kind, own in ((0, 0), (1, 1), (2, 4)):
        E = Entry(pr, "kv_pl_get", N, 4, extra=[kind], rep=rep)
        o = only(rep, "getters", E)
        for i, nm in enumerate(names):
            if o is None:
                break
            if i < own:
                rep.check(o[i] is E.leaf(K6[i]), f"get_{nm}: forwarded", nodeloc(o[i]),
                          f"the value provided by the user-defined planet is not returned but {fmt(o[i], 2)}")
            else:
                rep.check(const(o[i], -1.), f"get_{nm}: default", nodeloc(o[i]),
                          f"not -1 for a planet not providing it but {fmt(o[i], 2)}")
    for kind, name, info in ((0, "kv_bare", ""), (1, "kv_mu", ""), (2, "kv name", "kv info")):
        for which, s in ((0, name), (1, info)):
            E = Entry(pr, "kv_pl_name", N, 40, extra=[kind, which], rep=rep)
            o = only(rep, "name", E)
            if o is None:
                continue
            if o[0].op != "c" or any(x.op != "c" for x in o[1:1 + int(o[0].args[0])]):
                rep.undecided("name", "text unknown")
                continue
            t = "".join(chr(int(x.args[0])) for x in o[1:1 + int(o[0].args[0])])
            key = ("get_extra_info" if which else "get_name") + (": forwarded" if kind == 2 else ": default")
            rep.check(t == s, key, "include/kep3/planet.hpp", f"{t!r} instead of {s!r}")


def queries(rep, pr):
    for kind in range(3):
        E = Entry(pr, "kv_pl_eph", N, 6, extra=[kind], rep=rep)
        o = only(rep, "eph", E)
        if o:
            ev = Eval((rep.seed, kind))
            t = ev.num(E.leaf("t"))
            for i in range(6):
                rep.check(ev.num(o[i]) == (ev.num(E.leaf(C6[i])) + t * ev.num(E.leaf(D6[i]))) % P, "eph: forwarded",
                          nodeloc(o[i]), f"component {i} is not the user-defined planet's")
    for kind in range(3):
        for n in list(range(6)) + [17, 64]:
            names = N[:-1] + [f"t{i}" for i in range(n)]
            E = Entry(pr, "kv_pl_ephv", names, 1 + 6 * n + 6, extra=[kind, n], rep=rep)
            o = only(rep, "eph_v", E)
            if o is None:
                continue
            ev = Eval((rep.seed, kind, n))
            w = 1 if kind == 2 else 6
            if not rep.check(const(o[0], n * w), "eph_v: size", nodeloc(o[0]),
                             f"{n} epochs give {fmt(o[0], 1)} values"):
                continue
            for i in range(n):
                t = ev.num(E.leaf(f"t{i}"))
                for j in range(w):
                    if kind == 2:
                        want = ev.num(E.leaf("k4")) * t % P
                    else:
                        want = (ev.num(E.leaf(C6[j])) + t * ev.num(E.leaf(D6[j]))) % P
                    rep.check(ev.num(o[1 + w * i + j]) == want,
                              "eph_v: forwarded" if kind == 2 else "eph_v: equals eph element by element",
                              nodeloc(o[1 + w * i + j]), f"{n} epochs: value {j} of epoch {i}")
    for what, fn, args in [("period", "kv_pl_period", [0])] + [("elements", "kv_pl_elements", [0, k]) for k in range(4)]:
        E = Entry(pr, fn, N, 6, extra=args, rep=rep)
        for p in E.paths:
            good = p.outcome == "throw"
            typ = p.throw.typ if good else ""
            rep.check(good and ("not_implemented" in typ or typ == "exception"), f"{what}: refused without central mu",
                      where(p.loc) if good else nodeloc(p.extra["out"][0]),
                      f"a planet without central body mu {'throws ' + typ if good else 'returns a value'} instead of "
                      f"throwing not_implemented_error")
    # everything provided
    E = Entry(pr, "kv_pl_period", N, 1, extra=[2], rep=rep)
    o = only(rep, "period", E)
    ev = Eval(rep.seed)
    v = lambda n: ev.num(E.leaf(n))
    if o:
        rep.check(ev.num(o[0]) == (v("k4") + v("t") * v("k5")) % P, "period: forwarded", nodeloc(o[0]), "not forwarded")
    codes = {}
    for k in range(4):
        E = Entry(pr, "kv_pl_elements", N, 6, extra=[2, k], rep=rep)
        o = only(rep, "elements", E)
        ev = Eval(rep.seed)
        if o:
            want = [v("k0") * v("t"), v("k1"), None, v("k3"), v("k4"), v("k5") + v("t")]
            for i in range(6):
                if want[i] is not None:
                    rep.check(ev.num(o[i]) == want[i] % P, "elements: forwarded", nodeloc(o[i]), f"element {i}")
            codes[k] = ev.num(o[2]) * inv(v("k2")) % P
    if len(codes) == 4:
        rep.check(len(set(codes.values())) == 4, "elements: type forwarded", "include/kep3/planet.hpp",
                  "the element type asked for does not reach the user-defined planet")


def epochs(rep, pr):
    for kind in (1, 2):
        for k in range(4):
            E = Entry(pr, "kv_pl_epoch", N[:-1], 26, extra=[kind, k, lambda I: SymI("us")], rep=rep)
            done = 0
            for p in E.rets:
                o = p.extra["out"]
                r = sample(p, (rep.seed, kind, k), epoch_state)
                if r is None:
                    continue
                done += 1
                for i in range(13):
                    a, b = o[i], o[13 + i]
                    q = "eph" if i < 6 else "period" if i == 6 else "elements"
                    if isnan(a) or isnan(b):
                        rep.check(isnan(a) and isnan(b), f"{q}: epoch overload", nodeloc(a), "differs from the MJD2000 one")
                        continue
                    same(rep, f"{q}: epoch overload", a, b, r, f"differs from the one taking the epoch's MJD2000 "
                         f"(elements of type {TYPES[k]}, value {i})")
            if not done:
                rep.undecided("epoch overloads", "no trace could be modelled")
    for kind in (1, 2):
        E = Entry(pr, "kv_pl_defaults", N[:-1], 14, extra=[kind], rep=rep)
        done = 0
        for p in E.rets:
            o = p.extra["out"]
            r = sample(p, (rep.seed, kind), zero_state)
            if r is None:
                continue
            done += 1
            for i in range(7):
                a, b = o[i], o[7 + i]
                if isnan(a) or isnan(b):
                    continue
                same(rep, "default arguments", a, b, r, "not those of MJD2000 0 with true anomaly")
        if not done:
            rep.undecided("default arguments", "no trace could be modelled")


def epoch_state(rng):
    a = state_at_t(rng)
    t = a.pop("t")
    # the time the epoch gives: (us - 946684800 s)/day
    a["us"] = (t * 86400000000 + 946684800000000) % P
    for k in K6[1:]:
        a[k] = rng.randrange(1, P)
    return a


def zero_state(rng):
    a = state_at_t(rng)
    t = a.pop("t")
    for c, d in zip(C6, D6):
        a[c] = (a[c] + t * a[d]) % P
    for k in K6[1:]:
        a[k] = rng.randrange(1, P)
    return a


_drawn = {}


def sample(p, seed, assign, tries=120):
    """A sample following trace p; the same inputs are tried on every trace of an entry."""
    from kv.field import check_cond
    rng, l = _drawn.setdefault(repr((seed, assign.__name__)), (random.Random(repr(seed)), []))
    for i in range(tries):
        if i == len(l):
            l.append(assign(rng))
        ev = Eval((seed, i), dict(l[i]))
        try:
            for c in p.conds:
                check_cond(ev, c)
            for o in p.extra["out"]:
                if not isnan(o):
                    ev.num(o)
            return ev
        except Reject:
            continue
    return None


def default_orbit(rep, pr):
    # period from the energy
    E = Entry(pr, "kv_pl_period", N, 1, extra=[1], rep=rep)
    seen = set()
    for p in E.rets:
        o = p.extra["out"][0]
        for k in range(6):
            ev = sample(p, (rep.seed, k), state_at_t)
            if ev is None:
                continue
            hyp = energy(ev, E)[0]
            seen.add(hyp)
            if hyp:
                rep.check(isnan(o), "period: NaN on hyperbolae", nodeloc(o), "a period is returned")
            else:
                a, mu = energy(ev, E)[1:]
                rep.check(not isnan(o) and ev.num(o) == 2 * ev.pi * sqrt(a * a * a * inv(mu)) % P,
                          "period: 2 pi sqrt(a^3/mu)", nodeloc(o), "not the period of the osculating ellipse")
    if len(seen) < 2:
        rep.undecided("period", "no model of both kinds of orbit")
    for k in range(4):
        what = f"elements ({TYPES[k]})"
        E = Entry(pr, "kv_pl_oscul", N, 12, extra=[k], rep=rep)
        done = 0
        for p in E.rets:
            o = p.extra["out"]
            ev = sample(p, (rep.seed, k), state_at_t)
            if ev is None:
                continue
            done += 1
            for i in range(6):
                if isnan(o[i]) or isnan(o[6 + i]):
                    continue
                good = ev.num(o[i]) == ev.num(o[6 + i]) or i > 1 and k < 2 and equal_mod_turn(ev, ev.num(o[i]), ev.num(o[6 + i])) \
                    or i == 5 and equal_mod_turn(ev, ev.num(o[i]), ev.num(o[6 + i]))
                rep.check(good, f"{what}: osculating elements", nodeloc(o[i]),
                          f"element {i} is not that of the state for the planet's central body; trace [{pathdesc(p)}]")
        if not done:
            rep.undecided(what, "no trace could be modelled")
        refused(rep, pr, what, k, "kv_pl_elements", N, [1, k], boxes_mu)


def energy(ev, E):
    t = ev.num(E.leaf("t"))
    x = [(ev.num(E.leaf(c)) + t * ev.num(E.leaf(d))) % P for c, d in zip(C6, D6)]
    mu = ev.num(E.leaf("k0"))
    en = (sum(q * q for q in x[3:]) * inv(2) - mu * inv(sqrt(sum(q * q for q in x[:3]) % P))) % P
    return isqr(en), -mu * inv(2 * en) % P, mu


def boxes_mu(rng, ell):
    """State of an ellipse or hyperbola of any size, as a planet of constant state."""
    L, mu = 10. ** rng.uniform(-6, 8), 10. ** rng.uniform(-3, 20)
    r = [rng.gauss(0, 1) for _ in range(3)]
    v = [rng.gauss(0, 1) for _ in range(3)]
    R, V = (math.sqrt(sum(q * q for q in w)) for w in (r, v))
    esc = math.sqrt(2 * mu / L)
    k = esc * (rng.uniform(.2, .95) if ell else rng.uniform(1.05, 4))
    x = [q / R * L for q in r] + [q / V * k for q in v]
    return dict(zip(N, x + [0.] * 6 + [mu] + [1.] * 5 + [rng.uniform(-1e4, 1e4)]))


def refused(rep, pr, what, k, fn, names, args, gen, inits=False):
    rng = random.Random(f"{rep.seed}{what}")
    for i in range(30 if rep.thorough else 12):
        ell = i % 2 == 0
        pt = gen(rng, ell)
        if pt is None:
            continue
        E = Entry(pr, fn, names, 12, extra=args, rep=rep, box={n: (v, v) for n, v in pt.items()}, inits=inits)
        outs = {("throw" if p.outcome == "throw" else "ret") for p in E.paths if not p.exhausted}
        want = "throw" if k == 1 and not ell else "ret"
        if len(outs) != 1:
            rep.undecided(what, "which outcome is not decided")
            continue
        p = E.paths[0]
        c = p.extra.get("decided") or p.conds
        rep.check(outs == {want}, f"{what}: " + ("mean anomaly refused for hyperbolae" if want == "throw" else "available"),
                  where(locof(c[-1][3])) if c else what,
                  f"{'ellipse' if ell else 'hyperbola'} {', '.join(f'{n}={v:g}' for n, v in pt.items() if v)}: "
                  f"{'no exception' if want == 'throw' else 'an exception'}")


def keplerian(rep, pr):
    for how in range(-1, 4):
        built = "state" if how < 0 else TYPES[how]
        for k in range(4):
            what = f"keplerian ({built}): elements ({TYPES[k]})"
            with rep.part(what):
                E = Entry(pr, "kv_kep_ref", KEP, 14, extra=[how, k], rep=rep)
                done = 0
                for p in E.rets:
                    o = p.extra["out"]
                    need = [x for x in o if not isnan(x)]
                    for ev in samples(p, 1, rep, what, assign=orbit(how), pivots=["s5"] if how == 1 else [], need=need,
                                      tries=60, slope=False):
                        done += 1
                        for i in range(6):
                            a, b = o[i], o[7 + i]
                            if isnan(a) or isnan(b):
                                rep.check(isnan(a) and isnan(b), f"{what}: those of the orbit", nodeloc(a), "NaN")
                                continue
                            good = ev.num(a) == ev.num(b) or (i == 5 or k < 2 and i > 1) and equal_mod_turn(
                                ev, ev.num(a), ev.num(b))
                            rep.check(good, f"{what}: those of the orbit", nodeloc(a),
                                      f"element {i} differs from that of the orbit the planet was built from; trace "
                                      f"[{pathdesc(p)}]")
                        a, mu = ev.num(o[13]), ev.num(E.leaf("mu"))
                        if isnan(o[6]):
                            rep.check(not isqr(a), f"keplerian ({built}): period", nodeloc(o[6]), "NaN on an ellipse")
                        else:
                            rep.check(isqr(a) and ev.num(o[6]) == 2 * ev.pi * sqrt(a * a * a * inv(mu)) % P,
                                      f"keplerian ({built}): period", nodeloc(o[6]),
                                      "not 2 pi sqrt(a^3/mu), or not NaN on a hyperbola")
                if not done:
                    rep.undecided(what, "no trace could be modelled")
            if how <= 0:
                refused(rep, pr, what, k, "kv_kep_elem", KEP, [how, k], boxes_kep(how))
    E = Entry(pr, "kv_kep_get", KEP, 4, extra=[-1], rep=rep)
    for p in E.rets:
        for nm, i in (("mu", 0), ("ms", 1), ("ra", 2), ("sr", 3)):
            rep.check(p.extra["out"][i] is E.leaf(nm), "keplerian: physical parameters", nodeloc(p.extra["out"][i]),
                      f"getter {i} does not return what the planet was built with")


def boxes_kep(how):
    def g(rng, ell):
        tail = [1., 1., 1., 0., rng.uniform(-1e4, 1e4)]
        if how < 0:
            b = boxes_mu(rng, ell)
            x = [b[c] for c in C6] + [b["k0"]]
        else:
            e = rng.uniform(.01, .9) if ell else rng.uniform(1.1, 5)
            a = 10. ** rng.uniform(-6, 8)
            x = [a if ell else -a, e] + [rng.uniform(.1, 3), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(-1, 1),
                                         10. ** rng.uniform(-3, 20)]
        return dict(zip(KEP, x + tail))
    return g


def jpl(rep, pr):
    for w in range(8):
        for k in range(4):
            what = f"jpl_lp: elements ({TYPES[k]})"
            refused(rep, pr, what, 0, "kv_jpl_elements", ["t"], [w, k],
                    lambda rng, ell: {"t": rng.uniform(-73000, 18000)}, inits=True)
    # the elements of each type and the state are those of one orbit, that of the published elements
    from checks import c22
    c22.jpl(rep, pr)


def run(rep):
    pr = prog()
    for f in (getters, queries, epochs, default_orbit, keplerian, jpl):
        with rep.part(f.__name__):
            f(rep, pr)


if __name__ == "__main__":
    sys.exit(main("C21", RULE, run))
