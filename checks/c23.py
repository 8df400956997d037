import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv.states import state_assign
from kv.sizes import Sizes
from kv import sf
from kv import planets

RULE = ("A driver calling the vectorised routine and the scalar one on each of its inputs is abstractly interpreted for "
        "every small input length; along every trace the number of results is the input length and every component of "
        "every result has the value number of the scalar result on the corresponding input.  Longer inputs are decided "
        "with the scalar routine as an uninterpreted function of its arguments.")
ST = ["rx", "ry", "rz", "vx", "vy", "vz", "mu"]


def size(rep, what, n, o, k=1):
    return rep.check(o.op == "c" and o.args[0] == k * n, f"{what}: number of results", nodeloc(o),
                     f"{n} inputs give {fmt(o, 1)} results")


def full(rep, prog, n, stm):
    names = ST + [f"t{i}" for i in range(n)]
    E = Entry(prog, "kv_propagate_lagrangian_each", names, 1 + 86 * n, extra=[stm, n], rep=rep)
    full1(rep, E, n, stm, "")
    for a, v, F in E.special():
        full1(rep, F, n, stm, f"{a}={v:g}, ")


def full1(rep, E, n, stm, when):
    done = 0
    what = "propagate_lagrangian_v"
    for p in E.rets:
        o = p.extra["out"]
        if not size(rep, what, n, o[0]):
            done += 1
            continue
        if not n:
            done += 1
            continue
        k = 43 if stm else 7
        pairs = [(o[1 + 43 * i + j], o[1 + 43 * (n + i) + j]) for i in range(n) for j in range(k)]
        piv = [f"t{i}" for i in range(n)]
        for ev in samples(p, 1, rep, what, assign=state_assign(), pivots=piv, need=[x for q in pairs for x in q],
                          tries=1500, seed=(rep.seed, n, stm)):
            done += 1
            for i, (a, b) in enumerate(pairs):
                rep.check(ev.num(a) == ev.num(b), f"{what}: equals the scalar call", nodeloc(a),
                          f"{when}{n} inputs, matrix {'' if stm else 'not '}requested: entry {i % k} of result {i // k} differs "
                          f"from the scalar call; trace [{pathdesc(p)}]")
    if not done:
        rep.undecided(f"{what}, {n} inputs", "no trace could be modelled")


def long(rep, prog, n, stm):
    names = ST + [f"t{i}" for i in range(n)]
    what = "propagate_lagrangian_v"
    E = Entry(prog, "kv_propagate_lagrangian_each", names, 1 + 86 * n, extra=[stm, n], rep=rep, intercepts=sf.IC,
              max_steps=20_000_000)
    long1(rep, E, n, stm, "")
    if n < 4:
        for a, v, F in E.special():
            long1(rep, F, n, stm, f"{a}={v:g}, ")


def long1(rep, E, n, stm, when):
    what = "propagate_lagrangian_v"
    done = 0
    for p in E.rets:
        o = p.extra["out"]
        if not size(rep, what, n, o[0]):
            done += 1
            continue
        if n and o[1].op != "kflow":
            rep.undecided(f"{what}, {n} inputs", "results are not those of the scalar routine's entry point")
            done += 1
            continue
        k = 43 if stm else 7
        for ev in samples(p, 1, rep, what, assign=sampler(n), hook=sf.hook, seed=(rep.seed, n)):
            done += 1
            for i in range(n):
                for j in range(k):
                    a, b = o[1 + 43 * i + j], o[1 + 43 * (n + i) + j]
                    if a is b:
                        rep.ok(f"{what}: equals the scalar call")
                        continue
                    rep.check(ev.num(a) == ev.num(b), f"{what}: equals the scalar call", nodeloc(a),
                              f"{when}{n} inputs, matrix {'' if stm else 'not '}requested: entry {j} of result {i} differs "
                              f"from the scalar call; trace [{pathdesc(p)}]")
    if not done:
        rep.undecided(f"{what}, {n} inputs", "no trace could be modelled")


def sampler(n):
    base = state_assign()

    def a(rng):
        d = base(rng)
        for i in range(n):
            d[f"t{i}"] = rng.randrange(1, P)
        return d
    return a


def ephv(rep, pr, what, fn, names, args, n, assign, **kw):
    """Number of values, six vector results per epoch, then six scalar ones."""
    E = Entry(pr, fn, names, 1 + 12 * n, extra=args + [n], rep=rep, max_steps=20_000_000, **kw)
    ephv1(rep, E, what, n, assign, "")
    if n < 4:
        for a, v, F in E.special():
            ephv1(rep, F, what, n, assign, f"{a}={v:g}, ")


def ephv1(rep, E, what, n, assign, when):
    done = 0
    for p in E.rets:
        o = p.extra["out"]
        if not size(rep, what, n, o[0], 6) or not n:
            done += 1
            continue
        pairs = [(o[1 + i], o[1 + 6 * n + i]) for i in range(6 * n)]
        if all(a is b for a, b in pairs):
            done += 1
            for a, b in pairs:
                rep.ok(f"{what}: equals the scalar call")
            continue
        for ev in samples(p, 1, rep, what, assign=assign, hook=sf.hook, need=[x for q in pairs for x in q],
                          seed=(rep.seed, n), slope=False, tries=400):
            done += 1
            for i, (a, b) in enumerate(pairs):
                rep.check(ev.num(a) == ev.num(b), f"{what}: equals the scalar call", nodeloc(a),
                          f"{when}{n} epochs: component {i % 6} of epoch {i // 6} differs from the scalar call; trace "
                          f"[{pathdesc(p)}]")
    if not done:
        rep.undecided(f"{what}, {n} inputs", "no trace could be modelled")


def times(base, n):
    def a(rng):
        d = base(rng) if base else {}
        for i in range(n):
            d[f"t{i}"] = rng.randrange(1, P)
        return d
    return a


def ephemerides(rep):
    pr = planets.prog()
    ns = list(range(6)) + [17, 33] + ([65, 129] if rep.thorough else [])
    S = [Sizes(300), Sizes(300)]
    for n in ns:
        ts = [f"t{i}" for i in range(n)]
        for kind in (0, 1):
            names = planets.N[:-1] + ts
            with rep.part(f"planet::eph_v, {n} inputs"):
                with S[0].at(n if n < 6 else 0):
                    ephv(rep, pr, "planet::eph_v (default)", "kv_pl_ephv_each", names, [kind], n, times(None, n))
        for how in (-1, 0):
            with rep.part(f"keplerian eph_v, {n} inputs"), S[1].at(n if n < 6 else 0):
                ephv(rep, pr, "keplerian eph_v", "kv_kep_ephv", planets.KEP[:-1] + ts, [how], n,
                     times(planets.orbit(how), n), intercepts=sf.IC)
        if n <= 2:
            for w in range(8 if rep.thorough else 3):
                with rep.part(f"jpl_lp eph_v, {n} inputs"):
                    # in-range epochs: the outcome of the validity test is decided on the box
                    ephv(rep, pr, "jpl_lp eph_v", "kv_jpl_ephv", ts, [w], n, times(None, n), inits=True)
    S[0].beyond(rep, "inputs", lambda n: [
        ephv(rep, pr, "planet::eph_v (default)", "kv_pl_ephv_each", planets.N[:-1] + [f"t{i}" for i in range(n)], [kind], n,
             times(None, n)) for kind in (0, 1)], 3)
    S[1].beyond(rep, "inputs", lambda n: [
        ephv(rep, pr, "keplerian eph_v", "kv_kep_ephv", planets.KEP[:-1] + [f"t{i}" for i in range(n)], [how], n,
             times(planets.orbit(how), n), intercepts=sf.IC) for how in (-1, 0)], 3)


def run(rep):
    with rep.part("ephemerides"):
        ephemerides(rep)
    prog = program(["d_prop"], CORE)
    for n in range(4 if rep.thorough else 3):
        for stm in (0, 1):
            with rep.part(f"propagate_lagrangian_v, {n} inputs"):
                full(rep, prog, n, stm)
    S = Sizes(600)
    for n in list(range(13)) + [33, 65] + ([129, 257] if rep.thorough else []):
        for stm in (0, 1):
            with rep.part(f"propagate_lagrangian_v, {n} inputs"), S.at(n if n < 13 else 1):
                long(rep, prog, n, stm)
    S.beyond(rep, "inputs", lambda n: [long(rep, prog, n, stm) for stm in (0, 1)])


if __name__ == "__main__":
    sys.exit(main("C23", RULE, run))
