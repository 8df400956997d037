import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.client import *
from kv.report import main
from kv import hy, vsop
from kv.interp import Interp, Ptr

RULE = ("Lock-set analysis by abstract interpretation: sequences of calls to the functions that hand out and count cached "
        "integrators are interpreted with every access to a shared object (a mutable global, or memory reachable from "
        "one) recorded together with the mutexes held.  All accesses to a shared object of which one is a write must "
        "have a mutex in common; no mutex may be held on return or locked twice; an integrator handed out is the cached "
        "one for its tolerance, stays where it is and is not written again.")

SRC = ["ta/stark.cpp", "ta/cr3bp.cpp"]
KIND = ["get_ta_stark", "get_ta_stark_var", "get_ta_cr3bp", "get_ta_cr3bp_var"]
LOCK = ("pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_spin_lock",
        "pthread_mutex_trylock")
UNLOCK = ("pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock")


class Watch(Interp):
    """Records (object, offset, size, write, locks, place) of accesses to shared objects while calls are running."""

    def reset(self):
        self.on = False
        self.held = []
        self.acc = []
        self.shared = set()
        self.got = {}
        self.bad = []

    def reach(self):
        """Objects shared between threads: mutable globals and what they point to."""
        out, todo = set(), [o for o in self.gobjs.values() if not o.const and not o.name.startswith("_ZGV")]
        while todo:
            o = todo.pop()
            if id(o) in out:
                continue
            out.add(id(o))
            for _, v in list(o.cells.values()):
                if isinstance(v, Ptr) and id(v.obj) not in out and not v.obj.const:
                    todo.append(v.obj)
        return out

    def rec(self, p, size, w):
        if not self.on or not isinstance(p, Ptr) or p.obj.const or not isinstance(p.off, int):
            return
        o = p.obj
        if o.kind != "global" and id(o) not in self.shared:
            return
        self.acc.append((o, p.off, size, w, frozenset(self.held), self.cur_loc()))

    def load_leaf(self, p, ty, size):
        self.rec(p, size, False)
        return super().load_leaf(p, ty, size)

    def store(self, lay, v, p):
        if lay[0] == "l":
            self.rec(p, lay[2], True)
        return super().store(lay, v, p)

    def memcpy(self, dst, src, n):
        if isinstance(n, int) and n:
            self.rec(src, n, False)
            self.rec(dst, n, True)
        return super().memcpy(dst, src, n)

    def memset(self, dst, b, n):
        if isinstance(n, int) and n:
            self.rec(dst, n, True)
        return super().memset(dst, b, n)


def key(p):
    return (p.obj.name, p.off) if isinstance(p, Ptr) else ("?", repr(p))


def lock(I, mod, dem, args, ins):
    k = key(args[0])
    if k in I.held:
        I.bad.append(("locks a mutex it already holds", I.cur_loc()))
    I.held.append(k)
    return 0


def unlock(I, mod, dem, args, ins):
    k = key(args[0])
    if k in I.held:
        I.held.remove(k)
    elif I.on:
        I.bad.append(("unlocks a mutex it does not hold", I.cur_loc()))
    return 0


def mark(I, mod, dem, args, ins):
    if I.held:
        I.bad.append(("returns with a mutex held", I.cur_loc()))
    I.on = args[0] == 1
    if I.on:
        # what is reachable now is shared during the calls that follow; what they publish is shared afterwards
        I.shared |= I.reach()
    return None


def got(I, mod, dem, args, ins):
    I.got[args[0]] = args[1]
    I.shared |= I.reach()
    return None


IC = dict(hy.SYM, kv_mark=mark, kv_got=got)
IC.update({k: lock for k in LOCK})
IC.update({k: unlock for k in UNLOCK})


def races(rep, what, I, acc, bad, held):
    """The locks held at the accesses to shared objects."""
    for what2, loc in bad:
        rep.check(False, f"{what}: lock discipline", where(loc), what2)
    rep.check(not held, f"{what}: lock discipline", "", "a mutex is held on return")
    objs = {}
    for o, off, size, wr, locks, loc in acc:
        objs.setdefault(id(o), (o, []))[1].append((off, size, wr, locks, loc))
    rep.count("shared_objects", len(objs))
    rep.count("shared_accesses", len(acc))
    for o, l in objs.values():
        if "mutex" in o.name and all(not x[2] for x in l):
            continue
        if not any(x[2] for x in l):
            continue
        common = frozenset.intersection(*[x[3] for x in l])
        # the least protected access is the one to report
        worst = min(l, key=lambda x: (sum(y[3] >= x[3] for y in l) if x[3] else -1))
        rep.check(bool(common), f"{what}: accesses to {short(o)} are mutually exclusive", where(worst[4]),
                  f"{'writes' if worst[2] else 'reads'} {short(o)} holding "
                  f"{names(worst[3])}, which does not exclude the accesses at "
                  + "; ".join(sorted({where(x[4]) for x in l if x is not worst and not x[3] & worst[3]})[:3]))


def vsops(rep):
    """The ephemeris functions of two VSOP2013 planets, the second of which may find that of the first."""
    prog = vsop.prog()
    ic = dict(IC, **vsop.IC)
    D = lambda I, n: I.dag.leaf(n) if isinstance(n, str) else I.dag.const(n)
    cases = [(2, "h", 2, "h"), (2, "h", 2, "k"), (2, "h", 3, "h"), (2, "h", 9, "h"), (1, "h", 9, "h"), (0, "h", 8, "k")]
    for c in (0., 1e-5, 1.):
        cases += [(2, "h", 2, c), (2, c, 2, "h"), (7, c, 3, c)]
    for n1, h1, n2, h2 in cases:
        for how in range(4):
            what = "vsop2013"
            with rep.part(what):
                I = Watch(prog, intercepts=ic, max_steps=20_000_000)
                I.reset()
                I.inits = True
                box = {}

                def mk(I):
                    I.reset()
                    box["o"] = I.outarray("out", 12)
                    return [I.darray("in", [0.]), box["o"], n1, D(I, h1), n2, D(I, h2), D(I, "t"), how]

                def post(I, r):
                    if r.outcome == "ret":
                        r.extra["out"] = I.read(box["o"], 12)
                    r.extra["cap"] = (I.acc, I.bad, list(I.held))
                paths = I.explore("kv_vs_again", mk, post)
                rep.count("traces", len(paths))
                for src, f in I.funcs_seen:
                    rep.functions.add(prog.sym[f].dem if f in prog.sym else f)
                done = 0
                for p in paths:
                    if p.outcome != "ret":
                        continue
                    if any("atomic" in u[0] or "cmpxchg" in u[0] for u in p.unknown):
                        rep.undecided(what, "atomic operations")
                        continue
                    acc, bad, held = p.extra["cap"]
                    races(rep, what, I, acc, bad, held)
                    o = p.extra["out"]
                    for ev in samples(p, 1, rep, what, assign=lambda rng: {x: rng.randrange(1, P) for x in "htk"},
                                      hook=vsop.hook, need=o, slope=False):
                        done += 1
                        for c, (n, x) in enumerate(((n1, h1), (n2, h2))):
                            b = vsop.NAMES.index(vsop.NAMES[n].lower()) + 1
                            for i in range(6):
                                got = ev.num(o[6 * c + i]) * inv(149597870700) * (86400 if i > 2 else 1) % P
                                v = ev.num(I.dag.leaf("t"))
                                want = vsop.h(ev.seed, "vsop", i, b, (v - inv(2)) * inv(365250) % P, ev.num(D(I, x)))
                                rep.check(got == want, f"{what}: the function of the body and threshold", nodeloc(o[6 * c + i]),
                                          f"{'the first' if not c else ['the second', 'a copy of the second', 'a planet assigned the second', 'a planet moved from the second'][how]}"
                                          f" of two planets ({vsop.NAMES[n1]}, {h1}), ({vsop.NAMES[n2]}, {h2}) does not use "
                                          f"the function of its body and threshold")
                if not done:
                    rep.undecided(what, "no trace could be modelled")


def run(rep):
    try:
        vsops(rep)
    except AnalysisError as e:
        rep.undecided("vsop2013", str(e))
    prog = program(["d_ta"], SRC)
    for w, name in enumerate(KIND):
        for a, b in ((1e-16, 1e-8), (1e-8, 1e-12), (0.5, 0.25)):
            with rep.part(name):
                seq(rep, prog, w, name, a, b)


def seq(rep, prog, w, name, a, b):
    I = Watch(prog, intercepts=IC, max_steps=20_000_000)
    I.reset()
    I.inits = True
    box = {}
    n = 2000
    caps = []

    def mk(I):
        I.reset()
        box["o"] = I.outarray("out", n)
        return [box["o"], w, I.dag.const(a), I.dag.const(b)]

    def post(I, r):
        if r.outcome == "ret":
            r.extra["out"] = I.read(box["o"], n)
        r.extra["cap"] = (I.acc, I.got, I.bad, list(I.held))
    paths = I.explore("kv_ta_seq", mk, post)
    rep.count("traces", len(paths))
    for src, f in I.funcs_seen:
        rep.functions.add(prog.sym[f].dem if f in prog.sym else f)
    for p in paths:
        acc, gt, bad, held = p.extra["cap"]
        if p.outcome != "ret":
            rep.check(False, f"{name}: completes", where(p.loc), "obtaining cached integrators throws")
            continue
        if any("atomic" in u[0] or "cmpxchg" in u[0] for u in p.unknown):
            rep.undecided(name, "atomic operations")
            continue
        races(rep, name, I, acc, bad, held)
        # identity and contents
        out = p.extra["out"]
        x, y, z, v = (gt.get(i) for i in range(4))
        same = lambda s, t: isinstance(s, Ptr) and isinstance(t, Ptr) and s.obj is t.obj and s.off == t.off
        at = name
        rep.check(same(x, z) and same(y, v), f"{name}: one integrator per tolerance", at,
                  f"{name} asked again for a tolerance hands out another object: the reference given before is not the "
                  f"cached integrator's")
        rep.check(not same(x, y), f"{name}: one integrator per tolerance", at,
                  f"{name} hands out one object for two tolerances")
        d = [k.args[0] if k.op == "c" else None for k in out[:8]]
        rep.check(d[:4] == [0, 1, 2, 2], f"{name}: cache size", at,
                  f"the cache of {name} counts {d[:4]} rather than [0, 1, 2, 2] after none, one, two and two tolerances")
        rep.check(all(d[4 + i] == 1 for i in range(4) if i != w), f"{name}: separate caches", at,
                  f"the caches are not separate: sizes {d[4:8]}")
        for i, (q, t) in enumerate(((400, a), (800, b))):
            rep.check(out[q].op == "c" and out[q].args[0] == t, f"{name}: tolerance", at,
                      f"{name}({t}) hands out an integrator of another tolerance")
            rep.check(all(s is r or s.op == "unk" and r.op == "unk"
                          for s, r in zip(out[q:q + 400], out[q + 800:q + 1200])),
                      f"{name}: later calls leave integrators alone", at,
                      f"later calls change an integrator handed out before")
        for r in (x, y):
            if not isinstance(r, Ptr):
                continue
            size = 8
            w2 = [e for e in acc if e[0] is r.obj and e[3] and e[1] >= r.off]
            rep.check(not w2, f"{name}: integrators handed out are not written", where(w2[0][5]) if w2 else at,
                      f"writes to an integrator a previous call handed out")


def short(o):
    n = o.name
    if n.startswith("_ZN"):
        return n.split("ta")[-1] and "the global " + n
    return "memory of " + n.split("#")[0].split("@")[0]


def names(locks):
    return "no mutex" if not locks else "only " + ", ".join(sorted(k[0] for k in locks))


if __name__ == "__main__":
    sys.exit(main("C17", RULE, run))
