"""Common steps of the value-graph checks."""
from . import build, interp, field
from .build import AnalysisError
from .dag import Node, topo, fmt
from .field import Eval, Reject, Sampler, Unknown, P, inv, isqr, root_seeds, sqrt, total_grad
from .interp import locof
from .report import where

CORE = ["core_astro/propagate_lagrangian.cpp", "core_astro/stm.cpp", "core_astro/ic2par2ic.cpp",
        "core_astro/ic2eq2ic.cpp", "core_astro/eq2par2eq.cpp", "linalg.cpp"]

_progs = {}


def program(drivers, srcs, optional=(), extra=()):
    """Lower drivers and repository sources and load them as one program."""
    key = (tuple(drivers), tuple(srcs), tuple(extra))
    if key in _progs:
        return _progs[key]
    import os
    have = [s for s in build.repo_src(*srcs) if os.path.exists(s)]
    # sources may have been moved or split: add any other source of the same directories that compiles
    paths = [build.driver(d) for d in drivers] + have
    res = build.lower_all(paths, extra)
    ok = []
    for s in paths:
        p, e = res[s]
        if p is None:
            if s in have and any(s.endswith(o) for o in optional):
                continue
            raise AnalysisError(f"{s} does not compile for analysis:\n{e[-1500:]}")
        ok.append(p)
    pr = interp.Program(ok)
    _progs[key] = pr
    return pr


class Entry:
    """All traces of one entry point, with its outputs as value-graph nodes."""

    def __init__(self, prog, fn, names, nout, extra=(), rep=None, **kw):
        self.prog = prog
        self.fn = fn
        self.names = names
        self.how = (prog, fn, names, nout, extra, rep, dict(kw))
        box, inits = kw.pop("box", None), kw.pop("inits", False)
        I = self.I = interp.Interp(prog, **kw)
        I.inits = inits
        if box is not None:
            from .box import Box
            I.oracle = Box(box).decide
        self.dag = I.dag
        obox = {}

        def mk(I):
            a = I.darray("in", names) if names is not None else None
            o = I.outarray("out", nout)
            obox["o"] = o
            return [a, o] + [e(I) if callable(e) else e for e in extra]

        def post(I, r):
            if r.outcome == "ret":
                r.extra["out"] = I.read(obox["o"], nout)

        self.paths = I.explore(fn, mk, post)
        self.ins = [I.dag.leaf(n) for n in (names or []) if isinstance(n, str)]
        self.rets = [p for p in self.paths if p.outcome == "ret" and not p.exhausted]
        self.throws = [p for p in self.paths if p.outcome == "throw"]
        if rep is not None:
            rep.count("traces", len(self.paths))
            rep.count("value_graph_nodes", len(I.dag.nodes))
            rep.count("instructions_interpreted", I.total_steps)
            for src, nm in I.funcs_seen:
                rep.functions.add(prog.sym[nm].dem if nm in prog.sym else nm)

    def leaf(self, name):
        return self.dag.leaf(name)

    def special(self):
        """The entry again for each particular value of an input that the code singles out by an equality test, as
        (input, value, entry).  The traces of self leave these values out."""
        prog, fn, names, nout, extra, rep, kw = self.how
        seen = set()
        for p in self.paths:
            for a, b, loc in p.eqs:
                for x, c in ((a, b), (b, a)):
                    while c.op == "c" and c.args[0] == 0 and x.op in ("fabs", "neg"):
                        x = x.args[0]
                    if x.op == "in" and c.op == "c" and x.args[0] in names:
                        seen.add((x.args[0], c.args[0]))
        for n, c in sorted(seen)[:12]:
            yield n, c, Entry(prog, fn, [c if m == n else m for m in names], nout, extra, rep, **dict(kw))


def pathdesc(p):
    out = []
    for a, b, rel, loc in p.conds[-6:]:
        l = locof(loc)
        out.append(f"{fmt(a, 1)} {rel} {fmt(b, 1)} ({where(l)})")
    return "; ".join(out)


def dead_division(S, tries):
    """A division needed for the outcome of a feasible trace whose divisor is zero for every model of the trace."""
    need, S.need = S.need, ()
    hits, node = 0, None
    try:
        for _ in range(12):
            ev = S.draw(min(tries, 300))
            if ev is None:
                return None
            bad = None
            for n in topo(need):
                try:
                    ev.num(n)
                except Reject as e:
                    if str(e) != "division by zero":
                        return None
                    bad = n
                    break
            if bad is None or node is not None and bad is not node:
                return None
            node, hits = bad, hits + 1
    except Unknown:
        return None
    finally:
        S.need = need
    return node if hits >= 12 else None


def samples(p, n, rep, what, **kw):
    """n independent samples of the value numbering along trace p (empty: undecided)."""
    tries = kw.pop("tries", 3000)
    seed = kw.pop("seed", rep.seed)
    S = Sampler(p, seed=seed, **kw)
    out = []
    try:
        for i in range(n):
            ev = S.draw(tries)
            if ev is None:
                if not out:
                    rep.count("traces_without_model")
                    n = dead_division(S, tries)
                    if n is not None:
                        rep.check(False, "no outcome is a division by zero whatever the arguments", nodeloc(n),
                                  f"{what}: the divisor of {fmt(n, 2)} is zero for all arguments that lead here")
                break
            out.append(ev)
    except Unknown as e:
        rep.undecided(what, str(e))
        return []
    return out


def nodeloc(n):
    return where(locof(n))
