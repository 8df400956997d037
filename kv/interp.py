"""Abstract interpreter over dumped LLVM IR.

Control-relevant data (integers, pointers, shapes) is tracked concretely,
doubles are tracked as value-graph nodes (kv.dag), memory as typed cells per
object.  States are partitioned by the branch decisions taken on conditions
over doubles (trace partitioning); loops whose exit depends on doubles are
widened: everything a loop iteration may change becomes unknown at its header.
Nothing is executed on numbers and no path condition is given to a solver.
"""
import math
import sys
import zlib
from .dag import Dag, INTS, Node, bits2float, float2bits, fmt
from .build import REPO, AnalysisError, load

sys.setrecursionlimit(20000)


LOG = None        # current log of integer comparisons (see sizes.py): instruction -> [min a, max a, min b, max b]


def note_pair(I, mod, ins, a, b, kind=0):
    st = I.stack
    k = (id(ins), st[-2][0].name if kind == 0 and len(st) > 1 and not st[-1][0].own else "", kind)
    r = LOG.get(k)
    if r is None:
        LOG[k] = [a, a, b, b, mod, ins]
    else:
        if a < r[0]:
            r[0] = a
        elif a > r[1]:
            r[1] = a
        if b < r[2]:
            r[2] = b
        elif b > r[3]:
            r[3] = b


def sgn(v, bits=64):
    return v - (1 << bits) if v >> (bits - 1) else v


class _U:
    def __repr__(self):
        return "UNDEF"


UNDEF = _U()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return f"&{self.obj.name}+{self.off}"


class FuncRef:
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name


class Obj:
    __slots__ = ("name", "size", "cells", "zero", "kind", "const", "freed", "unk", "symsize", "serial")

    def __init__(self, name, size, kind, zero=False, const=False):
        self.name = name
        self.size = size
        self.cells = {}
        self.zero = zero
        self.kind = kind
        self.const = const
        self.freed = False
        self.unk = None
        self.symsize = None
        self.serial = 0


class SymI:
    """Integer of unknown value: base atom + offset, within [lo,hi]."""
    __slots__ = ("base", "off")

    def __init__(self, base, off=0):
        self.base = base
        self.off = off

    def __eq__(self, o):
        return isinstance(o, SymI) and o.base == self.base and o.off == self.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return f"{self.base}{self.off:+d}"


class ICond:
    __slots__ = ("pred", "a", "b")

    def __init__(self, pred, a, b):
        self.pred, self.a, self.b = pred, a, b


class FCond:
    """Comparison of two doubles (pred in lt le gt ge eq ne) - not NaN aware."""
    __slots__ = ("pred", "a", "b", "loc")

    def __init__(self, pred, a, b, loc):
        self.pred, self.a, self.b, self.loc = pred, a, b, loc


class BExpr:
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b


class Thrown(Exception):
    def __init__(self, typ, locid, mod, stack):
        self.typ, self.locid, self.mod, self.stack = typ, locid, mod, stack


class Killed(Exception):
    def __init__(self, why):
        self.why = why


class Unsupported(AnalysisError):
    pass


class Widen(Exception):
    def __init__(self, key):
        self.key = key


class Budget(AnalysisError):
    pass


M64 = (1 << 64) - 1
CXA = {"St12domain_error": "std::domain_error", "St16invalid_argument": "std::invalid_argument",
       "St13runtime_error": "std::runtime_error", "St11logic_error": "std::logic_error",
       "St12out_of_range": "std::out_of_range", "St12length_error": "std::length_error",
       "St14overflow_error": "std::overflow_error", "St9bad_alloc": "std::bad_alloc",
       "St9exception": "std::exception"}
BASES = {k: ("std::logic_error",) for k in ("std::domain_error", "std::invalid_argument", "std::out_of_range",
                                            "std::length_error")}
BASES.update({k: ("std::runtime_error",) for k in ("std::overflow_error", "std::range_error", "std::system_error")})


class Func:
    __slots__ = ("mod", "name", "dem", "blocks", "args", "n", "file", "line", "loops", "hdr", "decl", "byval",
                 "internal", "linkonce", "sret", "phis", "own")

    def __init__(self, mod, d):
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.internal = d["internal"]
        self.linkonce = d["linkonce"]
        self.args = d["args"]
        self.byval = dict(map(tuple, d.get("byval", [])))
        self.sret = d["sret"]
        self.file = d.get("file")
        self.own = inrepo(self.file or "")
        self.line = d.get("line", 0)
        self.blocks = d.get("blocks")
        self.n = d.get("n", 0)
        self.loops = d.get("loops", [])
        self.hdr = {h: frozenset(b) for h, b in self.loops}


def inrepo(f):
    return f.startswith((REPO + "/src/", REPO + "/include/")) or "/include/kep3" in f


class Module:
    def __init__(self, path):
        d = load(path)
        self.path = path
        self.source = d["source"]
        self.locs = d["locs"]
        self.funcs = {f["name"]: Func(self, f) for f in d["funcs"]}
        self.globals = {g[0]: g for g in d["globals"]}
        self.aliases = dict(map(tuple, d["aliases"]))

    def loc(self, lid):
        if not lid:
            return None
        return self.locs[lid]

    def locstr(self, lid, repo=None):
        """Innermost location inside the repository for this debug location."""
        best = None
        cur = lid
        while cur:
            l = self.locs[cur]
            if best is None:
                best = l
            if inrepo(l[0]):
                return l
            cur = l[4]
        return best


class Program:
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.sym = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if f.decl or f.internal:
                    continue
                o = self.sym.get(n)
                if o is None or (o.linkonce and not f.linkonce):
                    self.sym[n] = f
        for m in self.mods:
            for a, t in m.aliases.items():
                if a not in self.sym and t in m.funcs and not m.funcs[t].decl:
                    self.sym[a] = m.funcs[t]
        self.gdef = {}
        for m in self.mods:
            for n, g in m.globals.items():
                if g[2] and not g[8] and n not in self.gdef:
                    self.gdef[n] = (m, g)

    def find(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.decl and f.internal:
            return f
        if name in mod.aliases:
            name = mod.aliases[name]
            f = mod.funcs.get(name)
            if f is not None and not f.decl and f.internal:
                return f
        return self.sym.get(name)

    def by_dem(self, prefix):
        return [f for f in self.sym.values() if f.dem.startswith(prefix)]


class PathResult:
    __slots__ = ("outcome", "conds", "roots", "unknown", "oob", "exhausted", "mem", "ret", "steps", "loopvars",
                 "objs", "loc", "throw", "decisions", "extra", "iconds", "eqs", "divs")

    def __init__(self):
        self.outcome = None
        self.loc = None
        self.conds = []      # (node_a, node_b, rel, loc)
        self.roots = []
        self.unknown = []
        self.oob = []
        self.exhausted = []
        self.loopvars = []
        self.iconds = []
        self.eqs = []
        self.divs = []
        self.throw = None
        self.extra = {}


NEGP = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
FMATH = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp",
         "log", "sqrt", "cbrt", "floor", "ceil", "trunc", "fabs", "round", "log10", "log2", "exp2", "expm1", "log1p",
         "rint", "nearbyint"}
STUMPED = {}


class Interp:
    def __init__(self, prog, dag=None, intercepts=None, max_paths=4000, max_steps=3_000_000, fork_eq=False,
                 fork_unknown=True, bounds=None, f2i_range=None, unroll=None):
        self.prog = prog
        self.dag = dag or Dag()
        self.intercepts = intercepts or {}
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.fork_eq = fork_eq
        self.bounds0 = bounds or {}
        self.f2i_range = f2i_range
        self.unroll = unroll      # bounded unrolling instead of widening (longer traces are dropped)
        self.widened = {}     # (fname, header) -> set of written cells keys
        self.site_forks = {}
        self.gobj_init = {}
        self.total_steps = 0
        self.funcs_seen = set()
        self.calls_seen = {}
        self.fork_limit = 3
        self.oracle = None
        self.inits = False    # run the dynamic initialisers of globals first
        self.run_cleanups = False

    # ------------------------------------------------------------------ driver
    def explore(self, fn, mkargs, post=None):
        """Enumerate the trace partition of fn.  mkargs(interp) -> args, run afresh per trace."""
        f = fn if isinstance(fn, Func) else self.prog.sym.get(fn)
        if f is None:
            raise AnalysisError(f"no definition of {fn}")
        while True:
            try:
                return self._explore(f, mkargs, post)
            except Widen as w:
                if w.key in self.widened and self.widened[w.key].get("again") is None:
                    pass
                self.widened.setdefault(w.key, {"cells": set(), "phis": {}})
                self.site_forks.clear()

    def _explore(self, f, mkargs, post):
        results = []
        todo = [()]
        n = 0
        while todo:
            dec = todo.pop()
            n += 1
            if n > self.max_paths:
                raise Budget(f"more than {self.max_paths} traces in {f.dem}")
            r = self.run1(f, mkargs, dec, post)
            for i in range(len(dec), len(self.trace)):
                ch, nalt = self.trace[i]
                for alt in nalt:
                    todo.append(tuple(c for c, _ in self.trace[:i]) + (alt,))
            if r is not None:
                results.append(r)
        return results

    def run1(self, f, mkargs, dec, post):
        self.dec = dec
        self.trace = []
        self.memo = {}
        self.bnd = {}
        self.gobjs = {}
        self.objn = 0
        self.onames = {}
        self.objreg = {}
        self.f2i = {}
        self.steps = 0
        self.itn = 0
        self.stack = []
        self.leafn = {}
        self.active_loops = []
        self.loop_counts = {}
        self.inflight = None
        self.excs = {}
        self.handling = []
        self.tls = set()
        self.res = r = PathResult()
        try:
            if self.inits:
                for m in self.prog.mods:
                    for g in m.funcs.values():
                        if g.name.startswith("_GLOBAL__sub_I") and g.blocks:
                            self.call(g, [])
            args = mkargs(self)
            r.ret = self.call(f, args)
            r.outcome = "ret"
        except Thrown as t:
            r.outcome = "throw"
            r.throw = t
            r.loc = t.mod.locstr(t.locid)
        except Killed as k:
            self.total_steps += self.steps
            if k.why == "backedge":
                r.outcome = "backedge"
            else:
                return None
        self.total_steps += self.steps
        r.decisions = [c for c, _ in self.trace]
        r.steps = self.steps
        if post:
            post(self, r)
        return r

    def choose(self, alts):
        """Trace-partitioning decision among alternatives."""
        i = len(self.trace)
        if i < len(self.dec):
            c = self.dec[i]
            self.trace.append((c, ()))
        else:
            c = alts[0]
            self.trace.append((c, tuple(alts[1:])))
        return c

    # ------------------------------------------------------------------ objects
    def new(self, name, size, kind="heap", zero=False):
        self.objn += 1
        if self.stack:
            f, lid, _ = self.stack[-1]
            name = f"{name}@{f.name[:40]}:{lid}"
        k = self.onames.get(name, 0)
        self.onames[name] = k + 1
        o = Obj(f"{name}#{k}", size, kind, zero)
        o.serial = self.objn
        self.objreg[o.name] = o
        return o

    def darray(self, name, vals):
        """A memory object holding doubles."""
        o = self.new(name, 8 * len(vals), "arg")
        for i, v in enumerate(vals):
            if isinstance(v, (int, float)):
                v = self.dag.const(v)
            elif isinstance(v, str):
                v = self.dag.leaf(v)
            o.cells[8 * i] = (8, v)
        return Ptr(o, 0)

    def outarray(self, name, n):
        return Ptr(self.new(name, 8 * n, "arg"), 0)

    def read(self, p, n):
        return [self.load_leaf(Ptr(p.obj, p.off + 8 * i), "double", 8) for i in range(n)]

    def fresh(self, *key):
        k = tuple(key)
        c = self.leafn.get(k, 0)
        self.leafn[k] = c + 1
        return self.dag.unknown(*k, c)

    def global_obj(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g[8]:
            m = mod                      # internal linkage
        elif name in self.prog.gdef:
            m, g = self.prog.gdef[name]
        else:
            m, g = None, g or [name, 0, 0, 8, 0, [], None, 0, 0]
        key = (id(m) if m is not None else 0, name)
        o = self.gobjs.get(key)
        if o is None:
            o = Obj(name, g[3], "global", zero=bool(g[2]), const=bool(g[1]))
            self.gobjs[key] = o
            if m is not None:
                for off, sz, c in g[5]:
                    if c[0] == "s":
                        b = bytes.fromhex(c[1])
                        for i, ch in enumerate(b):
                            if ch:
                                o.cells[off + i] = (1, ch)
                    else:
                        v = self.const(m, c)
                        o.cells[off] = (sz, v)
        return o

    def const(self, mod, c):
        t = c[0]
        if t == "i":
            bits = c[1]
            return int(c[2]) & ((1 << bits) - 1)
        if t == "f":
            return self.dag.const(bits2float(int(c[1])))
        if t == "n":
            return 0
        if t == "u":
            return UNDEF
        if t == "g":
            name = c[1]
            f = mod.funcs.get(name)
            if f is not None or name in mod.aliases and mod.aliases[name] in mod.funcs:
                return FuncRef(self.prog.find(mod, name), name)
            return Ptr(self.global_obj(mod, name), c[2])
        if t == "z":
            return self.zero_of(c[1])
        if t == "agg":
            return [self.const(mod, x) for x in c[1]]
        return UNDEF

    def zero_of(self, lay):
        if lay[0] == "l":
            return self.dag.const(0.0) if lay[1] in ("double", "float") else 0
        return [self.zero_of(x[1]) for x in lay[1]]

    # ------------------------------------------------------------------ memory
    def load(self, lay, p):
        if lay[0] == "a":
            if not isinstance(p, Ptr):
                return [UNDEF for _ in lay[1]]
            return [self.load(l, Ptr(p.obj, p.off + o)) for o, l in lay[1]]
        return self.load_leaf(p, lay[1], lay[2])

    def release(self, p, what):
        if not isinstance(p, Ptr) or p.obj.kind != "heap":
            return
        o = p.obj
        if o.freed or p.off != 0:
            self.oob(p, 0, what)
        o.freed = True
        o.size = 0
        o.cells = {}

    def oob(self, p, size, what):
        if isinstance(p, Ptr) and p.obj.freed:
            what += " released memory"
        self.res.oob.append((what, p.obj.name if isinstance(p, Ptr) else repr(p), p.off if isinstance(p, Ptr) else 0,
                             p.obj.size if isinstance(p, Ptr) else 0, self.cur_loc()))

    def cur_loc(self):
        f, lid = self.stack[-1][:2] if self.stack else (None, 0)
        # innermost repo location up the stack
        for f, lid, _ in reversed(self.stack):
            l = f.mod.locstr(lid)
            if l and inrepo(l[0]):
                return l
        return f.mod.locstr(lid) if f else None

    def load_leaf(self, p, ty, size):
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                self.res.oob.append(("null-load", str(p), 0, 0, self.cur_loc()))
            return self.default(ty, "load-unknown-ptr")
        o = p.obj
        off = p.off
        if not isinstance(off, int):
            return self.default(ty, "load-sym-off")
        if o.size is not None and (off < 0 or off + size > o.size):
            self.oob(p, size, "load")
            return self.default(ty, "oob")
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.coerce(v, ty, size)
        return self.load_slow(o, off, ty, size)

    def coerce(self, v, ty, size):
        if ty == "double":
            if isinstance(v, int):
                return self.dag.const(bits2float(v))
            if isinstance(v, Node):
                return v
            if v is UNDEF:
                return self.default(ty, "uninit")
            return v
        if ty == "ptr":
            return v
        if ty.startswith("i") and isinstance(v, Node) and v.op == "c":
            return float2bits(v.args[0])
        return v

    def default(self, ty, why):
        if ty == "double":
            return self.fresh("unk", why)
        return UNDEF

    def load_slow(self, o, off, ty, size):
        # gather bytes
        parts = []
        covered = False
        tot = 0
        bs = bytearray(size)
        known = True
        for b in range(size):
            a = off + b
            hit = None
            for s in (1, 2, 4, 8, 16):
                base = None
                # cells are aligned to any offset: search backwards up to 15 bytes
            for back in range(0, 16):
                c = o.cells.get(a - back)
                if c is not None and c[0] > back:
                    hit = (c, back)
                    break
            if hit is None:
                if o.zero:
                    bs[b] = 0
                    continue
                if o.unk is not None:
                    known = False
                    break
                known = False
                break
            covered = True
            v = hit[0][1]
            if isinstance(v, Node) and v.op == "c":
                v = float2bits(v.args[0])
            if not isinstance(v, int):
                known = False
                break
            bs[b] = (v >> (8 * hit[1])) & 255
        if known:
            v = int.from_bytes(bs, "little")
            if ty == "double":
                return self.dag.const(bits2float(v))
            if ty == "float":
                return UNDEF
            return v
        return self.default(ty, "uninit" if not covered else "mixed")

    def erase(self, o, off, size):
        cells = o.cells
        if size <= 16 or size < len(cells):
            rng = range(off - 15, off + size)
            for a in rng:
                c = cells.get(a)
                if c is None:
                    continue
                if a + c[0] <= off:
                    continue
                self._split(cells, a, c, off, size)
        else:
            for a in [a for a in cells if a < off + size and a + cells[a][0] > off]:
                self._split(cells, a, cells[a], off, size)

    def _split(self, cells, a, c, off, size):
        del cells[a]
        sz, v = c
        if a >= off and a + sz <= off + size:
            return
        if isinstance(v, Node) and v.op == "c":
            v = float2bits(v.args[0])
        for b in range(sz):
            x = a + b
            if off <= x < off + size:
                continue
            if isinstance(v, int):
                cells[x] = (1, (v >> (8 * b)) & 255)
            else:
                cells[x] = (1, UNDEF)

    def store(self, lay, v, p):
        if lay[0] == "a":
            if v is UNDEF or not isinstance(v, (list, tuple)):
                v = [UNDEF] * len(lay[1])
            for (o, l), x in zip(lay[1], v):
                self.store(l, x, Ptr(p.obj, p.off + o) if isinstance(p, Ptr) else p)
            return
        size = lay[2]
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            if isinstance(p, int):
                self.res.oob.append(("null-store", str(p), 0, 0, self.cur_loc()))
            else:
                self.note("store through unknown pointer")
            return
        o = p.obj
        off = p.off
        if o.size is not None and (off < 0 or off + size > o.size):
            self.oob(p, size, "store")
            return
        if self.active_loops:
            for rec in self.active_loops:
                rec.add((o, off, size))
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.erase(o, off, size)
        elif size > 1:
            pass
        o.cells[off] = (size, v)

    def memcpy(self, dst, src, n):
        if not isinstance(n, int):
            self.note("memcpy of unknown size")
            return
        if n == 0:
            return
        if not isinstance(dst, Ptr):
            self.note("memcpy to unknown")
            return
        if dst.obj.size is not None and (dst.off < 0 or dst.off + n > dst.obj.size):
            self.oob(dst, n, "store")
            return
        new = []
        if isinstance(src, Ptr):
            if src.obj.size is not None and (src.off < 0 or src.off + n > src.obj.size):
                self.oob(src, n, "load")
            so = src.obj
            if n < 4 * len(so.cells) + 64:
                offs = range(src.off - 15, src.off + n)
                items = [(a, so.cells[a]) for a in offs if a in so.cells]
            else:
                items = sorted(so.cells.items())
            pos = src.off
            for a, (sz, v) in items:
                if a + sz <= src.off or a >= src.off + n:
                    continue
                if a < src.off or a + sz > src.off + n:
                    vv = float2bits(v.args[0]) if isinstance(v, Node) and v.op == "c" else v
                    for b in range(sz):
                        if src.off <= a + b < src.off + n:
                            new.append((a + b - src.off, 1, (vv >> 8 * b) & 255 if isinstance(vv, int) else UNDEF))
                    continue
                if so.zero and a > pos:
                    for z in range(pos, a):
                        new.append((z - src.off, 1, 0))
                pos = a + sz
                new.append((a - src.off, sz, v))
            if so.zero:
                z = pos
                while z < src.off + n:
                    if (z - src.off) % 8 == 0 and z + 8 <= src.off + n:
                        new.append((z - src.off, 8, 0))
                        z += 8
                    else:
                        new.append((z - src.off, 1, 0))
                        z += 1
        else:
            self.note("memcpy from unknown")
        self.erase(dst.obj, dst.off, n)
        for a, sz, v in new:
            dst.obj.cells[dst.off + a] = (sz, v)
            if self.active_loops:
                for rec in self.active_loops:
                    rec.add((dst.obj, dst.off + a, sz))

    def memset(self, dst, b, n):
        if not isinstance(n, int) or not isinstance(dst, Ptr):
            self.note("memset unknown")
            return
        if n == 0:
            return
        if dst.obj.size is not None and (dst.off < 0 or dst.off + n > dst.obj.size):
            self.oob(dst, n, "store")
            return
        self.erase(dst.obj, dst.off, n)
        i = 0
        while i < n:
            s = 8 if i + 8 <= n else 1
            if isinstance(b, int):
                dst.obj.cells[dst.off + i] = (s, int.from_bytes(bytes([b & 255]) * s, "little"))
            else:
                dst.obj.cells[dst.off + i] = (s, UNDEF)
            if self.active_loops:
                for rec in self.active_loops:
                    rec.add((dst.obj, dst.off + i, s))
            i += s

    def note(self, what):
        l = self.cur_loc()
        self.res.unknown.append((what, l))

    # ------------------------------------------------------------------ conditions
    def decide_f(self, c):
        """Decide a float comparison -> bool, partitioning when unknown."""
        a, b, pred = c.a, c.b, c.pred
        if a.op == "nan" or b.op == "nan":
            return pred == "ne"
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[pred]
        if a is b:
            return pred in ("le", "ge", "eq")
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if y.op == "c" and math.isinf(y.args[0]):
                sg = -1 if y.args[0] > 0 else 1   # finite x versus inf
                sg *= s
                return {"lt": sg < 0, "le": sg < 0, "gt": sg > 0, "ge": sg > 0, "eq": False, "ne": True}[pred]
        if a.op == "fabs" and b.op == "c" and b.args[0] < 0 or (a.op == "fabs" and b.op == "c" and b.args[0] == 0
                                                               and pred in ("lt", "ge")):
            return pred in ("gt", "ge", "ne")
        if self.oracle is not None:
            r = self.oracle(a, b, pred)
            if r is not None:
                self.res.extra.setdefault("decided", []).append((a, b, pred if r else NEGP[pred], c.loc))
                return r
        # canonical key: the (unordered) pair
        if a.id > b.id:
            a, b = b, a
            pred = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(pred, pred)
        key = (a.id, b.id)
        if b.op == "c" and b.args[0] == 0 or a.op == "c" and a.args[0] == 0:
            pass
        poss = self.memo.get(key, frozenset((-1, 0, 1)))
        yes = {"lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}, "eq": {0}, "ne": {-1, 1}}[pred]
        py = poss & yes
        pn = poss - yes
        if not pn:
            return True
        if not py:
            return False
        fork_eq = self.fork_eq(c) if callable(self.fork_eq) else self.fork_eq
        if not fork_eq:
            # equality of two reals is a degenerate case: handled only when asked for
            if pred == "eq":
                self.res.eqs.append((a, b, c.loc))
                return False
            if pred == "ne":
                self.res.eqs.append((a, b, c.loc))
                return True
            py = py - {0} or py
            pn = pn - {0} or pn
        r = self.choose(("T", "F")) == "T"
        self.memo[key] = frozenset(py if r else pn)
        rel = pred if r else NEGP[pred]
        self.res.conds.append((a, b, rel, c.loc))
        self.fork_site(c.loc)
        return r

    def fork_site(self, loc):
        pass

    def ibounds(self, s):
        lo, hi = self.bnd.get(s.base, self.bounds0.get(s.base, (None, None)))
        return (None if lo is None else lo + s.off, None if hi is None else hi + s.off)

    def decide_i(self, c):
        a, b, pred = c.a, c.b, c.pred
        if a is UNDEF or b is UNDEF or isinstance(a, (Node, list)) or isinstance(b, (Node, list)):
            return self.choose(("T", "F")) == "T"
        if isinstance(a, SymI) and isinstance(b, SymI):
            if a.base == b.base:
                return self.cmp_i(pred, a.off, b.off, 64)
            r = self.choose(("T", "F")) == "T"
            self.res.iconds.append((pred, a, b, r))
            return r
        if isinstance(a, int) and isinstance(b, SymI):
            sw = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt",
                  "sge": "sle"}
            return self.decide_i(ICond(sw.get(pred, pred), b, a))
        if not isinstance(a, SymI) or not isinstance(b, int):
            return self.choose(("T", "F")) == "T"
        lo, hi = self.ibounds(a)
        p = pred[-2:] if pred not in ("eq", "ne") else pred
        if pred.startswith("s") and b >= 1 << 63:
            b -= 1 << 64
        elif pred.startswith("s") and b >= 1 << 31 and b < 1 << 32:
            b -= 1 << 32
        if p in ("eq", "ne"):
            if lo is not None and b < lo or hi is not None and b > hi:
                return p == "ne"
            if lo is not None and lo == hi:
                return (lo == b) == (p == "eq")
            r = self.choose(("T", "F")) == "T"
            eq = r == (p == "eq")
            if eq:
                self.setb(a, b, b)
            elif lo is not None and b == lo:
                self.setb(a, lo + 1, hi)
            elif hi is not None and b == hi:
                self.setb(a, lo, hi - 1)
            self.res.iconds.append((pred, a, b, r))
            return r
        # less-than style
        if pred[0] == "u" and b >= 0 and lo is not None and lo < 0 and (hi is None or hi >= 0):
            # negative values are huge ones
            if self.choose(("neg", "pos")) == "neg":
                self.setb(a, lo, -1)
                return p in ("gt", "ge")
            self.setb(a, 0, hi)
            return self.decide_i(c)
        if pred[0] == "u" and b >= 0 and lo is not None and hi is not None and hi < 0:
            return p in ("gt", "ge")
        if p == "lt":
            t, fl = (None, b - 1), (b, None)
        elif p == "le":
            t, fl = (None, b), (b + 1, None)
        elif p == "gt":
            t, fl = (b + 1, None), (None, b)
        else:
            t, fl = (b, None), (None, b - 1)

        def meet(iv):
            l = lo if iv[0] is None else (iv[0] if lo is None else max(lo, iv[0]))
            h = hi if iv[1] is None else (iv[1] if hi is None else min(hi, iv[1]))
            return None if l is not None and h is not None and l > h else (l, h)
        mt, mf = meet(t), meet(fl)
        if mf is None:
            return True
        if mt is None:
            return False
        r = self.choose(("T", "F")) == "T"
        self.setb(a, *(mt if r else mf))
        self.res.iconds.append((pred, a, b, r))
        return r

    def setb(self, s, lo, hi):
        self.bnd[s.base] = (None if lo is None else lo - s.off, None if hi is None else hi - s.off)

    def norm(self, v):
        if isinstance(v, SymI):
            lo, hi = self.ibounds(v)
            if lo is not None and lo == hi:
                return lo & M64
        return v

    @staticmethod
    def cmp_i(pred, a, b, bits):
        if pred == "eq":
            return a == b
        if pred == "ne":
            return a != b
        if pred[0] == "s":
            h = 1 << (bits - 1)
            a = a - (1 << bits) if a & h else a
            b = b - (1 << bits) if b & h else b
        p = pred[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

    def truth(self, v):
        if isinstance(v, int):
            return bool(v & 1)
        if v is UNDEF:
            self.note("branch on unknown value")
            return self.choose(("T", "F")) == "T"
        if isinstance(v, FCond):
            return self.decide_f(v)
        if isinstance(v, ICond):
            return self.decide_i(v)
        if isinstance(v, BExpr):
            if v.op == "not":
                return not self.truth(v.a)
            if v.op == "and":
                return self.truth(v.a) and self.truth(v.b)
            if v.op == "or":
                return self.truth(v.a) or self.truth(v.b)
            if v.op == "xor":
                return self.truth(v.a) != self.truth(v.b)
        if isinstance(v, SymI):
            return self.decide_i(ICond("ne", v, 0))
        self.note("branch on unsupported value")
        return self.choose(("T", "F")) == "T"

    # ------------------------------------------------------------------ calls
    def call(self, f, args):
        if f.decl or f.blocks is None:
            raise Unsupported("call of declaration " + f.dem)
        if len(self.stack) > 200:
            raise Unsupported("recursion too deep in " + f.dem)
        self.funcs_seen.add((f.mod.source, f.name))
        env = [None] * f.n
        for i, a in enumerate(args):
            if i in f.byval:
                o = self.new("byval", f.byval[i], "stack")
                self.memcpy(Ptr(o, 0), a, f.byval[i])
                a = Ptr(o, 0)
            env[i] = a
        n = len(self.stack)
        self.stack.append([f, 0, n if f.own else self.stack[-1][2] if n else 0])
        try:
            return self.run_blocks(f, env)
        finally:
            self.stack.pop()

    def run_blocks(self, f, env):
        mod = f.mod
        blocks = f.blocks
        top = self.stack[-1]
        prev = -1
        b = 0
        forks = {}
        widen_here = {}
        while True:
            wkey = (f.name, b)
            if f.hdr and b in f.hdr:
                if wkey in self.widened:
                    st = widen_here.get(b)
                    if st is not None and prev in f.hdr[b]:
                        self.back_edge(f, b, wkey, st, env, prev)
                        raise Killed("backedge")
                    if prev not in f.hdr[b]:
                        rec = set()
                        widen_here[b] = (rec, dict(env={}, serial=self.objn))
                        self.active_loops.append(rec)
                elif prev not in f.hdr[b]:
                    forks = {k: v for k, v in forks.items() if k[0] not in f.hdr[b]}
            # phis in parallel
            insts = blocks[b]
            i = 0
            if insts[0][0] == "phi":
                vals = []
                while insts[i][0] == "phi":
                    ins = insts[i]
                    for pb, pv in ins[4]:
                        if pb == prev:
                            vals.append((ins[1], self.val(mod, env, pv)))
                            break
                    i += 1
                if wkey in self.widened and prev not in f.hdr.get(b, ()):
                    vals = self.widen_phis(f, b, wkey, insts, vals, widen_here[b])
                for k, v in vals:
                    env[k] = v
            elif wkey in self.widened and f.hdr and b in f.hdr and prev not in f.hdr[b]:
                self.widen_phis(f, b, wkey, insts, [], widen_here[b])
            nxt = None
            n = len(insts)
            while i < n:
                ins = insts[i]
                i += 1
                op = ins[0]
                self.steps += 1
                if ins[2]:
                    top[1] = ins[2]
                if op == "br":
                    if ins[3] is None:
                        nxt = ins[4]
                    else:
                        c = self.val(mod, env, ins[3])
                        nt = len(self.trace)
                        t = self.truth(c)
                        if len(self.trace) > nt and f.hdr:
                            self.check_widen(f, b, forks, i)
                        nxt = ins[4] if t else ins[5]
                    break
                if op == "ret":
                    for h, (rec, _) in widen_here.items():
                        if rec in self.active_loops:
                            self.active_loops.remove(rec)
                    return self.val(mod, env, ins[5][0]) if ins[5] else None
                if op == "switch":
                    c = self.norm(self.val(mod, env, ins[3]))
                    if isinstance(c, int):
                        if LOG is not None:
                            for v, t in ins[5]:
                                note_pair(self, mod, ins, c, int(v), 3 + int(v))
                        nxt = ins[4]
                        for v, t in ins[5]:
                            if int(v) & M64 == c & M64 or (int(v) - c) % (1 << 32) == 0:
                                nxt = t
                                break
                    else:
                        k = self.choose(tuple(range(-1, len(ins[5]))))
                        nxt = ins[4] if k == -1 else ins[5][k][1]
                        if isinstance(c, SymI) and k >= 0:
                            self.setb(c, int(ins[5][k][0]), int(ins[5][k][0]))
                    break
                if op == "call" or op == "invoke":
                    try:
                        r = self.do_call(f, mod, env, ins)
                    except Thrown as t:
                        if op == "invoke":
                            lp = self.catches(f, ins[7])
                            sel = lp and self.clause_match(lp, t)
                            if sel or lp and self.run_cleanups:
                                if sel:
                                    self.res.extra.setdefault("caught", []).append(t.mod.locstr(t.locid))
                                self.inflight = (t, sel or 0)
                                nxt = ins[7]
                                break
                        raise
                    if ins[1] >= 0:
                        env[ins[1]] = r
                    if op == "invoke":
                        nxt = ins[6]
                        break
                    continue
                if op == "unreachable":
                    raise Killed("unreachable")
                if op == "resume":
                    v = self.val(mod, env, ins[3]) if len(ins) > 3 else None
                    t = self.excs.get(v[0].obj.name) if isinstance(v, (list, tuple)) and isinstance(v[0], Ptr) else None
                    if t is None:
                        raise Killed("resume")
                    raise t
                h = DISP.get(op)
                if h is None:
                    raise Unsupported(f"instruction {op} in {f.dem}")
                r = h(self, mod, env, ins)
                if ins[1] >= 0:
                    env[ins[1]] = r
            if self.steps > self.max_steps:
                raise Budget(f"step budget exceeded in {f.dem}")
            prev = b
            b = nxt

    def catches(self, f, blk):
        for ins in f.blocks[blk]:
            if ins[0] == "landingpad":
                return ins
        return None

    def clause_match(self, lp, t):
        """Selector of the first matching catch clause (0: none)."""
        for c in lp[4]:
            if c[0]:
                if c[1][0] != "g":      # catch (...)
                    return 1
                n = tiname(c[1])
                if n == t.typ or n in BASES.get(t.typ, ()) or n == "std::exception" and t.typ.startswith("std::"):
                    return typeid(n)
        return 0

    def check_widen(self, f, b, forks, i):
        # conditional exit of a loop depending on unknowns: count
        for h, blks in f.loops:
            if b in blks:
                k = (b, h, i)
                forks[k] = forks.get(k, 0) + 1
                if self.unroll:
                    if forks[k] > self.unroll:
                        raise Killed("unroll")
                    continue
                if forks[k] >= self.fork_limit and (f.name, h) not in self.widened:
                    # innermost loop containing the branch with an exit
                    inner = min((l for l in f.loops if b in l[1]), key=lambda l: len(l[1]))
                    raise Widen((f.name, inner[0]))

    def widen_phis(self, f, b, wkey, insts, vals, st):
        w = self.widened[wkey]
        out = []
        for (k, v), ins in zip(vals, insts):
            ph = w["phis"].get(k)
            if ph == "same":
                out.append((k, v))
                continue
            ty = ins[3]
            if ty == "double":
                nv = self.fresh("loop", f.dem, b, k)
                self.res.loopvars.append((nv, v, wkey, k))
            elif isinstance(v, (int, SymI)):
                self.itn += 1
                base = f"loop.{f.name[-20:]}.{b}.{k}"
                if v == 0 or isinstance(v, int) and v < (1 << 31):
                    self.bnd[base] = (v, None) if ph != "dec" else (None, v)
                nv = SymI(base)
            else:
                nv = UNDEF
            out.append((k, nv))
        st[1]["env"] = dict(out)
        # memory
        byname = None
        for (on, off, sz) in sorted(w["cells"]):
            if byname is None:
                byname = self.objreg
            o = byname.get(on)
            if o is None:
                continue
            c = o.cells.get(off)
            if c is not None and c[0] == sz and isinstance(c[1], Node):
                nv = self.fresh("loopmem", f.dem, b, on, off)
                self.res.loopvars.append((nv, c[1], wkey, (on, off)))
            elif c is None and sz == 8:
                nv = self.fresh("loopmem", f.dem, b, on, off)
            elif c is not None and isinstance(c[1], (int, SymI)):
                base = f"loopmem.{on}.{off}"
                nv = SymI(base)
            else:
                nv = UNDEF
            self.erase(o, off, sz)
            o.cells[off] = (sz, nv)
        st[1]["mem"] = True
        return out

    def back_edge(self, f, b, wkey, st, env, prev):
        """Loop iteration completed: everything it changed must be havocked."""
        w = self.widened[wkey]
        new = {(o.name, off, sz) for o, off, sz in st[0] if o.serial <= st[1]["serial"]} - w["cells"]
        if new:
            w["cells"] |= new
            raise Widen(wkey)
        # loop-carried values (for dimension agreement)
        for ins in f.blocks[b]:
            if ins[0] != "phi":
                break
            for pb, pv in ins[4]:
                if pb == prev:
                    self.res.extra.setdefault("carried", []).append(
                        (st[1]["env"].get(ins[1]), self.val(f.mod, env, pv)))

    # ------------------------------------------------------------------ values
    def val(self, mod, env, v):
        if isinstance(v, int):
            return env[v]
        return self.const(mod, v)

    def mkloc(self, mod, ins):
        return (mod, ins[2], frames(self.stack))

    def do_call(self, f, mod, env, ins):
        callee = ins[4]
        args = [None if (isinstance(a, list) and a[0] == "m") else self.val(mod, env, a) for a in ins[5]]
        if isinstance(callee, int):
            c = env[callee]
            if isinstance(c, FuncRef):
                tgt, name = c.fn, c.name
            else:
                self.note("indirect call")
                return self.default(ins[3], "indirect")
        else:
            if callee[0] != "g":
                return self.default(ins[3], "asm")
            name = callee[1]
            tgt = self.prog.find(mod, name)
        return self.call_named(mod, name, tgt, args, ins)

    def call_named(self, mod, name, tgt, args, ins):
        ic = self.intercepts.get(name)
        fr = mod.funcs.get(name)
        dem = tgt.dem if tgt else (fr.dem if fr else name)
        if ic is None:
            ic = self.intercepts.get(dem.split("(")[0])
        if ic is not None:
            r = ic(self, mod, dem, args, ins)
            if r is not NotImplemented:
                return r
        if name.startswith("llvm."):
            return self.intrinsic(mod, name, args, ins)
        h = EXT.get(name)
        if h is not None:
            return h(self, mod, args, ins)
        if dem.startswith("fmt::") or "fmt::v" in dem[:60] and not dem.startswith("kep3"):
            return self.opaque(dem, args, ins, tgt)
        if name in FMATH or name in ("atan2", "pow", "fmod", "fmax", "fmin", "hypot", "copysign", "remainder"):
            return self.math(mod, name, args, ins)
        if tgt is not None:
            return self.call(tgt, args)
        if name.startswith("_ZSt") and "__throw_" in name:
            ty = {"invalid_argument": "std::invalid_argument", "out_of_range": "std::out_of_range",
                  "length_error": "std::length_error", "logic_error": "std::logic_error",
                  "bad_alloc": "std::bad_alloc", "bad_optional": "std::bad_optional_access",
                  "bad_function": "std::bad_function_call"}
            t = next((v for k, v in ty.items() if k in name), name)
            raise Thrown(t, ins[2], mod, [x[:2] for x in self.stack])
        return self.opaque(dem, args, ins, None)

    def opaque(self, dem, args, ins, tgt):
        self.calls_seen[dem] = self.calls_seen.get(dem, 0) + 1
        self.res.unknown.append(("call " + dem.split("(")[0], self.cur_loc()))
        ty = ins[3]
        if dem.startswith(("std::__cxx11::basic_string", "fmt::")) or "basic_string" in dem[:80]:
            # string plumbing: leaves numeric state alone
            if dem.startswith("fmt::") and args and isinstance(args[0], Ptr) and ty == "void":
                self.empty_string(args[0])
            return self.default(ty, dem.split("(")[0])
        for a in args:
            if isinstance(a, Ptr) and not a.obj.const:
                for off, (sz, v) in list(a.obj.cells.items()):
                    if isinstance(v, Node):
                        a.obj.cells[off] = (sz, self.fresh("havoc", dem.split("(")[0]))
                    elif isinstance(v, int):
                        a.obj.cells[off] = (sz, UNDEF)
        return self.default(ty, dem.split("(")[0])

    def empty_string(self, p):
        if p.obj.size is not None and p.off + 32 > p.obj.size:
            return
        self.erase(p.obj, p.off, 32)
        p.obj.cells[p.off] = (8, Ptr(p.obj, p.off + 16))
        p.obj.cells[p.off + 8] = (8, 0)
        p.obj.cells[p.off + 16] = (8, 0)

    def math(self, mod, name, args, ins):
        loc = (mod, ins[2], frames(self.stack))
        d = self.dag
        a = [self.fl(x) for x in args]
        if name == "pow":
            return d.pow(a[0], a[1], loc)
        if name in ("fmax", "fmin"):
            c = FCond("lt", a[0], a[1], loc)
            t = self.truth(c)
            return (a[1] if t else a[0]) if name == "fmax" else (a[0] if t else a[1])
        if name == "hypot":
            s = d.bin("add", d.bin("mul", a[0], a[0], loc), d.bin("mul", a[1], a[1], loc), loc)
            return d.un("sqrt", s, loc)
        if name in ("atan2", "fmod", "copysign", "remainder"):
            return d.mk(name, (a[0], a[1]), loc)
        return d.un(name, a[0], loc)

    def fl(self, v):
        if isinstance(v, Node):
            return v
        if isinstance(v, int):
            return self.dag.const(bits2float(v))
        return self.fresh("unk", "undef")

    def fpclass(self, x, mask, loc):
        """is.fpclass; a value that is not known is finite, and zero is no class of its own."""
        if not isinstance(mask, int):
            return UNDEF
        if x.op == "nan":
            return int(mask & 3 != 0)
        if x.op == "c":
            v = x.args[0]
            neg = math.copysign(1., v) < 0
            n = 2 if math.isinf(v) else 5 if v == 0 else 4 if abs(v) < 2 ** -1022 else 3
            return mask >> (n if neg else 11 - n) & 1
        neg, pos = mask >> 3 & 1, mask >> 8 & 1
        if neg == pos:
            return neg
        return FCond("lt" if neg else "ge", x, self.dag.const(0.), loc)

    def intrinsic(self, mod, name, args, ins):
        b = name.split(".")[1]
        if b in ("dbg", "lifetime", "assume", "experimental", "invariant", "donothing", "var", "trap"):
            return None
        if b == "eh":
            return typeid(tiname(ins[5][0])) if "typeid" in name else UNDEF
        if b in ("memcpy", "memmove"):
            self.memcpy(args[0], args[1], self.norm(args[2]))
            return None
        if b == "memset":
            self.memset(args[0], args[1], self.norm(args[2]))
            return None
        if b in ("sqrt", "fabs", "sin", "cos", "exp", "log", "floor", "ceil", "trunc", "round", "rint", "nearbyint",
                 "tan", "exp2", "log2", "log10"):
            if ins[3] != "double":
                return UNDEF
            return self.math(mod, b, args, ins)
        if b in ("pow", "copysign"):
            return self.math(mod, b, args, ins)
        if b == "powi":
            loc = (mod, ins[2], ())
            e = args[1]
            if isinstance(e, int):
                if e >= 1 << 31:
                    e -= 1 << 32
                return self.dag.pow(self.fl(args[0]), self.dag.const(float(e)), loc)
            return self.fresh("powi")
        if b in ("fmuladd", "fma"):
            loc = (mod, ins[2], frames(self.stack))
            d = self.dag
            return d.bin("add", d.bin("mul", self.fl(args[0]), self.fl(args[1]), loc), self.fl(args[2]), loc)
        if b in ("maxnum", "minnum", "maximum", "minimum"):
            if LOG is not None and all(isinstance(x, Node) and x.op == "c" for x in args[:2]):
                note_pair(self, mod, ins, args[0].args[0], args[1].args[0])
            return self.math(mod, "fmax" if b.startswith("max") else "fmin", args, ins)
        if b in ("umax", "umin", "smax", "smin"):
            bits = int(ins[3][1:])
            x, y = self.norm(args[0]), self.norm(args[1])
            if b == "umin" and (x == 0 and isinstance(x, int) or y == 0 and isinstance(y, int)):
                return 0
            if isinstance(x, int) and isinstance(y, int):
                if LOG is not None:
                    note_pair(self, mod, ins, sgn(x, bits), sgn(y, bits))
                lt = self.cmp_i(b[0] + "lt", x, y, bits)
                return (x if lt else y) if b.endswith("min") else (y if lt else x)
            lt = self.truth(ICond(b[0] + "lt", x, y))
            x, y = self.norm(x), self.norm(y)
            return (x if lt else y) if b.endswith("min") else (y if lt else x)
        if b == "abs":
            bits = int(ins[3][1:])
            x = args[0]
            if isinstance(x, int):
                return (-x) & ((1 << bits) - 1) if x >> (bits - 1) else x
            return UNDEF
        if b in ("usub", "uadd", "umul", "ssub", "sadd", "smul"):
            x, y = args
            if isinstance(x, int) and isinstance(y, int):
                bits = int(name.rsplit(".i", 1)[1])
                m = (1 << bits) - 1
                if b[0] == "s":
                    sx = x - (1 << bits) if x >> (bits - 1) else x
                    sy = y - (1 << bits) if y >> (bits - 1) else y
                else:
                    sx, sy = x, y
                v = sx - sy if b.endswith("sub") else sx + sy if b.endswith("add") else sx * sy
                if "sat" in name:
                    return max(0, min(v, m)) if b[0] == "u" else v & m
                lo, hi = (0, m) if b[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                return [v & m, int(not lo <= v <= hi)]
            return UNDEF if "sat" in name else [UNDEF, 0]
        if b in ("expect", "launder", "strip"):
            return args[0]
        if b == "is":
            return self.fpclass(self.fl(args[0]), args[1], _loc(self, mod, ins))
        if b in ("ctlz", "cttz", "ctpop", "bswap") and isinstance(args[0], int):
            bits = int(ins[3][1:])
            x = args[0]
            if b == "ctpop":
                return bin(x).count("1")
            if b == "ctlz":
                return bits - x.bit_length()
            if b == "cttz":
                return bits if x == 0 else (x & -x).bit_length() - 1
            return int.from_bytes(x.to_bytes(bits // 8, "little"), "big")
        if b in ("fshl", "fshr") and all(isinstance(a, int) for a in args):
            bits = int(ins[3][1:])
            s = args[2] % bits
            v = (args[0] << bits) | args[1]
            return ((v << s) >> bits if b == "fshl" else v >> s) & ((1 << bits) - 1)
        if b == "eh":
            return 1
        if b == "objectsize":
            return M64
        if b == "stacksave" or b == "stackrestore" or b == "frameaddress" or b == "returnaddress":
            return UNDEF
        if b == "threadlocal":
            if isinstance(args[0], Ptr):
                self.tls.add(id(args[0].obj))
            return args[0]
        self.note("intrinsic " + name)
        return self.default(ins[3], name)


# ---------------------------------------------------------------------- instructions
def _loc(I, mod, ins):
    return (mod, ins[2], frames(I.stack))


def i_fbin(op):
    def h(I, mod, env, ins):
        a = I.fl(I.val(mod, env, ins[5][0]))
        b = I.fl(I.val(mod, env, ins[5][1]))
        return I.dag.bin(op, a, b, (mod, ins[2], frames(I.stack)))
    return h


def i_frem(I, mod, env, ins):
    a = I.fl(I.val(mod, env, ins[5][0]))
    b = I.fl(I.val(mod, env, ins[5][1]))
    return I.dag.mk("fmod", (a, b), _loc(I, mod, ins))


def i_fneg(I, mod, env, ins):
    return I.dag.neg(I.fl(I.val(mod, env, ins[5][0])), _loc(I, mod, ins))


def tbits(t):
    if t == "ptr":
        return 64
    if t.startswith("i"):
        return int(t[1:])
    return 64


MODS = ("udiv", "urem", "sdiv", "srem", "and", "or", "xor", "lshr", "ashr")


def i_ibin(op):
    def h(I, mod, env, ins):
        bits = tbits(ins[3])
        a = I.norm(I.val(mod, env, ins[5][0]))
        b = I.norm(I.val(mod, env, ins[5][1]))
        m = (1 << bits) - 1
        if isinstance(a, int) and isinstance(b, int):
            if LOG is not None and op in MODS and bits > 1:
                note_pair(I, mod, ins, sgn(a, bits), sgn(b, bits), 1)
            return ibin(I, op, a, b, bits, m)
        if bits == 1 and op in ("and", "or", "xor"):
            if isinstance(a, int) or isinstance(b, int):
                k, o = (a, b) if isinstance(a, int) else (b, a)
                if op == "and":
                    return o if k & 1 else 0
                if op == "or":
                    return 1 if k & 1 else o
                return BExpr("not", o) if k & 1 else o
            return BExpr(op, a, b)
        if isinstance(a, SymI) and isinstance(b, int):
            s = b - (1 << bits) if b >> (bits - 1) else b
            if op == "add":
                return SymI(a.base, a.off + s)
            if op == "sub":
                return SymI(a.base, a.off - s)
            if op == "and" and b == m:
                return a
            if op == "mul" and b == 1:
                return a
            if op == "mul" and b == 0:
                return 0
            if op == "shl" and b == 0:
                return a
            lo, hi = I.ibounds(a)
            if lo is not None and hi is not None and s > 0:
                r = i_narrow(I, op, a, s, lo, hi, bits)
                if r is not None:
                    return r
            if op in ("mul", "sdiv", "srem"):
                return I.derived((op, a, s), lo, hi, op, s)
            return I.derived((op, a, b), lo, hi, op, b)
        if isinstance(b, SymI) and isinstance(a, int):
            s = a - (1 << bits) if a >> (bits - 1) else a
            if op == "add":
                return SymI(b.base, b.off + s)
            if op == "mul":
                return i_mulsym(I, b, s)
            return I.derived((op, s if op == "sub" else a, b), None, None, op, None)
        if isinstance(a, SymI) and isinstance(b, SymI):
            if op == "sub" and a.base == b.base:
                return (a.off - b.off) & m
            return I.derived((op, a, b), None, None, op, None)
        if isinstance(a, Ptr) and isinstance(b, int):
            s = b - (1 << bits) if b >> (bits - 1) else b
            if op == "add":
                return Ptr(a.obj, a.off + s)
            if op == "sub":
                return Ptr(a.obj, a.off - s)
            if op == "and":
                return (a.off & b) if b < 4096 else Ptr(a.obj, a.off & (b - (1 << 64) if b >> 63 else b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub":
            if a.obj is b.obj:
                return (a.off - b.off) & m
            return UNDEF
        if isinstance(b, Ptr) and isinstance(a, int) and op == "add":
            return Ptr(b.obj, b.off + a)
        if isinstance(a, Node) or isinstance(b, Node):
            # sign-bit tricks on double bit patterns
            n, k = (a, b) if isinstance(a, Node) else (b, a)
            if isinstance(k, int):
                if op == "and" and k == (1 << 63) - 1:
                    return I.dag.un("fabs", n)
                if op == "xor" and k == 1 << 63:
                    return I.dag.neg(n)
            return UNDEF
        return UNDEF
    return h


def i_narrow(I, op, a, k, lo, hi, bits):
    """Division, remainder, masks and sign extensions of an integer whose range makes them affine."""
    if op in ("udiv", "urem", "sdiv", "srem") and lo >= 0:
        if lo // k == hi // k:
            q = lo // k
            return q if op in ("udiv", "sdiv") else SymI(a.base, a.off - k * q)
    elif op == "and" and k & (k + 1) == 0:
        n = k + 1
        if lo // n != hi // n and hi // n - lo // n == 1:
            m = hi // n * n
            if I.choose(("low", "high")) == "low":
                hi = m - 1
            else:
                lo = m
            I.setb(a, lo, hi)
        if lo // n == hi // n:
            return SymI(a.base, a.off - n * (lo // n))
    elif op == "ashr" and a.off == 0:
        d = INTS.get(a.base)
        if d and d[0] == "shl" and d[2] == k and isinstance(d[1], SymI):
            v = d[1]
            lo, hi = I.ibounds(v)
            n = 1 << (bits - k)
            if lo is not None and hi is not None and (lo + n // 2) // n == (hi + n // 2) // n:
                return SymI(v.base, v.off - n * ((lo + n // 2) // n))
    return None


def i_mulsym(I, s, k):
    if k == 1:
        return s
    return I.derived(("mul", s, k), *I.ibounds(s), "mul", k)


def _derived(self, key, lo, hi, op, k):
    base = "(" + ",".join(map(str, key)) + ")"
    INTS[base] = key
    if isinstance(k, int) and lo is not None:
        if op == "mul" and k >= 0:
            self.bnd.setdefault(base, (lo * k, None if hi is None else hi * k))
        elif op == "shl":
            self.bnd.setdefault(base, (lo << k, None if hi is None else hi << k))
        elif op in ("udiv", "sdiv") and k > 0:
            self.bnd.setdefault(base, (lo // k, None if hi is None else hi // k))
        elif op == "lshr":
            self.bnd.setdefault(base, (lo >> k, None if hi is None else hi >> k))
    return SymI(base)


Interp.derived = _derived


def ibin(I, op, a, b, bits, m):
    if op == "add":
        return (a + b) & m
    if op == "sub":
        return (a - b) & m
    if op == "mul":
        return (a * b) & m
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < bits else UNDEF
    if op == "lshr":
        return a >> b if b < bits else UNDEF
    sa = a - (1 << bits) if a >> (bits - 1) else a
    sb = b - (1 << bits) if b >> (bits - 1) else b
    if op == "ashr":
        return (sa >> b) & m
    if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        I.res.divs.append(("integer division by zero", I.cur_loc()))
        raise Killed("div0")
    if op == "udiv":
        return a // b
    if op == "urem":
        return a % b
    if op == "sdiv":
        return int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1) & m
    if op == "srem":
        return (abs(sa) % abs(sb)) * (1 if sa >= 0 else -1) & m
    raise Unsupported(op)


def i_alloca(I, mod, env, ins):
    n = I.val(mod, env, ins[4])
    o = I.new("stk", ins[3] * (n if isinstance(n, int) else 1), "stack")
    return Ptr(o, 0)


def i_load(I, mod, env, ins):
    return I.load(ins[3], I.val(mod, env, ins[4]))


def i_store(I, mod, env, ins):
    I.store(ins[3], I.val(mod, env, ins[4]), I.val(mod, env, ins[5]))


def i_gep(I, mod, env, ins):
    p = I.val(mod, env, ins[3])
    off = ins[4]
    for sc, ix, w in ins[5]:
        v = I.norm(I.val(mod, env, ix))
        if isinstance(v, SymI):
            lo, hi = I.ibounds(v)
            if lo is not None and hi is not None and hi - lo <= 64:
                v = I.choose(tuple(range(lo, hi + 1)))
                ix_v = I.val(mod, env, ix)
                I.setb(ix_v, v, v)
            else:
                I.note("symbolic index")
                return UNDEF
        if not isinstance(v, int):
            return UNDEF
        if v >> (w - 1):
            v -= 1 << w
        off += sc * v
    if isinstance(p, Ptr):
        return Ptr(p.obj, p.off + off) if isinstance(p.off, int) else UNDEF
    if isinstance(p, int):
        return (p + off) & M64
    if isinstance(p, FuncRef):
        return p
    return UNDEF


def i_icmp(I, mod, env, ins):
    a, b = I.norm(I.val(mod, env, ins[4])), I.norm(I.val(mod, env, ins[5]))
    p = ins[3]
    ty = ins[6]
    bits = tbits(ty) if not ty.startswith("<") else 64
    if isinstance(a, int) and isinstance(b, int):
        if LOG is not None:
            note_pair(I, mod, ins, sgn(a, bits), sgn(b, bits))
        return int(I.cmp_i(p, a, b, bits))
    ap, bp = isinstance(a, (Ptr, FuncRef)), isinstance(b, (Ptr, FuncRef))
    if ap or bp:
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return int(I.cmp_i(p if p in ("eq", "ne") else "s" + p[1:], a.off & M64, b.off & M64, 64))
            if p == "eq":
                return 0
            if p == "ne":
                return 1
            return int(I.cmp_i(p, id(a.obj), id(b.obj), 64)) if False else UNDEF
        if isinstance(a, FuncRef) and isinstance(b, FuncRef):
            e = a.name == b.name
            return int(e) if p == "eq" else int(not e)
        if (isinstance(a, int) and a < 4096) or (isinstance(b, int) and b < 4096):
            if p == "eq":
                return 0
            if p == "ne":
                return 1
            small_a = isinstance(a, int)
            return int(small_a == (p[1:] in ("lt", "le")))
        return UNDEF
    if isinstance(a, SymI) or isinstance(b, SymI):
        if isinstance(a, SymI) and isinstance(b, SymI) and a.base == b.base:
            return int(I.cmp_i(p, a.off & M64, b.off & M64, 64))
        return ICond(p, a, b)
    if bits == 1 and p in ("eq", "ne"):
        x = BExpr("xor", a, b)
        return x if p == "ne" else BExpr("not", x)
    if isinstance(a, Node) and b == 0 and isinstance(b, int):
        # bit pattern of a double against zero: sign test
        if p in ("slt", "sgt", "sge", "sle"):
            return FCond({"slt": "lt", "sgt": "gt", "sge": "ge", "sle": "le"}[p], a, I.dag.const(0.0), _loc(I, mod, ins))
    return UNDEF


FP = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le",
      "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}


def i_fcmp(I, mod, env, ins):
    a, b = I.val(mod, env, ins[4]), I.val(mod, env, ins[5])
    if ins[6] != "double":
        return UNDEF
    a, b = I.fl(a), I.fl(b)
    p = ins[3]
    if p == "true":
        return 1
    if p == "false":
        return 0
    if a.op == "nan" or b.op == "nan":
        return int(p[0] == "u")
    if p == "ord":
        return 1
    if p == "uno":
        return 0
    c = FCond(FP[p], a, b, _loc(I, mod, ins))
    if a.op == "c" and b.op == "c" or a is b:
        if LOG is not None and a.op == "c" and b.op == "c":
            note_pair(I, mod, ins, a.args[0], b.args[0])
        return int(I.decide_f(c))
    return c


def i_select(I, mod, env, ins):
    ops = ins[5]
    c = I.val(mod, env, ops[0])
    if isinstance(c, int):
        return I.val(mod, env, ops[1] if c & 1 else ops[2])
    a, b = I.val(mod, env, ops[1]), I.val(mod, env, ops[2])
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    ty = ins[3]
    if ty == "i1":
        # keep as logic: c ? a : b
        if isinstance(b, int) and b == 0:
            return BExpr("and", c, a)
        if isinstance(a, int) and a == 1:
            return BExpr("or", c, b)
    return a if I.truth(c) else b


def i_cast(I, mod, env, ins):
    op, ty, sty = ins[0], ins[3], ins[4]
    v = I.norm(I.val(mod, env, ins[5][0]))
    if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
        if op == "bitcast":
            if ty == "double" and isinstance(v, int):
                return I.dag.const(bits2float(v))
            if sty == "double" and isinstance(v, Node) and v.op == "c":
                return float2bits(v.args[0])
        return v
    if op in ("zext", "sext"):
        if isinstance(v, int):
            b0, b1 = tbits(sty), tbits(ty)
            if op == "sext" and v >> (b0 - 1):
                return v | (((1 << b1) - 1) ^ ((1 << b0) - 1))
            return v
        if isinstance(v, (FCond, ICond, BExpr)):
            t = int(I.truth(v))
            return t if op == "zext" or not t else (1 << tbits(ty)) - 1
        return v
    if op == "trunc":
        if isinstance(v, int):
            if LOG is not None and tbits(ty) in (8, 16):
                note_pair(I, mod, ins, v, 1 << tbits(ty) - 1, 2)
            return v & ((1 << tbits(ty)) - 1)
        if isinstance(v, SymI) and tbits(ty) >= 32:
            return v
        if isinstance(v, SymI) and tbits(ty) in (8, 16):
            b = tbits(ty)
            n = 1 << b
            lo, hi = I.ibounds(v)
            if lo is None or hi is None or lo < 0 and (lo < -n // 2 or hi >= n // 2) or hi >= n:
                if lo is not None and hi is not None and lo // n == hi // n:
                    return SymI(v.base, v.off - n * (lo // n))
                a, c = (-n // 2, n // 2 - 1) if b == 16 or lo is not None and lo < 0 else (0, n - 1)
                l, h = a if lo is None else max(lo, a), c if hi is None else min(hi, c)
                if l <= h and I.choose(("fits", "wraps")) == "fits":
                    I.setb(v, l, h)
                    return v
                return I.derived(("trunc%d" % b, v, 0), None, None, "trunc", None)
            return v
        return UNDEF
    if op in ("uitofp", "sitofp"):
        if isinstance(v, (FCond, ICond, BExpr)):
            v = int(I.truth(v))
            sty = "i8"
        if isinstance(v, int):
            b0 = tbits(sty)
            if op == "sitofp" and v >> (b0 - 1) and sty != "i1":
                v -= 1 << b0
            return I.dag.const(float(v))
        if isinstance(v, SymI):
            n = I.dag.mk("int", (v.base,), _loc(I, mod, ins))
            return I.dag.bin("add", n, I.dag.const(float(v.off)))
        return I.fresh("itofp")
    if op in ("fptoui", "fptosi"):
        v = I.fl(v)
        if v.op == "c":
            x = int(v.args[0])
            return x & ((1 << tbits(ty)) - 1)
        if I.f2i_range is not None:
            # partition on the truncated value
            k = I.memo.get(("f2i", v.id))
            if k is None:
                k = I.choose(tuple(I.f2i_range(v) if callable(I.f2i_range) else I.f2i_range))
                I.memo[("f2i", v.id)] = k
                I.res.extra.setdefault("f2i", []).append((v, k))
            return k
        base = "f2i%d.%d" % (I.dag.serial, v.id)
        I.f2i[base] = v
        INTS[base] = ("f2i", v)
        if op == "fptoui":
            I.bnd.setdefault(base, (0, None))
        return SymI(base)
    if op in ("fpext", "fptrunc"):
        return v if isinstance(v, Node) else I.fresh("fpcast")
    raise Unsupported(op)


def i_extractvalue(I, mod, env, ins):
    v = I.val(mod, env, ins[3])
    for k in ins[4]:
        if not isinstance(v, (list, tuple)):
            return UNDEF
        v = v[k]
    return v


def undef_of(lay):
    if lay[0] == "l":
        return UNDEF
    return [undef_of(x[1]) for x in lay[1]]


def i_insertvalue(I, mod, env, ins):
    v = I.val(mod, env, ins[3])
    x = I.val(mod, env, ins[4])
    if not isinstance(v, (list, tuple)):
        v = undef_of(ins[6])

    def ins_(v, path):
        v = list(v) if isinstance(v, (list, tuple)) else [UNDEF]
        if len(path) == 1:
            v[path[0]] = x
        else:
            v[path[0]] = ins_(v[path[0]], path[1:])
        return v
    return ins_(v, ins[5])


def i_extractelement(I, mod, env, ins):
    v = I.val(mod, env, ins[5][0])
    k = I.val(mod, env, ins[5][1])
    return v[k] if isinstance(v, (list, tuple)) and isinstance(k, int) else UNDEF


def i_insertelement(I, mod, env, ins):
    v = I.val(mod, env, ins[5][0])
    x = I.val(mod, env, ins[5][1])
    k = I.val(mod, env, ins[5][2])
    n = int(ins[3].split()[0].strip("<"))
    v = list(v) if isinstance(v, (list, tuple)) else [UNDEF] * n
    if isinstance(k, int):
        v[k] = x
    return v


def i_shuffle(I, mod, env, ins):
    a, b = I.val(mod, env, ins[3]), I.val(mod, env, ins[4])
    n = ins[6]
    a = list(a) if isinstance(a, (list, tuple)) else [UNDEF] * n
    b = list(b) if isinstance(b, (list, tuple)) else [UNDEF] * n
    ab = a + b
    return [UNDEF if m < 0 else ab[m] for m in ins[5]]


def i_landingpad(I, mod, env, ins):
    if I.inflight is None:
        raise Killed("landingpad")
    t, sel = I.inflight
    I.inflight = None
    p = Ptr(I.new("exc", 64), 0)
    I.excs[p.obj.name] = t
    return [p, sel]


def typeid(n):
    return zlib.crc32(n.encode()) & 0x7FFFFFFF


def x_begincatch(I, mod, args, ins):
    I.handling.append(args[0])
    return args[0]


def x_endcatch(I, mod, args, ins):
    if I.handling:
        I.handling.pop()


def x_rethrow(I, mod, args, ins):
    p = I.handling[-1] if I.handling else None
    t = I.excs.get(p.obj.name) if isinstance(p, Ptr) else None
    if t is None:
        raise Killed("rethrow")
    raise t


def i_fence(I, mod, env, ins):
    return None


def i_rmw(I, mod, env, ins):
    p = I.val(mod, env, ins[5])
    old = I.load(ins[4], p)
    v = I.val(mod, env, ins[6])
    bits = 8 * ins[4][2]
    if isinstance(old, int) and isinstance(v, int):
        m = (1 << bits) - 1
        nv = {"add": (old + v) & m, "sub": (old - v) & m, "xchg": v, "and": old & v, "or": old | v}.get(ins[3], UNDEF)
    else:
        nv = UNDEF
    I.store(ins[4], nv, p)
    return old


DISP = {"alloca": i_alloca, "load": i_load, "store": i_store, "getelementptr": i_gep, "icmp": i_icmp, "fcmp": i_fcmp,
        "select": i_select, "extractvalue": i_extractvalue, "insertvalue": i_insertvalue,
        "extractelement": i_extractelement, "insertelement": i_insertelement, "shufflevector": i_shuffle,
        "landingpad": i_landingpad, "fneg": i_fneg, "frem": i_frem, "fence": i_fence, "atomicrmw": i_rmw}
for _o, _n in (("fadd", "add"), ("fsub", "sub"), ("fmul", "mul"), ("fdiv", "div")):
    DISP[_o] = i_fbin(_n)
for _o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
    DISP[_o] = i_ibin(_o)
for _o in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze", "zext", "sext", "trunc", "uitofp", "sitofp",
           "fptoui", "fptosi", "fpext", "fptrunc"):
    DISP[_o] = i_cast


def vector_lift(h, op):
    def g(I, mod, env, ins):
        ty = ins[3]
        if isinstance(ty, str) and ty.startswith("<"):
            n = int(ty.split()[0].strip("<"))
            el = ty.split("x")[1].strip(" >")
            ops = [I.val(mod, env, o) for o in ins[5]]
            out = []
            sty = ins[4]
            sel = sty.split("x")[1].strip(" >") if isinstance(sty, str) and sty.startswith("<") else sty
            for k in range(n):
                e2 = {}
                fake = []
                tmp = []
                for j, o in enumerate(ops):
                    tmp.append(o[k] if isinstance(o, (list, tuple)) else (o if o is not UNDEF else UNDEF))
                    fake.append(j)
                out.append(h(I, mod, tmp, [op, 0, ins[2], el, sel, fake]))
            return out
        return h(I, mod, env, ins)
    return g


for _o in ("fadd", "fsub", "fmul", "fdiv", "fneg", "select"):
    DISP[_o] = vector_lift(DISP[_o], _o)


# ---------------------------------------------------------------------- externals
def x_new(I, mod, args, ins):
    n = I.norm(args[0])
    if isinstance(n, SymI):
        o = I.new("heap", None, "heap")
        o.symsize = n
        return Ptr(o, 0)
    if not isinstance(n, int):
        return Ptr(I.new("heap", None, "heap"), 0)
    if n >= 1 << 62:
        raise Thrown("std::bad_alloc", ins[2], mod, list(I.stack))
    return Ptr(I.new("heap", n, "heap"), 0)


def x_delete(I, mod, args, ins):
    I.release(args[0], "release of")


def x_none(I, mod, args, ins):
    return None


def x_zero(I, mod, args, ins):
    return 0


def x_one(I, mod, args, ins):
    return 1


def x_exc(I, mod, args, ins):
    """Allocation of an exception object: find what is thrown with it."""
    f, lid, _ = I.stack[-1]
    typ = find_throw(f, ins)
    raise Thrown(typ, ins[2], mod, list(I.stack))


def find_throw(f, ins):
    """The typeinfo thrown with the exception object allocated by ins."""
    vid = ins[1]
    names = {vid}
    for blk in f.blocks:
        for x in blk:
            if x[0] in ("call", "invoke") and isinstance(x[4], list) and x[4][0] == "g" and x[4][1] == "__cxa_throw":
                if x[5][0] == vid:
                    ti = x[5][1]
                    return tiname(ti)
    # thrown through a helper (phi): nearest reachable throw
    bi = next(i for i, blk in enumerate(f.blocks) if ins in blk)
    seen, st = set(), [bi]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for x in f.blocks[b]:
            if x[0] in ("call", "invoke") and isinstance(x[4], list) and x[4][0] == "g" and x[4][1] == "__cxa_throw":
                return tiname(x[5][1])
            if x[0] == "br":
                st.extend(x[4:])
            elif x[0] == "invoke":
                st.append(x[6])
    return "exception"


def tiname(c):
    if isinstance(c, list) and c[0] == "g":
        n = c[1]
        if n.startswith("_ZTI"):
            return CXA.get(n[4:], n[4:])
        return n
    return "exception"


def x_strlen(I, mod, args, ins):
    p = args[0]
    if isinstance(p, Ptr):
        n = 0
        while n < 100000:
            v = I.load_leaf(Ptr(p.obj, p.off + n), "i8", 1)
            if not isinstance(v, int):
                return UNDEF
            if v == 0:
                return n
            n += 1
    return UNDEF


def x_memcmp(I, mod, args, ins):
    a, b, n = args[0], args[1], I.norm(args[2])
    if isinstance(n, int) and isinstance(a, Ptr) and isinstance(b, Ptr):
        for i in range(n):
            x = I.load_leaf(Ptr(a.obj, a.off + i), "i8", 1)
            y = I.load_leaf(Ptr(b.obj, b.off + i), "i8", 1)
            if not isinstance(x, int) or not isinstance(y, int):
                return UNDEF
            if x != y:
                return (x - y) & 0xFFFFFFFF
        return 0
    return UNDEF


def x_memcpy(I, mod, args, ins):
    I.memcpy(args[0], args[1], I.norm(args[2]))
    return args[0]


def x_memset(I, mod, args, ins):
    I.memset(args[0], args[1], I.norm(args[2]))
    return args[0]


def x_rootvar(I, mod, args, ins):
    n = I.fresh("root", len(I.res.roots))
    I.res.roots.append({"var": n, "guess": args[0], "kind": args[1], "loc": I.cur_loc(), "done": False})
    return n


def x_root(I, mod, args, ins):
    for r in I.res.roots:
        if r["var"] is args[0]:
            r.update(f0=I.fl(args[1]), f1=I.fl(args[2]), f2=I.fl(args[3]), guess=I.fl(args[4]), lo=I.fl(args[5]),
                     hi=I.fl(args[6]), code=args[7], done=True, loc=I.cur_loc())
            r["budget"] = None
    return args[0]


def x_iters(I, mod, args, ins):
    budget = args[0]
    r = I.res.roots[-1] if I.res.roots else None
    if r is not None:
        r["budget"] = budget if args[1] else None
    if not args[1]:
        I.res.exhausted.append(("no iteration budget is observable", I.cur_loc()))
        return 0
    c = I.choose(("conv", "exh"))
    if c == "exh":
        I.res.exhausted.append(("exhausted", I.cur_loc(), r["var"].id if r else None))
        return budget
    return 1


def cbytes(I, p, n=None):
    """Concrete bytes at p (n of them, or up to the terminating zero); None when unknown."""
    out = []
    while n is None or len(out) < n:
        v = I.norm(I.load_leaf(Ptr(p.obj, p.off + len(out)), "i8", 1))
        if not isinstance(v, int) or len(out) > 4096:
            return None
        if n is None and v == 0:
            break
        out.append(v & 255)
    return bytes(out)


def x_hashbytes(I, mod, args, ins):
    n = I.norm(args[1])
    b = cbytes(I, args[0], n) if isinstance(n, int) and isinstance(args[0], Ptr) else None
    if b is None and n == 8 and isinstance(args[0], Ptr):
        v = I.load_leaf(args[0], "double", 8)
        if isinstance(v, Node) and v.op not in ("c", "unk", "nan"):
            b = b"node %d" % v.id
    if b is None:
        return UNDEF
    import hashlib
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), "little")


def x_strtol(I, mod, args, ins):
    """The number written by the characters up to the first that is not a digit."""
    p, end = args[0], args[1]
    if not isinstance(p, Ptr) or not isinstance(p.off, int):
        return UNDEF
    cs = []
    while len(cs) < 40:
        c = I.norm(I.load_leaf(Ptr(p.obj, p.off + len(cs)), "i8", 1))
        if c == 0:
            break
        if not isinstance(c, (int, SymI)):
            return UNDEF
        cs.append(c)
    n = len(cs)
    if all(isinstance(c, int) for c in cs):
        import re
        m = re.match(rb"\s*[-+]?\d+", bytes(c & 255 for c in cs))
        r, n = (int(m.group()) & M64, m.end()) if m else (0, 0)
    else:
        # digits, unless one of the characters is none
        if I.choose(("digits", "other")) == "digits":
            r = SymI("digits(" + ",".join(str(c) for c in cs) + ")")
            I.bnd.setdefault(r.base, (0, 10 ** n - 1))
        else:
            r, n = 0, 0
            I.res.extra["nondigits"] = True
    if isinstance(end, Ptr):
        I.store(("l", "ptr", 8), Ptr(p.obj, p.off + n), end)
    return r


def x_errno(I, mod, args, ins):
    o = I.memo.get("errno")
    if o is None:
        o = I.memo["errno"] = Ptr(I.new("errno", 4, "global"), 0)
        I.store(("l", "i32", 4), 0, o)
    return o


def x_nextbkt(I, mod, args, ins):
    n = I.norm(args[1])
    b = next((p for p in (2, 5, 11, 13, 23, 47, 97, 199, 409, 823, 1741) if isinstance(n, int) and p >= n), 3739)
    I.store(("l", "i64", 8), b, Ptr(args[0].obj, args[0].off + 8))
    return b


def x_needrehash(I, mod, args, ins):
    b, e, k = (I.norm(a) for a in args[1:4])
    if not all(isinstance(v, int) for v in (b, e, k)):
        return [0, 0]
    if e + k > b or b < 2:
        return [1, x_nextbkt(I, mod, [args[0], max(e + k, 2 * b)], ins)]
    return [0, 0]


def x_locale(I, mod, args, ins):
    """The classic locale with its character classification facet."""
    impl = I.new("locale", 64)
    tab = I.new("facets", 8 * 64)
    fac = I.new("ctype", 600)
    vt = I.new("ctype vtable", 8 * 16)
    for i, nm in ((2, "__kv_toupper"), (4, "__kv_tolower")):
        vt.cells[8 * i] = (8, FuncRef(None, nm))
    fac.cells[0] = (8, Ptr(vt, 0))
    for i in range(64):
        tab.cells[8 * i] = (8, Ptr(fac, 0))
    impl.cells[8] = (8, Ptr(tab, 0))
    impl.cells[16] = (8, 64)
    I.store(("l", "ptr", 8), Ptr(impl, 0), args[0])


def x_lower(I, mod, args, ins):
    v = I.norm(args[-1])
    return v + 32 if isinstance(v, int) and 65 <= v <= 90 else v


def x_upper(I, mod, args, ins):
    v = I.norm(args[-1])
    return v - 32 if isinstance(v, int) and 97 <= v <= 122 else v


def x_demangle(I, mod, args, ins):
    """Names of plain (possibly nested) types; anything else stays unknown."""
    b = cbytes(I, args[0]) if isinstance(args[0], Ptr) else None
    if isinstance(args[3], Ptr):
        I.store(("l", "i32", 4), 0, args[3])
    s, out = (b or b"").decode("latin1"), []
    if s.startswith("N") and s.endswith("E"):
        s = s[1:-1]
    while s and s[0].isdigit():
        k = len(s) - len(s.lstrip("0123456789"))
        n = int(s[:k])
        out.append(s[k:k + n])
        s = s[k + n:]
    t = ("::".join(out) if out and not s else "?" + s).encode("latin1")
    o = I.new("demangled", len(t) + 1)
    for i, c in enumerate(t + b"\0"):
        o.cells[i] = (1, c)
    return Ptr(o, 0)


def _iread(I, p):
    return I.norm(I.load_leaf(p, "i32", 4))


def x_getrf(I, mod, args, ins):
    """LU factorisation: kept symbolic (the matrix is left in place, pivots = identity)."""
    n = _iread(I, args[0])
    if not isinstance(n, int):
        I.note("dgetrf")
        return 0
    for i in range(n):
        I.store(["l", "i32", 4], i + 1, Ptr(args[4].obj, args[4].off + 4 * i))
    I.store(["l", "i32", 4], 0, args[5])
    return 0


def matinv(I, ent, n):
    ent = tuple(ent)
    return [I.dag.mk("minv", (i, n) + ent) for i in range(n * n)]


def x_getri(I, mod, args, ins):
    n = _iread(I, args[0])
    lw = _iread(I, args[5])
    I.store(["l", "i32", 4], 0, args[6])
    if not isinstance(n, int):
        I.note("dgetri")
        return 0
    if lw == 0xFFFFFFFF:
        I.store(["l", "double", 8], I.dag.const(float(n)), args[4])
        return 0
    a = args[1]
    ent = [I.load_leaf(Ptr(a.obj, a.off + 8 * k), "double", 8) for k in range(n * n)]
    for k, v in enumerate(matinv(I, ent, n)):
        I.store(["l", "double", 8], v, Ptr(a.obj, a.off + 8 * k))
    return 0


def x_gesv(I, mod, args, ins):
    n, nr = _iread(I, args[0]), _iread(I, args[1])
    a, b = args[2], args[5]
    ent = [I.load_leaf(Ptr(a.obj, a.off + 8 * k), "double", 8) for k in range(n * n)]
    inv = matinv(I, ent, n)
    d = I.dag
    for c in range(nr):
        rhs = [I.load_leaf(Ptr(b.obj, b.off + 8 * (c * n + k)), "double", 8) for k in range(n)]
        for i in range(n):
            s = d.const(0.0)
            for k in range(n):
                s = d.bin("add", s, d.bin("mul", inv[k * n + i], rhs[k]))
            I.store(["l", "double", 8], s, Ptr(b.obj, b.off + 8 * (c * n + i)))
    I.store(["l", "i32", 4], 0, args[7])
    return 0


EXT = {"dgetrf_": x_getrf, "dgetri_": x_getri, "dgesv_": x_gesv, "_Znwm": x_new, "_Znam": x_new, "malloc": x_new, "_ZdlPv": x_delete, "_ZdlPvm": x_delete, "_ZdaPv": x_delete,
       "_ZdaPvm": x_delete, "free": x_delete, "_ZdlPvmSt11align_val_t": x_delete, "_ZnwmSt11align_val_t": x_new,
       "posix_memalign": x_zero,
       "__cxa_guard_acquire": x_one, "__cxa_guard_release": x_none, "__cxa_guard_abort": x_none,
       "__cxa_atexit": x_zero, "__cxa_allocate_exception": x_exc, "strlen": x_strlen, "memcmp": x_memcmp,
       "bcmp": x_memcmp, "memcpy": x_memcpy, "memmove": x_memcpy, "memset": x_memset,
       "__kv_root_var": x_rootvar, "__kv_root": x_root, "__kv_iters": x_iters,
       "__cxa_begin_catch": x_begincatch, "__cxa_end_catch": x_endcatch, "__cxa_rethrow": x_rethrow,
       "_ZSt11_Hash_bytesPKvmm": x_hashbytes, "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": x_nextbkt,
       "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": x_needrehash,
       "_ZNSt6localeC1Ev": x_locale, "_ZNSt6localeD1Ev": x_none, "_ZNKSt6locale2id5_M_idEv": x_zero,
       "__kv_tolower": x_lower, "__kv_toupper": x_upper, "tolower": x_lower, "toupper": x_upper,
       "__cxa_demangle": x_demangle, "strtol": x_strtol, "__isoc23_strtol": x_strtol, "__errno_location": x_errno,
       "pthread_mutex_lock": x_zero, "pthread_mutex_unlock": x_zero}


def frames(stack):
    """The innermost frames, and the innermost one of the repository's own functions."""
    n = len(stack)
    t = stack[-1][2]
    if t < n - 2:
        return ((stack[t][0], stack[t][1]), (stack[-1][0], stack[-1][1]))
    return tuple([(x[0], x[1]) for x in stack[-2:]])


def locof(node_or_loc):
    """(file, line, function) of a node, preferring repository code."""
    loc = node_or_loc.loc if isinstance(node_or_loc, Node) else node_or_loc
    if not loc or isinstance(loc[0], str):
        return loc or None
    mod, lid, stack = loc
    cands = [(mod, lid)] + [(f.mod, l) for f, l in reversed(stack)]
    best = None
    for m, l in cands:
        x = m.locstr(l)
        if x and inrepo(x[0]):
            return x
        if best is None:
            best = x
    return best
