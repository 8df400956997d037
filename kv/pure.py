"""Recording of what a computation does to state that outlives it."""
from . import hy
from .interp import Interp, Ptr, SymI
from .dag import Node, topo

LOCK = ("pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_spin_lock",
        "pthread_mutex_trylock")
UNLOCK = ("pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock")
# results or effects that depend on the process rather than on the arguments
ENVIRONMENT = ("rand", "srand", "random", "srandom", "drand48", "srand48", "lrand48", "mrand48", "rand_r", "time", "clock",
               "clock_gettime", "gettimeofday", "getenv", "setenv", "getpid", "gettid", "pthread_self", "fesetround",
               "fesetenv", "feholdexcept", "setlocale", "getrandom", "strtok")
# not the program's own: guards, type information, state of the libraries
SKIP = ("_ZGV", "_ZTV", "_ZTI", "errno", "__dso", "_ZNSt", "_ZSt", "_ZZNSt", "_ZN2xt", "_ZZN2xt", "_ZZNK2xt", "_ZN3fmt",
        "_ZZN3fmt", "_ZN5boost", "_ZZN5boost", "_ZZNK5boost")


class Pure(Interp):
    """writes: (object, offset, locks, place) to mutable state that outlives the call, outside of the
    initialisation of statics; tainted: statics initialised from arguments; env: uses of the environment; changed:
    writes to a frozen object."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.intercepts = dict(self.intercepts)
        for k in ENVIRONMENT:
            self.intercepts.setdefault(k, environment)
        self.intercepts.setdefault("std::chrono::_V2::system_clock::now", environment)
        self.intercepts.setdefault("std::chrono::_V2::steady_clock::now", environment)
        self.intercepts.setdefault("std::random_device::_M_getval", environment)
        for k in LOCK:
            self.intercepts[k] = lock
        for k in UNLOCK:
            self.intercepts[k] = unlock
        self.intercepts["__cxa_guard_acquire"] = guard
        self.intercepts["__cxa_guard_release"] = guarded
        self.intercepts["__cxa_guard_abort"] = abort
        self.intercepts["kv_frozen"] = freeze
        self.clear()

    def clear(self):
        self.on = False
        self.held, self.guards = [], []
        self.writes, self.env, self.tainted, self.changed = [], [], [], []
        self.inited = {}             # objects written while a static is initialised
        self.persist = {}
        self.frozen = {}
        self.tls = set()

    def run1(self, *a):
        self.clear()
        return super().run1(*a)

    def reach(self, roots):
        out, todo = {}, list(roots)
        while todo:
            o = todo.pop()
            if id(o) in out:
                continue
            out[id(o)] = o
            for _, v in list(o.cells.values()):
                if isinstance(v, Ptr) and id(v.obj) not in out and not v.obj.const:
                    todo.append(v.obj)
        return out

    def start(self):
        """The call proper begins: what is reachable from globals now outlives it."""
        self.on = True
        self.persist = self.reach(o for o in self.gobjs.values() if not o.const)

    def persistent(self, o):
        if o.const or o.name.startswith(SKIP):
            return False
        return o.kind == "global" or id(o) in self.persist

    def result(self):
        """What the call did: whether state is of the thread is known once the call has ended."""
        tls = self.reach(o for o in self.gobjs.values() if id(o) in self.tls)
        return ([(o, off, held, loc, id(o) in tls) for o, off, held, loc in self.writes], list(self.env), list(self.tainted),
                list(self.changed))

    def wrote(self, p, size):
        if not isinstance(p, Ptr):
            return
        o = p.obj
        if id(o) in self.frozen:
            lo, hi = self.frozen[id(o)]
            if not isinstance(p.off, int) or (p.off < hi and p.off + size > lo):
                self.changed.append((o, p.off, self.cur_loc()))
        if not self.on or not self.persistent(o):
            return
        if self.guards:
            self.inited[id(o)] = o
            return
        self.writes.append((o, p.off, tuple(self.held), self.cur_loc()))

    def store(self, lay, v, p):
        if lay[0] == "l":
            self.wrote(p, lay[2])
        r = super().store(lay, v, p)
        if self.on and self.guards and isinstance(v, Ptr) and isinstance(p, Ptr) and self.persistent(p.obj):
            self.persist.update(self.reach([v.obj]))
        return r

    def memcpy(self, dst, src, n):
        if isinstance(n, int) and n:
            self.wrote(dst, n)
        return super().memcpy(dst, src, n)

    def memset(self, dst, b, n):
        if isinstance(n, int) and n:
            self.wrote(dst, n)
        return super().memset(dst, b, n)


def environment(I, mod, dem, args, ins):
    if I.on:
        I.env.append((dem.split("(")[0] if dem else "a call", I.cur_loc()))
    return I.default(ins[3], "environment")


def key(p):
    return (p.obj.name, p.off) if isinstance(p, Ptr) else ("?", repr(p))


def lock(I, mod, dem, args, ins):
    I.held.append(key(args[0]))
    return 0


def unlock(I, mod, dem, args, ins):
    if key(args[0]) in I.held:
        I.held.remove(key(args[0]))
    return 0


def guard(I, mod, dem, args, ins):
    g = args[0]
    c = g.obj.cells.get(g.off)
    if c is not None and c[1] == 1:
        return 0
    I.guards.append((g, dict(I.inited)))
    I.inited = {}
    return 1


def guarded(I, mod, dem, args, ins):
    g, before = I.guards.pop()
    g.obj.cells[g.off] = (1, 1)
    if I.on:
        for o in I.reach(I.inited.values()).values():
            for off, (_, v) in sorted(o.cells.items(), key=lambda t: str(t[0])):
                if isinstance(v, SymI) or (isinstance(v, Node) and any(n.op in ("in", "unk", "loop", "loopmem") for n in topo([v]))):
                    I.tainted.append((o, I.cur_loc()))
                    break
    I.inited = before
    return None


def abort(I, mod, dem, args, ins):
    if I.guards:
        I.inited = I.guards.pop()[1]
    return None


def freeze(I, mod, dem, args, ins):
    p = args[0]
    if not isinstance(p, Ptr):
        I.frozen = {}
        return None
    o = p.obj
    I.frozen = {k: (0, 1 << 62) for k in I.reach([o])}
    I.frozen[id(o)] = (p.off, 1 << 62)
    return None


IC = dict(hy.SYM)
