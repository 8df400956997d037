"""Abstract interpreter of the Python package: sources are interpreted over a value graph.

Numbers that are not known are nodes of a value graph (Sym); containers, arrays and control are followed exactly; a test
on unknown numbers splits the trace.  The extension module and third-party packages are models whose results are
uninterpreted functions of their arguments (kv.pymodel)."""
import ast
import itertools
import math
import os
import warnings

from .build import REPO, AnalysisError
from .dag import Dag, Node

import sys
sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc, where=""):
        self.exc, self.where = exc, where
        Exception.__init__(self, f"{type(exc).__name__}: {exc} at {where}")


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


CUR = [None]        # the interpreter at work (operators of Sym need it)


def D():
    return CUR[0].dag


def node(x):
    """A number as node of the value graph."""
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, bool):
        return D().const(1.0 if x else 0.0)
    if isinstance(x, (int, float)):
        return D().const(x)
    if isinstance(x, Arr) and x.size == 1:
        return node(x.item())
    raise Unsupported(f"number expected, {type(x).__name__} given")


def isnum(x):
    return isinstance(x, (int, float, Sym)) and not isinstance(x, bool) or isinstance(x, bool)


class Sym:
    __slots__ = ("n",)
    __array_priority__ = 1

    def __init__(self, n):
        self.n = n

    def _b(self, op, o, rev=False):
        if isinstance(o, (Arr, list, tuple, Opaque)) or not isnum(o):
            return NotImplemented
        a, b = (node(o), self.n) if rev else (self.n, node(o))
        return wrap(D().bin(op, a, b, CUR[0].loc()))

    def __add__(self, o): return self._b("add", o)
    def __radd__(self, o): return self if isinstance(o, int) and o == 0 else self._b("add", o, True)
    def __sub__(self, o): return self._b("sub", o)
    def __rsub__(self, o): return self._b("sub", o, True)
    def __mul__(self, o): return self._b("mul", o)
    def __rmul__(self, o): return self._b("mul", o, True)
    def __truediv__(self, o): return self._b("div", o)
    def __rtruediv__(self, o): return self._b("div", o, True)
    def __neg__(self): return wrap(D().un("neg", self.n, CUR[0].loc()))
    def __pos__(self): return self
    def __abs__(self): return un("fabs", self)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and 0 < o <= 8:
            r = self
            for _ in range(int(o) - 1):
                r = r * self
            return r
        if isinstance(o, (int, float)) and o in (0.5, -0.5):
            r = un("sqrt", self)
            return r if o > 0 else 1 / r
        if isinstance(o, (int, float)) and o == int(o) and -8 <= o < 0:
            return 1 / self ** int(-o)
        if isinstance(o, (Arr, Opaque)):
            return NotImplemented
        return wrap(D().mk("pow", (self.n, node(o)), CUR[0].loc()))

    def __rpow__(self, o):
        return wrap(D().mk("pow", (node(o), self.n), CUR[0].loc()))

    def __floordiv__(self, o): return wrap(D().mk("floordiv", (self.n, node(o)), CUR[0].loc()))
    def __mod__(self, o): return wrap(D().mk("mod", (self.n, node(o)), CUR[0].loc()))
    def __rmod__(self, o): return wrap(D().mk("mod", (node(o), self.n), CUR[0].loc()))
    def __lt__(self, o): return CUR[0].compare("lt", self, o)
    def __le__(self, o): return CUR[0].compare("le", self, o)
    def __gt__(self, o): return CUR[0].compare("lt", o, self)
    def __ge__(self, o): return CUR[0].compare("le", o, self)

    def __eq__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return False
        if self.n is node(o):
            return True
        return CUR[0].compare("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self): return hash(self.n.id)
    def __float__(self): raise Unsupported("float of an unknown")
    def __bool__(self): return not CUR[0].compare("eq", self, 0.0)
    def __repr__(self): return f"<{self.n!r}>"
    def __str__(self): return "<number>"
    def __format__(self, spec): return "<number>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def wrap(n):
    if n.op == "c":
        return n.args[0]
    return Sym(n)


def un(op, x):
    if isinstance(x, Arr):
        return x.map(lambda v: un(op, v))
    if isinstance(x, (list, tuple)):
        return un(op, Arr.of(x))
    if isinstance(x, Opaque):
        return x
    return wrap(D().un(op, node(x), CUR[0].loc()))


def uf(name, args, *tag):
    """An uninterpreted function of numbers."""
    return Sym(D().mk("uf_" + name, tuple(tag) + tuple(node(a) for a in args), CUR[0].loc()))


class Opaque:
    """A value of an unmodelled library."""

    def __init__(self, label):
        object.__setattr__(self, "label", label)

    def __repr__(self):
        return f"Opaque({self.label})"

    def _r(self, *a):
        return Opaque(self.label + "?")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __or__ = __ror__ = _r
    __and__ = __neg__ = __mod__ = __pow__ = _r

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return "<opaque>"


class Arr:
    """numpy.ndarray: a view of a buffer of numbers."""

    def __init__(self, buf, pos, shape):
        self.buf, self.pos, self.shape = buf, pos, tuple(shape)

    @staticmethod
    def new(flat, shape):
        flat = list(flat)
        return Arr(flat, list(range(len(flat))), shape)

    @staticmethod
    def of(x):
        if isinstance(x, Arr):
            return Arr.new(x.flat(), x.shape)
        if isnum(x):
            return Arr.new([x], ())
        if isinstance(x, (list, tuple, range)) or hasattr(x, "__next__"):
            subs = [Arr.of(y) for y in x]
            if not subs:
                return Arr.new([], (0,))
            if any(s.shape != subs[0].shape for s in subs):
                raise PyRaise(ValueError("setting an array element with a sequence of inhomogeneous shape"),
                              CUR[0].where())
            return Arr.new([v for s in subs for v in s.flat()], (len(subs),) + subs[0].shape)
        raise Unsupported(f"array of {type(x).__name__}")

    @property
    def size(self):
        return len(self.pos)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        m, n = self.shape
        return Arr(self.buf, [self.pos[i * n + j] for j in range(n) for i in range(m)], (n, m))

    def flat(self):
        return [self.buf[p] for p in self.pos]

    def item(self):
        return self.buf[self.pos[0]]

    def tolist(self):
        if not self.shape:
            return self.item()
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def copy(self):
        return Arr.new(self.flat(), self.shape)

    def map(self, f):
        return Arr.new([f(v) for v in self.flat()], self.shape)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = list(s)
        if -1 in s:
            k = math.prod(x for x in s if x != -1)
            if k == 0 or self.size % k:
                raise PyRaise(ValueError("cannot reshape"), CUR[0].where())
            s[s.index(-1)] = self.size // k
        if math.prod(s) != self.size:
            raise PyRaise(ValueError(f"cannot reshape array of size {self.size} into shape {tuple(s)}"), CUR[0].where())
        return Arr(self.buf, list(self.pos), s)

    def flatten(self, *a):
        return Arr.new(self.flat(), (self.size,))

    ravel = flatten

    def astype(self, *a):
        return self.copy()

    def sum(self, axis=None):
        return npsum(self, axis)

    def __len__(self):
        if not self.shape:
            raise PyRaise(TypeError("len() of unsized object"), CUR[0].where())
        return self.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def _index(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if Ellipsis in k:
            raise Unsupported("ellipsis")
        if len(k) > len(self.shape):
            raise PyRaise(IndexError("too many indices for array"), CUR[0].where())
        dims, keep = [], []
        for i, n in enumerate(self.shape):
            q = k[i] if i < len(k) else slice(None)
            if isinstance(q, bool) or isinstance(q, Sym):
                raise Unsupported("index by an unknown")
            if isinstance(q, int):
                if not -n <= q < n:
                    raise PyRaise(IndexError(f"index {q} is out of bounds for axis {i} with size {n}"), CUR[0].where())
                dims.append([q % n])
                keep.append(False)
            elif isinstance(q, slice):
                dims.append(list(range(n))[q])
                keep.append(True)
            elif isinstance(q, (list, Arr)):
                q = q.flat() if isinstance(q, Arr) else q
                dims.append([int(v) % n for v in q])
                keep.append(True)
            else:
                raise Unsupported(f"index {type(q).__name__}")
        st = []
        s = 1
        for n in reversed(self.shape):
            st.insert(0, s)
            s *= n
        pos = [self.pos[sum(i * t for i, t in zip(ix, st))] for ix in itertools.product(*dims)]
        return pos, tuple(len(d) for d, kp in zip(dims, keep) if kp), any(keep) or not k

    def __getitem__(self, k):
        pos, shape, arr = self._index(k)
        if not shape and not arr:
            return self.buf[pos[0]]
        return Arr(self.buf, pos, shape)

    def __setitem__(self, k, v):
        pos, shape, arr = self._index(k)
        if isinstance(v, (list, tuple)):
            v = Arr.of(v)
        if isinstance(v, Arr):
            vals = broadcast(v, shape)
        elif isnum(v):
            vals = [v] * len(pos)
        else:
            raise Unsupported(f"store of {type(v).__name__}")
        for p, x in zip(pos, vals):
            self.buf[p] = x

    def _b(self, f, o, rev=False):
        if isinstance(o, (list, tuple)):
            o = Arr.of(o)
        if isinstance(o, Opaque):
            return o
        if isnum(o):
            o = Arr.new([o], ())
        if not isinstance(o, Arr):
            return NotImplemented
        shape = bshape(self.shape, o.shape)
        a, b = broadcast(self, shape), broadcast(o, shape)
        if rev:
            a, b = b, a
        return Arr.new([f(x, y) for x, y in zip(a, b)], shape)

    def __add__(self, o): return self._b(lambda x, y: x + y, o)
    def __radd__(self, o): return self._b(lambda x, y: x + y, o, True)
    def __sub__(self, o): return self._b(lambda x, y: x - y, o)
    def __rsub__(self, o): return self._b(lambda x, y: x - y, o, True)
    def __mul__(self, o): return self._b(lambda x, y: x * y, o)
    def __rmul__(self, o): return self._b(lambda x, y: x * y, o, True)
    def __truediv__(self, o): return self._b(div, o)
    def __rtruediv__(self, o): return self._b(div, o, True)
    def __pow__(self, o): return self._b(lambda x, y: x ** y, o)
    def __neg__(self): return self.map(lambda x: -x)
    def __matmul__(self, o): return dot(self, o)

    def _i(self, f, o):
        r = self._b(f, o)
        if r.shape != self.shape:
            raise PyRaise(ValueError("non-broadcastable output operand"), CUR[0].where())
        for p, v in zip(self.pos, r.flat()):
            self.buf[p] = v
        return self

    def __iadd__(self, o): return self._i(lambda x, y: x + y, o)
    def __isub__(self, o): return self._i(lambda x, y: x - y, o)
    def __imul__(self, o): return self._i(lambda x, y: x * y, o)
    def __itruediv__(self, o): return self._i(div, o)
    def __deepcopy__(self, memo): return self.copy()
    def __copy__(self): return self.copy()
    def __repr__(self): return f"Arr{self.shape}"
    def __format__(self, spec): return "<array>"


def div(x, y):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return x / y if y else math.nan
    return x / y


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise PyRaise(ValueError(f"operands could not be broadcast together with shapes {a} {b}"), CUR[0].where())
        out.append(max(x, y) if 0 not in (x, y) else 0)
    return tuple(out)


def broadcast(a, shape):
    if bshape(a.shape, shape) != tuple(shape):
        raise PyRaise(ValueError(f"could not broadcast input array from shape {a.shape} into shape {shape}"),
                      CUR[0].where())
    s = (1,) * (len(shape) - len(a.shape)) + a.shape
    st, k = [], 1
    for n in reversed(s):
        st.insert(0, k)
        k *= n
    f = a.flat()
    return [f[sum((0 if s[i] == 1 else ix) * st[i] for i, ix in enumerate(t))]
            for t in itertools.product(*[range(n) for n in shape])]


def npsum(x, axis=None):
    x = Arr.of(x) if not isinstance(x, Arr) else x
    if axis is None or x.ndim <= 1:
        r = 0.0
        for v in x.flat():
            r = v if isinstance(r, float) and r == 0 else r + v
        return r
    if axis == 0:
        r = x[0]
        for i in range(1, len(x)):
            r = r + x[i]
        return r
    return Arr.of([npsum(y, axis - 1 if axis > 0 else None) for y in x])


def dot(a, b):
    a, b = Arr.of(a), Arr.of(b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise PyRaise(ValueError(f"shapes {a.shape} and {b.shape} not aligned"), CUR[0].where())
        return npsum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return Arr.of([dot(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return Arr.of([dot(a, r) for r in b.T])
    if a.ndim == 2 and b.ndim == 2:
        return Arr.of([[dot(r, c) for c in b.T] for r in a])
    raise Unsupported("dot")


# --- objects of the interpreted program --------------------------------------------------------------------------------
class Func:
    def __init__(self, node, env, mod, defaults, kwdefaults, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {"__name__": name}

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    def __init__(self, f, me):
        self.f, self.me = f, me


class Class:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.attrs = ns

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Class) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def look(self, n):
        for c in self.mro():
            if isinstance(c, Class) and n in c.ns:
                return c.ns[n]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f"<{self.cls.name} object>"

    def __format__(self, spec):
        return "<object>"


class Static:
    def __init__(self, f):
        self.f = f


class Native:
    """A function of a model."""

    def __init__(self, name, f, attrs=None):
        self.name, self.f = name, f
        self.attrs = attrs if attrs is not None else {"__name__": name}

    def __repr__(self):
        return f"<native {self.name}>"


class NClass:
    """A class of a model: call creates an NObj."""

    def __init__(self, name, make, members=()):
        self.name, self.make = name, make
        self.attrs = {"__name__": name}
        self.members = set(members)

    def __repr__(self):
        return f"<class {self.name}>"


class NObj:
    """An instance of a model class; get/set give its attributes."""
    cls = None

    def get(self, n):
        raise AttributeError(n)

    def set(self, n, v):
        raise AttributeError(n)


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.ns = {"__name__": name}
        self.native = None       # name -> value, for models

    def __repr__(self):
        return f"<module {self.name}>"


class Env:
    __slots__ = ("vars", "parent", "mod", "globals_", "nonlocals")

    def __init__(self, parent, mod):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.globals_, self.nonlocals = (), ()


class Fork(Exception):
    pass


class Interp:
    """Interprets package code; explore() runs a thunk once per combination of undecided tests."""

    def __init__(self, natives, core, assume=None, max_steps=3000000):
        self.natives, self.core, self.assume = natives, core, assume
        self.dag = Dag()
        self.mods = {}
        self.stack = []
        self.cur = None
        self.steps, self.max_steps = 0, max_steps
        self.decisions, self.next, self.memo = [], 0, {}
        self.conds = []
        self.funcs_seen = set()
        self.printed = []
        self.trees = {}

    def loc(self):
        return None

    def where(self):
        return f"{self.cur[0]}:{self.cur[1]}" if self.cur else "?"

    # --- tests ---------------------------------------------------------------------------------------------------
    def compare(self, op, a, b):
        a, b = node(a), node(b)
        if a is b:
            return op in ("le", "eq")
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
        if op == "eq" and a.id > b.id:
            a, b = b, a
        key = (op, a, b)
        if key in self.memo:
            return self.memo[key]
        r = self.implied(op, a, b)
        if r is not None:
            self.memo[key] = r
            return r
        if self.assume is not None:
            r = self.assume(op, a, b)
            if r is not None:
                self.memo[key] = r
                return r
        r = self.choose(2, (op, a, b)) == 0
        # the first alternative is "true" for orderings and "false" for equalities
        r = r if op != "eq" else not r
        self.memo[key] = r
        self.conds.append((op, a, b, r, self.where()))
        return r

    def implied(self, op, a, b):
        """What earlier tests on the same two numbers say."""
        m = self.memo.get
        e = m(("eq",) + ((a, b) if a.id <= b.id else (b, a)))
        lt, gt, le, ge = m(("lt", a, b)), m(("lt", b, a)), m(("le", a, b)), m(("le", b, a))
        # possible orders of a and b
        poss = {"<", "=", ">"}
        for v, t, f in ((e, {"="}, {"<", ">"}), (lt, {"<"}, {"=", ">"}), (gt, {">"}, {"=", "<"}),
                        (le, {"<", "="}, {">"}), (ge, {">", "="}, {"<"})):
            if v is not None:
                poss &= t if v else f
        yes = {"eq": {"="}, "lt": {"<"}, "le": {"<", "="}}[op]
        return True if poss <= yes else False if not poss & yes else None

    def choose(self, n, what):
        if self.next == len(self.decisions):
            self.decisions.append([0, n])
        d = self.decisions[self.next][0]
        self.next += 1
        return d

    def explore(self, thunk, max_paths=64):
        """[(outcome, value, conds)]: outcome is "ret" or "raise"."""
        out = []
        self.decisions = []
        while True:
            self.next, self.memo, self.conds, self.cur = 0, {}, [], None
            self.mods, self.printed, self.steps = {}, [], 0
            prev, CUR[0] = CUR[0], self
            try:
                try:
                    v = ("ret", thunk(self))
                except PyRaise as e:
                    v = ("raise", e)
            finally:
                CUR[0] = prev
            out.append((v[0], v[1], list(self.conds)))
            if len(out) > max_paths:
                raise Unsupported("too many traces")
            while self.decisions and self.decisions[-1][0] + 1 >= self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return out
            self.decisions[-1][0] += 1

    # --- modules -------------------------------------------------------------------------------------------------
    def imp(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split(".")[0]
        if name == "pykep.core":
            m = Module(name)
            m.ns.update(self.core(self))
            m.native = True
            self.mods[name] = m
            return m
        if top != "pykep":
            m = Module(name)
            mk = self.natives.get(name)
            m.native = mk(self) if mk else {}
            m.ns.update(m.native)
            m.opaque = True
            self.mods[name] = m
            if "." in name:
                p = self.imp(name.rsplit(".", 1)[0])
                p.ns[name.rsplit(".", 1)[1]] = m
            return m
        if "." in name:
            self.imp(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        p = os.path.join(REPO, *name.split("."))
        path = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
        if not os.path.exists(path) or os.path.basename(path).startswith("test"):
            if os.path.exists(p + ".py.in") or os.path.basename(path).startswith("test"):
                m = Module(name)
                m.opaque = True
                m.native = {}
                self.mods[name] = m
                self.setsub(name, m)
                return m
            raise PyRaise(ImportError("No module named " + name), self.where())
        m = Module(name, path)
        m.opaque = False
        m.ns["__path__"] = [os.path.dirname(path)]
        m.ns["__file__"] = path
        self.mods[name] = m
        if path not in self.trees:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.trees[path] = ast.parse(open(path, encoding="utf-8").read(), path)
        env = Env(None, m)
        env.vars = m.ns
        saved = self.cur
        self.block(self.trees[path].body, env)
        self.cur = saved
        self.setsub(name, m)
        return m

    def setsub(self, name, m):
        if "." in name:
            p, n = name.rsplit(".", 1)
            self.mods[p].ns[n] = m

    # --- statements ----------------------------------------------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        self.cur = (os.path.relpath(env.mod.path, REPO) if env.mod.path else env.mod.name, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"{type(s).__name__} at {self.where()}")
        m(s, env)

    def s_Pass(self, s, env): pass
    def s_Global(self, s, env): env.globals_ = tuple(env.globals_) + tuple(s.names)
    def s_Nonlocal(self, s, env): env.nonlocals = tuple(env.nonlocals) + tuple(s.names)
    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Return(self, s, env): raise _Return(self.ev(s.value, env) if s.value is not None else None)
    def s_Break(self, s, env): raise _Break()
    def s_Continue(self, s, env): raise _Continue()

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            self.assign(t, self.binop(s.op, cur, self.ev(s.value, env), True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, self.binop(s.op, self.getattr(o, t.attr), self.ev(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.key(t.slice, env)
            self.setitem(o, k, self.binop(s.op, self.getitem(o, k), self.ev(s.value, env), True))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                env.mod.ns[t.id] = v
            elif t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                (e or env).vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"), self.where())
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError(f"{len(vs)} values to unpack, {len(t.elts)} expected"), self.where())
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.key(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise PyRaise(NameError(t.id), self.where())
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.key(t.slice, env)
                if not isinstance(o, (list, dict)):
                    raise Unsupported("del")
                del o[k]

    def truth(self, v):
        if isinstance(v, Arr):
            if v.size != 1:
                raise PyRaise(ValueError("truth value of an array is ambiguous"), self.where())
            v = v.item()
        if isinstance(v, Opaque):
            return self.choose(2, v.label) == 0
        if isinstance(v, (Inst, Func, Class, Bound, Native, NObj, Module)):
            return True
        return bool(v)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_For(self, s, env):
        for v in self.iter(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_While(self, s, env):
        while self.truth(self.ev(s.test, env)):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("too many steps")
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("re-raise")
        v = self.ev(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        if not isinstance(v, BaseException):
            v = RuntimeError(str(v))
        raise PyRaise(v, self.where())

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise(AssertionError(), self.where())

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    t = self.ev(h.type, env) if h.type is not None else BaseException
                    ts = t if isinstance(t, tuple) else (t,)
                    if any(isinstance(x, type) and isinstance(e.exc, x) for x in ts):
                        if h.name:
                            env.vars[h.name] = e.exc
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split(".")[0]] = self.imp(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            n = env.mod.name
            if not (env.mod.path or "").endswith("__init__.py"):
                n = n.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                n = n.rsplit(".", 1)[0]
            base = n + ("." + s.module if s.module else "")
        m = self.imp(base)
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.ns.items()):
                    if not k.startswith("_"):
                        env.vars[k] = v
                continue
            v = m.ns.get(a.name, self)
            if v is self:
                full = base + "." + a.name
                if base.split(".")[0] == "pykep" and not m.native and not getattr(m, "opaque", False):
                    try:
                        v = self.imp(full)
                    except PyRaise:
                        raise PyRaise(ImportError(f"cannot import name {a.name} from {base}"), self.where())
                elif getattr(m, "opaque", False):
                    v = Opaque(full)
                else:
                    raise PyRaise(ImportError(f"cannot import name {a.name} from {base}"), self.where())
            env.vars[a.asname or a.name] = v

    def s_FunctionDef(self, s, env):
        f = self.func(s, env, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            f = Static(f) if dv is staticmethod else self.call(dv, [f], {})
        env.vars[s.name] = f

    def func(self, s, env, name):
        a = s.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                self.ev(x.annotation, env)
        return Func(s, env, env.mod, [self.ev(d, env) for d in a.defaults],
                    {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if s.decorator_list or s.keywords:
            raise Unsupported("class decorators")
        e = Env(env, env.mod)
        self.block(s.body, e)
        c = Class(s.name, [b for b in bases if b is not object], e.vars, env.mod)
        for v in e.vars.values():
            if isinstance(v, Func):
                v.cls = c
                v.env = env            # the class body is no enclosing scope of its methods
            elif isinstance(v, Static) and isinstance(v.f, Func):
                v.f.env = env
        env.vars[s.name] = c

    # --- expressions ---------------------------------------------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"{type(e).__name__} at {self.where()}")
        return m(e, env)

    def name(self, n, env):
        e = env
        if n in env.globals_:
            e = None
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        if n in env.mod.ns:
            return env.mod.ns[n]
        if n in BUILT:
            return BUILT[n]
        import builtins
        v = getattr(builtins, n, self)
        if isinstance(v, type) and issubclass(v, BaseException) or v in (staticmethod, classmethod, property, object):
            return v
        if v is not self:
            raise Unsupported("builtin " + n)
        raise PyRaise(NameError(f"name '{n}' is not defined"), self.where())

    def e_Name(self, e, env): return self.name(e.id, env)
    def e_Constant(self, e, env): return e.value
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return self.elts(e.elts, env)
    def e_Set(self, e, env): return set(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        r = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                r.update(self.ev(v, env))
            else:
                r[self.ev(k, env)] = self.ev(v, env)
        return r

    def elts(self, es, env):
        r = []
        for x in es:
            if isinstance(x, ast.Starred):
                r.extend(self.iter(self.ev(x.value, env)))
            else:
                r.append(self.ev(x, env))
        return r

    def iter(self, v):
        if isinstance(v, (list, tuple, range, str, dict, set, Arr)) or hasattr(v, "__next__"):
            return v if not isinstance(v, list) else LiveList(v)
        if isinstance(v, (type({}.items()), type({}.keys()), type({}.values()))):
            return v
        if isnum(v) or v is None:
            raise PyRaise(TypeError(f"{type(v).__name__} is not iterable"), self.where())
        raise Unsupported(f"iteration over {v!r}")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b, inplace=False):
        import operator as o
        table = {ast.Add: ("add", o.add), ast.Sub: ("sub", o.sub), ast.Mult: ("mul", o.mul), ast.Div: ("truediv", o.truediv),
                 ast.Pow: ("pow", o.pow), ast.FloorDiv: ("floordiv", o.floordiv), ast.Mod: ("mod", o.mod),
                 ast.MatMult: ("matmul", o.matmul), ast.BitOr: ("or", o.or_), ast.BitAnd: ("and", o.and_),
                 ast.LShift: ("lshift", o.lshift), ast.RShift: ("rshift", o.rshift), ast.BitXor: ("xor", o.xor)}
        n, f = table[type(op)]
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return text(b if isinstance(b, tuple) else [b])
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str) and (
                isinstance(a, Text) or isinstance(b, Text)):
            return text([a, b])
        if isinstance(a, NObj) and hasattr(a, "op_" + n):
            return getattr(a, "op_" + n)(b)
        if isinstance(a, Inst):
            m = a.cls.look(f"__{n}__")
            if m is not None:
                return self.call(Bound(m, a), [b], {})
            raise Unsupported("operator on an object")
        if isinstance(b, (Inst, NObj)):
            raise Unsupported("operator on an object")
        try:
            if inplace:
                fi = getattr(o, "i" + (n if n not in ("or", "and") else n), None)
                if fi is not None and isinstance(a, (list, Arr)):
                    return fi(a, b)
            if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, int):
                # floating-point constants keep their exact meaning
                k = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div"}.get(n)
                if k and not (k == "div" and b == 0):
                    return wrap(self.dag.bin(k, node(a), node(b)))
            if n == "truediv" and isinstance(a, int) and isinstance(b, int) and b:
                return wrap(self.dag.bin("div", node(a), node(b)))
            return f(a, b)
        except (TypeError, ZeroDivisionError) as x:
            raise PyRaise(x, self.where())

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        try:
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        except TypeError as x:
            raise PyRaise(x, self.where())

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env)
            r = self.cmp(op, a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return r
            a = b
        return r

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or isinstance(a, (bool, type(None))) and a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = any(self.truth(self.cmp(ast.Eq(), a, x)) for x in self.iter(b)) if not isinstance(b, (str, dict)) else a in b
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, NObj) and hasattr(a, "cmp"):
            r = a.cmp(type(op).__name__, b)
            if r is not NotImplemented:
                return r
        try:
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            return a >= b
        except TypeError as x:
            raise PyRaise(x, self.where())

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return self.func(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        return text([self.ev(v.value, env) for v in e.values if isinstance(v, ast.FormattedValue)])

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def comp(self, e, env, out):
        def rec(i, en):
            if i == len(e.generators):
                out(en)
                return
            g = e.generators[i]
            for v in self.iter(self.ev(g.iter, en)):
                x = Env(en, en.mod)
                self.assign(g.target, v, x)
                if all(self.truth(self.ev(c, x)) for c in g.ifs):
                    rec(i + 1, x)
        rec(0, env)

    def e_ListComp(self, e, env):
        r = []
        self.comp(e, env, lambda x: r.append(self.ev(e.elt, x)))
        return r

    def e_GeneratorExp(self, e, env):
        return iter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        r = {}
        self.comp(e, env, lambda x: r.__setitem__(self.ev(e.key, x), self.ev(e.value, x)))
        return r

    def key(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.key(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.key(e.slice, env))

    def getitem(self, o, k):
        if isinstance(o, Opaque):
            return Opaque(o.label + "[]")
        if isinstance(o, NObj) and hasattr(o, "item"):
            return o.item(k)
        if isinstance(o, (type, Class, NClass)):
            return o
        if isinstance(k, Arr) and k.size == 1 and not k.shape:
            k = k.item()
        if isinstance(k, Sym) or isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
            raise Unsupported("index by an unknown")
        if isinstance(o, (list, tuple, str, dict, Arr, range)):
            try:
                return o[k]
            except (IndexError, KeyError, TypeError) as x:
                raise PyRaise(x, self.where())
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        if isinstance(o, (list, dict, Arr)):
            try:
                if isinstance(o, list) and isinstance(k, slice):
                    v = list(self.iter(v))
                o[k] = v
                return
            except (IndexError, KeyError, TypeError) as x:
                raise PyRaise(x, self.where())
        if isinstance(o, Opaque):
            return
        raise Unsupported(f"store into {o!r}")

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, n):
        if isinstance(o, Opaque):
            return Opaque(o.label + "." + n)
        if isinstance(o, Module):
            if n in o.ns:
                return o.ns[n]
            if getattr(o, "opaque", False):
                if o.name == "numpy":
                    raise Unsupported("numpy." + n)
                return Opaque(o.name + "." + n)
            full = o.name + "." + n
            if full in self.mods:
                return self.mods[full]
            raise PyRaise(AttributeError(f"module {o.name} has no attribute {n}"), self.where())
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            v = o.cls.look(n)
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, Static):
                return v.f
            if v is not None or any(n in c.ns for c in o.cls.mro() if isinstance(c, Class)):
                return v
            if n == "__class__":
                return o.cls
            if any(not isinstance(c, Class) for c in o.cls.mro()):
                raise Unsupported("attribute of an external base class")
            raise PyRaise(AttributeError(f"{o.cls.name} object has no attribute {n}"), self.where())
        if isinstance(o, Class):
            v = o.look(n)
            if isinstance(v, Static):
                return v.f
            if v is not None:
                return v
            if n == "__name__":
                return o.name
            raise PyRaise(AttributeError(f"type object {o.name} has no attribute {n}"), self.where())
        if isinstance(o, Super):
            for c in o.cls.mro()[1:]:
                if isinstance(c, Class) and n in c.ns:
                    v = c.ns[n]
                    return v.f if isinstance(v, Static) else Bound(v, o.me) if isinstance(v, Func) else v
            if n == "__init__":
                return Native("object.__init__", lambda *a, **k: None)
            raise PyRaise(AttributeError(n), self.where())
        if isinstance(o, NObj):
            try:
                return o.get(n)
            except AttributeError as x:
                raise PyRaise(x, self.where())
        if isinstance(o, (NClass, Native, Func)):
            if n in o.attrs:
                return o.attrs[n]
            raise PyRaise(AttributeError(f"{o!r} has no attribute {n}"), self.where())
        if isinstance(o, Bound) and n == "__name__":
            return o.f.name
        if isinstance(o, Arr):
            if n in ("size", "shape", "ndim", "T"):
                return getattr(o, n)
            if n in ("tolist", "copy", "reshape", "flatten", "ravel", "sum", "astype", "item"):
                return Native("ndarray." + n, getattr(o, n))
            raise Unsupported("ndarray." + n)
        if isinstance(o, (list, tuple, str, dict, set)):
            v = getattr(o, n, None)
            if v is None:
                raise PyRaise(AttributeError(f"{type(o).__name__} object has no attribute {n}"), self.where())
            if isinstance(o, str) and n == "format":
                return Native(n, lambda *a, **k: text(list(a) + list(k.values())))
            if n in ("extend",):
                return Native(n, lambda x, o=o: o.extend(list(self.iter(x))))
            return Native(n, v)
        if isinstance(o, BaseException):
            return getattr(o, n, None)
        if isnum(o) or o is None:
            if isnum(o) and n in ("real",):
                return o
            raise PyRaise(AttributeError(f"{type(o).__name__} object has no attribute {n}"), self.where())
        if isinstance(o, type) and not hasattr(o, n):
            raise PyRaise(AttributeError(f"type object '{o.__name__}' has no attribute '{n}'"), self.where())
        raise Unsupported(f"attribute {n} of {o!r}")

    def setattr(self, o, n, v):
        if isinstance(o, (Inst, Func, Native, NClass)):
            o.attrs[n] = v
        elif isinstance(o, Class):
            o.ns[n] = v
        elif isinstance(o, Module):
            o.ns[n] = v
        elif isinstance(o, NObj):
            try:
                o.set(n, v)
            except AttributeError as x:
                raise PyRaise(x, self.where())
        elif isinstance(o, Opaque):
            pass
        else:
            raise Unsupported(f"attribute store on {o!r}")

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("** of " + repr(v))
                for a, b in v.items():
                    if a in kw:
                        raise PyRaise(TypeError(f"multiple values for keyword argument {a}"), self.where())
                    kw[a] = b
            else:
                if k.arg in kw:
                    raise PyRaise(TypeError(f"multiple values for keyword argument {k.arg}"), self.where())
                kw[k.arg] = v
        if f is BUILT["super"]:
            if args:
                return Super(args[0], args[1])
            x = env
            while x is not None and "__func__" not in x.vars:
                x = x.parent
            fn = x.vars["__func__"]
            return Super(fn.cls, x.vars[fn.node.args.args[0].arg])
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        cur = self.cur
        try:
            return self.call_(f, args, kw)
        finally:
            self.cur = cur

    def call_(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call_(f.f, [f.me] + list(args), kw)
        if isinstance(f, Static):
            return self.call_(f.f, args, kw)
        if isinstance(f, Func):
            return self.run(f, args, kw)
        if isinstance(f, Class):
            o = Inst(f)
            init = f.look("__init__")
            if init is not None:
                self.call_(init, [o] + list(args), kw)
            elif args or kw:
                raise PyRaise(TypeError(f"{f.name}() takes no arguments"), self.where())
            return o
        if isinstance(f, Native):
            try:
                return f.f(*args, **kw)
            except (TypeError, ValueError, IndexError, KeyError) as x:
                if isinstance(x, TypeError) and "Sym" in str(x):
                    raise Unsupported(str(x))
                raise PyRaise(x, self.where())
        if isinstance(f, NClass):
            try:
                return f.make(*args, **kw)
            except (TypeError, ValueError) as x:
                raise PyRaise(x, self.where())
        if isinstance(f, Opaque):
            return Opaque(f.label + "()")
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[str(a) for a in args])
        if isinstance(f, Inst):
            m = f.cls.look("__call__")
            if m is not None:
                return self.call_(m, [f] + list(args), kw)
        if callable(f) and f in BUILT.values():
            try:
                return f(*args, **kw)
            except (TypeError, ValueError) as x:
                raise PyRaise(x, self.where())
        if f is None or isnum(f) or isinstance(f, (str, list, tuple, Module)):
            raise PyRaise(TypeError(f"{f!r} is not callable"), self.where())
        raise Unsupported(f"call of {f!r}")

    def run(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.mod)
        v = env.vars
        v["__func__"] = f
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(TypeError(f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given"),
                          self.where())
        for n, x in zip(pos, args):
            v[n] = x
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(pos):])
        rest = {}
        names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k, x in kw.items():
            if k in names:
                if k in v and k in pos[:len(args)]:
                    raise PyRaise(TypeError(f"{f.name}() got multiple values for argument {k}"), self.where())
                v[k] = x
            elif a.kwarg is not None:
                rest[k] = x
            else:
                raise PyRaise(TypeError(f"{f.name}() got an unexpected keyword argument {k}"), self.where())
        if a.kwarg is not None:
            v[a.kwarg.arg] = rest
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            v.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            v.setdefault(n, d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in v:
                raise PyRaise(TypeError(f"{f.name}() missing required argument {n}"), self.where())
        if len(self.stack) > 200:
            raise Unsupported("recursion")
        self.funcs_seen.add((f.mod.name, f.name))
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()


class Super:
    def __init__(self, cls, me):
        self.cls, self.me = cls, me


class LiveList:
    """Iteration over a list the loop body may change."""

    def __init__(self, l):
        self.l = l

    def __iter__(self):
        i = 0
        while i < len(self.l):
            yield self.l[i]
            i += 1


# --- builtins ------------------------------------------------------------------------------------------------------------
def b_type(x):
    if isinstance(x, (Inst, NObj)):
        return x.cls
    if isinstance(x, Sym):
        return float
    if isinstance(x, Opaque):
        raise Unsupported("type of an opaque value")
    return type(x)


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if t is b_type:
        return isinstance(x, (Class, NClass, type))
    if t is object:
        return True
    if isinstance(t, Native):
        t = {v: k for k, v in [(list, BUILT["list"])]}.get(t, t)
    if isinstance(x, Inst):
        return t in x.cls.mro() or t is object
    if isinstance(x, NObj):
        return x.cls is t
    if isinstance(t, type):
        if isinstance(x, Sym):
            return t is float
        if t is type:
            return isinstance(x, (Class, NClass, type))
        return isinstance(x, t)
    return False


def b_sum(x, start=0):
    r = start
    for v in x:
        r = v if isinstance(r, int) and r == 0 else CUR[0].binop(ast.Add(), r, v)
    return r


def mm(op):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if all(not isinstance(x, Sym) for x in xs):
            return (min if op == "fmin" else max)(xs, **k)
        if k:
            raise Unsupported("min/max with a key")
        r = xs[0]
        for x in xs[1:]:
            p, q = sorted((node(r), node(x)), key=lambda n: n.id)
            r = Sym(D().mk(op, (p, q), None))
        return r
    return f


def b_float(x=0.0):
    if isinstance(x, Arr) and x.size == 1:
        x = x.item()
    if isinstance(x, Sym):
        return x
    return float(x)


def concrete(n):
    """Floating-point value of a node made of constants, or None."""
    if n.op == "c":
        return n.args[0]
    if n.op not in ("add", "sub", "mul", "div", "neg"):
        return None
    a = [concrete(x) for x in n.args]
    if any(x is None for x in a):
        return None
    try:
        return {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y,
                "neg": lambda x: -x}[n.op](*a)
    except ZeroDivisionError:
        return None


def b_int(x=0):
    if isinstance(x, Arr) and x.size == 1:
        x = x.item()
    if isinstance(x, Sym):
        c = concrete(x.n)
        if c is not None:
            return int(c)
        return Sym(D().mk("trunc", (x.n,), None))
    return int(x)


def b_len(x):
    if isinstance(x, (Opaque, Sym, Inst, NObj)):
        raise Unsupported("len")
    return len(x)


def b_print(*a, **k):
    CUR[0].printed.append((a, CUR[0].where()))


class Text(str):
    """A formatted string and the values in it."""
    vals = ()


def text(vals):
    t = Text("<formatted>")
    out = []
    for v in vals:
        if isinstance(v, Text):
            out += v.vals
        elif not isinstance(v, str):
            out.append(v)
    t.vals = tuple(out)
    return t


def b_hasattr(o, n):
    try:
        CUR[0].getattr(o, n)
        return True
    except PyRaise:
        return False


def b_getattr(o, n, *d):
    try:
        return CUR[0].getattr(o, n)
    except PyRaise:
        if d:
            return d[0]
        raise


def b_iter(x):
    return list(CUR[0].iter(x))


class _Super:
    pass


def b_list(x=()):
    return list(CUR[0].iter(x))


# builtin types stay what they are, so that isinstance and "type(x) is" work; calls go through CALLS
BUILT = {
    "len": b_len, "range": range, "sum": b_sum, "min": mm("fmin"), "max": mm("fmax"), "abs": abs, "int": int, "float": float,
    "str": str, "list": list, "tuple": tuple, "dict": dict, "bool": bool, "set": set,
    "zip": lambda *a: [tuple(t) for t in zip(*[b_iter(x) for x in a])],
    "enumerate": lambda x, start=0: list(enumerate(b_iter(x), start)),
    "print": b_print, "isinstance": b_isinstance, "type": b_type, "all": lambda x: all(CUR[0].truth(v) for v in x),
    "any": lambda x: any(CUR[0].truth(v) for v in x), "hasattr": b_hasattr, "getattr": b_getattr,
    "setattr": lambda o, n, v: CUR[0].setattr(o, n, v), "reversed": lambda x: list(reversed(b_iter(x))),
    "sorted": lambda x, **k: sorted(b_iter(x), **k), "map": lambda f, *x: [CUR[0].call(f, list(t), {}) for t in zip(*map(b_iter, x))],
    "repr": lambda x: "<repr>", "round": lambda x, *a: un("round", x) if isinstance(x, Sym) else round(x, *a),
    "super": _Super, "object": object, "Ellipsis": Ellipsis, "callable": lambda x: isinstance(x, (Func, Bound, Native, Class, NClass)),
    "NotImplemented": NotImplemented, "id": id, "format": lambda *a: "<formatted>", "divmod": divmod, "pow": pow,
    "iter": lambda x: iter(b_iter(x)), "next": next, "issubclass": lambda a, b: b in a.mro() if isinstance(a, Class) else issubclass(a, b),
}
_old = Interp.call_


def call_(self, f, args, kw):
    if isinstance(f, type) and f in (int, float, str, list, tuple, bool, dict, set, range):
        try:
            if f is float:
                if args and isinstance(args[0], (list, tuple, dict)) or args and args[0] is None:
                    raise TypeError("float() argument must be a string or a real number")
                return b_float(*args)
            if f is int:
                return b_int(*args)
            if f is str:
                return args[0] if args and isinstance(args[0], str) else text(args)
            if f is bool:
                return self.truth(args[0]) if args else False
            if f in (list, tuple, set) and args:
                return f(self.iter(args[0]))
            if f is range and any(isinstance(a, Sym) for a in args):
                raise Unsupported("range of an unknown")
            if f is dict and args and not isinstance(args[0], dict):
                return dict(list(self.iter(args[0])), **kw)
            return f(*args, **kw)
        except (TypeError, ValueError) as x:
            raise PyRaise(x, self.where())
    if f is b_type and len(args) == 1:
        return b_type(args[0])
    return _old(self, f, args, kw)


Interp.call_ = call_
