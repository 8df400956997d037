"""Resolution of every name, attribute and call of the Python package, over all scopes and in import order."""
import ast
import builtins
import glob
import itertools
import os
import warnings

from .build import REPO
from .pycore import Core, OBJ

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__path__", "__doc__", "__package__", "__spec__", "__loader__",
                                 "__builtins__", "__annotations__"}
PYOBJ = OBJ | {"__call__", "__code__", "__defaults__", "__closure__", "__globals__", "__get__", "__kwdefaults__",
               "__wrapped__", "__slots__", "__weakref__", "__sizeof__", "__init_subclass__", "__ne__", "__lt__",
               "__le__", "__gt__", "__ge__", "__delattr__", "__reduce_ex__", "__subclasshook__", "mro"}


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns, self.state = {}, 0       # ns: name -> type
        self.rel = os.path.relpath(path, REPO)


class T:
    """An abstract type; kind is one of mod, cclass, cinst, cfunc, pyclass, pyinst, pyfunc, list, tuple."""
    __slots__ = ("kind", "v", "bound")

    def __init__(self, kind, v, bound=False):
        self.kind, self.v, self.bound = kind, v, bound

    def __eq__(self, o):
        return isinstance(o, T) and self.kind == o.kind and self.v is o.v and self.bound == o.bound or \
            isinstance(o, T) and self.kind == o.kind and self.kind in ("list", "tuple") and self.v == o.v

    def __hash__(self):
        return hash(self.kind)


def join(a, b):
    return a if a == b else None


class PyFunc:
    def __init__(self, node, mod, scope, cls=None):
        self.node, self.mod, self.scope, self.cls = node, mod, scope, cls
        self.kind = "function"
        for d in getattr(node, "decorator_list", []):
            n = d.id if isinstance(d, ast.Name) else None
            self.kind = {"staticmethod": "static", "classmethod": "classm", "property": "property"}.get(n, "decorated")


class PyClass:
    def __init__(self, node, mod, scope):
        self.node, self.mod, self.scope = node, mod, scope
        self.members = {}      # name -> type (methods as T pyfunc)
        self.bases = []        # PyClass, or None for anything else
        self.inst = {}         # attribute -> type of what self.attribute is assigned
        self.dynamic = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if b is not None:
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def known(self):
        return not any(b is None for c in self.mro() for b in c.bases) and not any(
            c.dynamic or "__getattr__" in c.members or "__getattribute__" in c.members for c in self.mro())

    def get(self, n):
        for c in self.mro():
            if n in c.members:
                return True, c.members[n]
        return False, None

    def iget(self, n):
        for c in self.mro():
            if n in c.inst:
                return True, c.inst[n]
        return self.get(n)


class Scope:
    def __init__(self, kind, parent, mod, where, fn=None):
        self.kind, self.parent, self.mod, self.where, self.fn = kind, parent, mod, where, fn
        self.types = {}        # name -> type
        self.locals = set()
        self.globals_, self.nonlocals = set(), set()
        self.maybe = None      # names possibly bound here (flow state), None: do not track


class Names:
    def __init__(self, finding):
        self.finding = finding
        self.core = Core()
        self.mods = {}
        self.order = []
        self.funcs = []
        self.stats = {"names": 0, "attributes": 0, "calls": 0, "functions": 0, "modules": 0, "imports": 0}
        self.silent = 0
        self.given = {}
        self.star_core = {}
        for n, k in self.core.names.items():
            self.star_core[n] = {"class": lambda: T("cclass", k[1]), "func": lambda: T("cfunc", k[1]),
                                 "const": lambda: None}[k[0]]()
        self.coremod = Mod("pykep.core", os.path.join(REPO, "pykep", "core.cpp"))
        self.coremod.ns = self.star_core
        self.coremod.state = 2

    # --- modules -------------------------------------------------------------------------------------------------
    def find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name, at):
        """The module, executed abstractly on first import; None for anything outside of the package."""
        if name == "pykep.core":
            return self.coremod
        if name.split(".")[0] != "pykep":
            return None
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0], at)
            if name in self.mods:
                return self.mods[name]
        path = self.find(name)
        if path is None:
            gen = os.path.join(REPO, *name.split(".")) + ".py.in"
            if os.path.exists(gen):
                m = Mod(name, gen)
                m.state, m.ns = 2, None
                self.mods[name] = m
                self.bind_sub(name, m)
                return m
            self.bad("import:" + name, at, f"there is no module {name}")
            return None
        m = Mod(name, path)
        self.mods[name] = m
        if os.path.basename(path) in ("test.py", "test_trajopt.py"):
            m.ns, m.state = None, 2
            self.bind_sub(name, m)
            return m
        self.stats["modules"] += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
        m.state = 1
        sc = Scope("module", None, m, m.rel)
        sc.types = m.ns
        sc.maybe = set()
        m.scope = sc
        self.order.append(m)
        self.block(tree.body, sc)
        m.state = 2
        self.bind_sub(name, m)
        return m

    def bind_sub(self, name, m):
        if "." in name:
            par, n = name.rsplit(".", 1)
            p = self.mods.get(par)
            if p is not None and p.ns is not None:
                p.ns[n] = T("mod", m)
                if getattr(p, "scope", None) is not None and p.scope.maybe is not None:
                    p.scope.maybe.add(n)

    def bad(self, key, at, detail):
        if not self.silent:
            sc, node = at
            self.finding(f"{sc.mod.rel}: {key} in {sc.where}", f"{sc.mod.rel}:{getattr(node, 'lineno', 0)}", detail)

    # --- statements ----------------------------------------------------------------------------------------------
    def block(self, body, sc):
        for st in body:
            self.stmt(st, sc)

    def bind(self, name, t, sc):
        if name in sc.globals_:
            sc = self.mods[sc.mod.name].scope
        if name in sc.types and sc.kind != "module":
            t = join(sc.types[name], t)
        sc.types[name] = t
        if sc.maybe is not None:
            sc.maybe.add(name)

    def target(self, t, ty, sc):
        if isinstance(t, ast.Name):
            self.bind(t.id, ty, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                x = None
                if ty is not None and ty.kind == "tuple" and i < len(ty.v) and not any(
                        isinstance(q, ast.Starred) for q in t.elts):
                    x = ty.v[i]
                elif ty is not None and ty.kind == "list":
                    x = ty.v
                self.target(e, x, sc)
        elif isinstance(t, ast.Starred):
            self.target(t.value, None, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            self.attr(o, t, sc, store=True, ty=ty)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, sc)
            self.ev(t.slice, sc)

    def merge(self, sc, parts):
        """Runs the alternatives from the same state; what any of them binds may be bound afterwards."""
        if sc.maybe is None:
            for p in parts:
                p()
            return
        start = set(sc.maybe)
        out = set()
        for p in parts:
            sc.maybe = set(start)
            p()
            out |= sc.maybe
        sc.maybe = out

    def stmt(self, s, sc):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            m(s, sc)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, sc)
                elif isinstance(c, ast.stmt):
                    self.stmt(c, sc)

    def s_Assign(self, s, sc):
        t = self.ev(s.value, sc)
        for x in s.targets:
            self.target(x, t, sc)

    def s_AugAssign(self, s, sc):
        self.ev(s.value, sc)
        if isinstance(s.target, ast.Name):
            self.name(s.target, sc)
            self.bind(s.target.id, None, sc)
        else:
            self.ev(s.target, sc)
            self.target(s.target, None, sc)

    def s_AnnAssign(self, s, sc):
        if sc.kind != "function" or not isinstance(s.target, ast.Name):
            self.ev(s.annotation, sc)
        if s.value is not None:
            self.target(s.target, self.ev(s.value, sc), sc)

    def s_For(self, s, sc):
        it = self.ev(s.iter, sc)
        self.target(s.target, it.v if it is not None and it.kind == "list" else None, sc)

        def body():
            self.block(s.body, sc)
        self.merge(sc, [body, lambda: None])
        self.block(s.orelse, sc)
        # a second look: what the body binds late may be used early in the next round, and it has been reported already

    def prebind(self, body, sc):
        if sc.maybe is None:
            return
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    sc.maybe.add(n.id)

    def s_While(self, s, sc):
        self.prebind(s.body, sc)
        self.ev(s.test, sc)
        self.merge(sc, [lambda: self.block(s.body, sc), lambda: None])
        self.block(s.orelse, sc)

    def s_If(self, s, sc):
        self.ev(s.test, sc)
        v = self.decide(s.test)
        if v is not None:
            self.block(s.body if v else s.orelse, sc)
            return
        self.merge(sc, [lambda: self.block(s.body, sc), lambda: self.block(s.orelse, sc)])

    def decide(self, t):
        """Truth of a test on parameters whose value is being enumerated."""
        if not self.given:
            return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.decide(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.decide(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if isinstance(t, ast.Name):
            v = self.given.get(t.id)
            return v if isinstance(v, bool) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and \
                self.given.get(t.left.id) in ("none", "some"):
            v = self.given[t.left.id] == "none"
            return v if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not v if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) \
                else None
        return None

    def s_Try(self, s, sc):
        self.block(s.body, sc)
        parts = [lambda: self.block(s.orelse, sc)]
        for h in s.handlers:
            def run(h=h):
                if h.type is not None:
                    self.ev(h.type, sc)
                if h.name:
                    self.bind(h.name, None, sc)
                self.block(h.body, sc)
                if h.name and sc.maybe is not None:
                    sc.maybe.discard(h.name)
            parts.append(run)
        self.merge(sc, parts)
        self.block(s.finalbody, sc)

    s_TryStar = s_Try

    def s_With(self, s, sc):
        for i in s.items:
            self.ev(i.context_expr, sc)
            if i.optional_vars is not None:
                self.target(i.optional_vars, None, sc)
        self.block(s.body, sc)

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.name(t, sc)
                if sc.maybe is not None:
                    sc.maybe.discard(t.id)
                if sc.kind == "module":
                    sc.types.pop(t.id, None)
            else:
                self.ev(t, sc)

    def s_Global(self, s, sc):
        sc.globals_ |= set(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocals |= set(s.names)

    def s_Import(self, s, sc):
        for a in s.names:
            self.stats["imports"] += 1
            m = self.load(a.name, (sc, s))
            if a.asname:
                self.bind(a.asname, T("mod", m) if m is not None else None, sc)
            else:
                top = a.name.split(".")[0]
                t = self.mods.get(top) if top == "pykep" else None
                self.bind(top, T("mod", t) if t is not None else None, sc)

    def s_ImportFrom(self, s, sc):
        base = s.module or ""
        if s.level:
            pkg = sc.mod.name if sc.mod.path.endswith("__init__.py") else sc.mod.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit(".", 1)[0] if "." in pkg else ""
            base = pkg + ("." + s.module if s.module else "")
            if not base:
                self.bad("relative import", (sc, s), "reaches above the package")
                return
        m = self.load(base, (sc, s))
        for a in s.names:
            self.stats["imports"] += 1
            if m is None or m.ns is None:
                if a.name != "*":
                    self.bind(a.asname or a.name, None, sc)
                elif m is None or m.ns is None:
                    sc.star = True
                continue
            if a.name == "*":
                for n, t in list(m.ns.items()):
                    if not n.startswith("_"):
                        self.bind(n, t, sc)
                continue
            if a.name in m.ns:
                self.bind(a.asname or a.name, m.ns[a.name], sc)
                continue
            full = m.name + "." + a.name
            if full == "pykep.core":
                self.bind(a.asname or a.name, T("mod", self.coremod), sc)
                continue
            if m is not self.coremod and (self.find(full) or os.path.exists(
                    os.path.join(REPO, *full.split(".")) + ".py.in")):
                x = self.load(full, (sc, s))
                self.bind(a.asname or a.name, T("mod", x) if x is not None else None, sc)
                continue
            if a.name not in ("__version__",) and not getattr(getattr(m, "scope", None), "star", False):
                self.bad(f"import of {a.name} from {m.name}", (sc, s),
                         f"{m.name} does not define {a.name}" + (" at this point of the import" if m.state == 1 else ""))
            self.bind(a.asname or a.name, None, sc)

    def s_FunctionDef(self, s, sc):
        for d in s.decorator_list:
            self.ev(d, sc)
        self.args(s.args, sc)
        if s.returns is not None:
            self.ev(s.returns, sc)
        f = PyFunc(s, sc.mod, sc)
        f.types = self.param_types(s.args, sc)
        self.bind(s.name, T("pyfunc", f) if f.kind in ("function", "static") else None, sc)
        self.funcs.append(f)

    s_AsyncFunctionDef = s_FunctionDef

    def args(self, a, sc):
        for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
            self.ev(d, sc)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.annotation is not None:
                self.ev(x.annotation, sc)

    def param_types(self, a, sc):
        r = {}
        self.silent += 1
        allp = a.posonlyargs + a.args
        for x, d in list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            t = self.ev(d, sc) if d is not None else None
            if t is not None and (t.kind in ("cinst", "pyinst") or t.kind == "list" and t.v is not None
                                  and t.v.kind in ("cinst", "pyinst")):
                r[x.arg] = t
        for x in allp + a.kwonlyargs:
            if x.annotation is not None:
                t = self.ev(x.annotation, sc)
                if t is not None and t.kind == "cclass":
                    # an epoch may be given as a plain number; a planet or a leg may not
                    if t.v.name != "epoch":
                        r[x.arg] = T("cinst", t.v)
                    else:
                        r.pop(x.arg, None)
        self.silent -= 1
        if any(k for k in r if isinstance(r[k], T) and r[k].kind == "cinst" and r[k].v.name == "epoch"):
            r = {k: v for k, v in r.items() if not (v.kind == "cinst" and v.v.name == "epoch")}
        return r

    def s_ClassDef(self, s, sc):
        for d in s.decorator_list:
            self.ev(d, sc)
        c = PyClass(s, sc.mod, sc)
        for b in s.bases:
            t = self.ev(b, sc)
            if t is not None and t.kind == "pyclass":
                c.bases.append(t.v)
            elif isinstance(b, ast.Name) and b.id == "object":
                pass
            else:
                c.bases.append(None)
        if s.decorator_list or s.keywords:
            c.dynamic = True
        cs = Scope("class", sc, sc.mod, sc.where + "." + s.name if sc.kind != "module" else s.name)
        cs.maybe = set()
        before = len(self.funcs)
        self.block(s.body, cs)
        c.members = cs.types
        for f in self.funcs[before:]:
            if f.scope is cs:
                f.cls = c
        # what any method assigns to attributes of its first argument
        for f in self.funcs[before:]:
            if f.scope is not cs or f.kind == "static" or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    c.inst.setdefault(n.attr, "?")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                    c.dynamic = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    c.dynamic = True
        self.bind(s.name, T("pyclass", c), sc)

    def s_Return(self, s, sc):
        if s.value is not None:
            self.ev(s.value, sc)

    def s_Expr(self, s, sc):
        self.ev(s.value, sc)
        # setattr(planet, "extract", f) extends a class of the core
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "setattr" and len(v.args) == 3 \
                and isinstance(v.args[1], ast.Constant):
            self.silent += 1
            o, f = self.ev(v.args[0], sc), self.ev(v.args[2], sc)
            self.silent -= 1
            if o is not None and o.kind == "cclass":
                o.v.members[v.args[1].value] = ("patched", f)
            elif o is not None and o.kind == "pyclass":
                o.v.members[v.args[1].value] = f

    # --- names ---------------------------------------------------------------------------------------------------
    def name(self, n, sc):
        self.stats["names"] += 1
        s, first = sc, True
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if n.id in s.globals_:
                s = self.mods[s.mod.name].scope
            if s.kind == "function":
                if n.id in s.locals and n.id not in s.nonlocals:
                    if first and s.maybe is not None and n.id not in s.maybe:
                        self.bad(f"{n.id} used before any assignment", (sc, n),
                                 f"local {n.id} is not assigned on any path that reaches this use")
                    return s.types.get(n.id)
            elif s.kind == "comp":
                if n.id in s.types:
                    return s.types[n.id]
            elif n.id in s.types:
                return s.types[n.id]
            elif getattr(s, "star", False):
                return None
            if s.kind != "comp":
                first = False
            s = s.parent
        if n.id in BUILTINS:
            return None
        if sc.kind == "module" or not self.silent:
            self.bad(f"undefined name {n.id}", (sc, n), f"{n.id} is not defined in any enclosing scope")
        return None

    # --- expressions ---------------------------------------------------------------------------------------------
    def ev(self, e, sc):
        if e is None:
            return None
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e, sc)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, sc)
            elif isinstance(c, ast.keyword):
                self.ev(c.value, sc)
        return None

    def e_Name(self, e, sc):
        return self.name(e, sc) if isinstance(e.ctx, ast.Load) else None

    def e_Attribute(self, e, sc):
        return self.attr(self.ev(e.value, sc), e, sc)

    def e_List(self, e, sc):
        ts = [self.ev(x, sc) for x in e.elts]
        t = ts[0] if ts else None
        for x in ts[1:]:
            t = join(t, x)
        return T("list", t) if t is not None else None

    def e_Tuple(self, e, sc):
        return T("tuple", [self.ev(x, sc) for x in e.elts])

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        self.ev(e.slice, sc)
        if o is not None and o.kind == "list":
            return o if isinstance(e.slice, ast.Slice) else o.v
        if o is not None and o.kind == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                and -len(o.v) <= e.slice.value < len(o.v):
            return o.v[e.slice.value]
        return None

    def e_IfExp(self, e, sc):
        self.ev(e.test, sc)
        return join(self.ev(e.body, sc), self.ev(e.orelse, sc))

    def e_NamedExpr(self, e, sc):
        t = self.ev(e.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        self.target(e.target, t, s)
        return t

    def comp(self, e, sc, elts):
        s = Scope("comp", sc, sc.mod, sc.where)
        for i, g in enumerate(e.generators):
            it = self.ev(g.iter, sc if i == 0 else s)
            self.target(g.target, it.v if it is not None and it.kind == "list" else None, s)
            for c in g.ifs:
                self.ev(c, s)
        r = [self.ev(x, s) for x in elts]
        return r

    def e_ListComp(self, e, sc):
        r = self.comp(e, sc, [e.elt])
        return T("list", r[0]) if r[0] is not None else None

    def e_SetComp(self, e, sc):
        self.comp(e, sc, [e.elt])

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, sc):
        self.comp(e, sc, [e.key, e.value])

    def e_Lambda(self, e, sc):
        self.args(e.args, sc)
        s = Scope("function", sc, sc.mod, sc.where + ".<lambda>")
        a = e.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            s.locals.add(x.arg)
            s.types[x.arg] = None
        self.ev(e.body, s)
        return None

    def e_BinOp(self, e, sc):
        a, b = self.ev(e.left, sc), self.ev(e.right, sc)
        if isinstance(e.op, (ast.Add, ast.Sub)) and a is not None and a.kind == "cinst" and a.v.name == "epoch":
            return a if b is None else None
        if isinstance(e.op, ast.Add) and a is not None and a.kind == "list":
            return join(a, b)
        return None

    def e_Call(self, e, sc):
        f = self.ev(e.func, sc)
        args = [self.ev(a, sc) for a in e.args]
        for k in e.keywords:
            self.ev(k.value, sc)
        self.stats["calls"] += 1
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kws = [k.arg for k in e.keywords if k.arg is not None]
        dstar = any(k.arg is None for k in e.keywords)
        npos = len([a for a in e.args if not isinstance(a, ast.Starred)])
        if f is None:
            n = e.func.id if isinstance(e.func, ast.Name) else None
            if n == "super" and sc.kind in ("function", "comp"):
                s = sc
                while s is not None and not (s.kind == "function" and s.fn is not None and s.fn.cls is not None):
                    s = s.parent
                if s is not None and len(s.fn.cls.bases) == 1 and s.fn.cls.bases[0] is not None:
                    return T("pyinst", s.fn.cls.bases[0])
            if n == "enumerate" and args and args[0] is not None and args[0].kind == "list":
                return T("list", T("tuple", [None, args[0].v]))
            if n == "zip":
                return T("list", T("tuple", [a.v if a is not None and a.kind == "list" else None for a in args]))
            if n in ("list", "reversed", "sorted") and len(args) == 1 and args[0] is not None and args[0].kind == "list":
                return args[0]
            return None
        where = (sc, e)
        label = ast.unparse(e.func)
        if f.kind == "pyfunc":
            self.pycall(f.v, npos, kws, star, dstar, f.bound, where, label)
            return None
        if f.kind == "pyclass":
            ok, init = f.v.get("__init__")
            if ok and init is not None and init.kind == "pyfunc":
                self.pycall(init.v, npos, kws, star, dstar, True, where, label)
            elif not ok and f.v.known() and (npos or kws):
                self.bad(f"call of {label}", where, f"{label} takes no arguments")
            return T("pyinst", f.v)
        if f.kind == "cclass":
            if f.v.ctors and not f.v.enum:
                self.ccall(f.v.ctors, npos, kws, star, dstar, where, label)
            return T("cinst", f.v)
        if f.kind == "cfunc":
            self.ccall(f.v, npos, kws, star, dstar, where, label)
            return None
        if f.kind == "cmeth":
            self.ccall(f.v[1], npos, kws, star, dstar, where, label)
            return None
        if f.kind in ("cinst", "pyinst", "mod"):
            if f.kind == "pyinst" and (not f.v.known() or f.v.get("__call__")[0]):
                return None
            if f.kind == "cinst" and "__call__" in f.v.members:
                return None
            self.bad(f"call of {label}", where, f"{label} is not callable")
        return None

    def pycall(self, f, npos, kws, star, dstar, bound, at, label):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound and f.kind != "static":
            if not pos and a.vararg is None:
                self.bad(f"call of {label}", at, f"{label} is a method without the instance as parameter")
                return
            pos = pos[1:]
        ndef = len(a.defaults)
        names = set(pos[len(a.posonlyargs) - (1 if bound and f.kind != "static" and a.posonlyargs else 0):]) | {
            x.arg for x in a.kwonlyargs}
        if npos > len(pos) and a.vararg is None:
            self.bad(f"call of {label}", at, f"{npos} positional arguments given, {label} takes {len(pos)}")
        for k in kws:
            if k not in names and a.kwarg is None:
                self.bad(f"call of {label} with {k}", at, f"{label} has no parameter {k}")
            elif k in pos[:npos] and not star:
                self.bad(f"call of {label} with {k}", at, f"{k} is given both by position and by name")
        if len(kws) != len(set(kws)):
            self.bad(f"call of {label}", at, "a keyword is repeated")
        if not star and not dstar:
            for i, p in enumerate(pos[:len(pos) - ndef] if ndef else pos):
                if i >= npos and p not in kws:
                    self.bad(f"call of {label} without {p}", at, f"required parameter {p} is missing")
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and x.arg not in kws:
                    self.bad(f"call of {label} without {x.arg}", at, f"required parameter {x.arg} is missing")

    def ccall(self, sigs, npos, kws, star, dstar, at, label):
        if not sigs or any(s is None for s in sigs):
            if kws and sigs and all(s is None for s in sigs):
                self.bad(f"call of {label} with {kws[0]}", at, f"{label} takes no keywords")
            return
        for s in sigs:
            n = [x for x, _ in s]
            if npos > len(s) or any(k not in n[npos:] for k in kws):
                continue
            if star or dstar or all(d or i < npos or x in kws for i, (x, d) in enumerate(s)):
                return
        got = ", ".join([str(npos) + " positional"] + list(kws))
        self.bad(f"call of {label}", at, f"no signature of {label} accepts ({got}); they are "
                 + "; ".join("(" + ", ".join(x + ("=" if d else "") for x, d in s) + ")" for s in sigs))

    def attr(self, o, e, sc, store=False, ty=None):
        n = e.attr
        self.stats["attributes"] += 1
        if o is None:
            return None
        lab = ast.unparse(e)
        if o.kind == "mod":
            m = o.v
            if m.ns is None:
                return None
            if n in m.ns:
                return m.ns[n]
            if store:
                m.ns[n] = ty
                return None
            if n.startswith("__") or getattr(getattr(m, "scope", None), "star", False):
                return None
            full = m.name + "." + n
            if full == "pykep.core":
                return T("mod", self.coremod)
            if full in self.mods and self.mods[full].state:
                return T("mod", self.mods[full])
            self.bad(f"missing attribute {lab}", (sc, e),
                     f"{m.name} has no attribute {n}" + (" at this point of the import" if m.state == 1 else ""))
            return None
        if o.kind in ("cclass", "cinst"):
            c = o.v
            if n in OBJ:
                return None
            if n not in c.members:
                if store and (c.dynamic or o.kind == "cclass"):
                    if o.kind == "cclass":
                        c.members[n] = ("patched", ty)
                    return None
                if c.enum and n in ("name", "value", "__members__", "__entries"):
                    return None
                self.bad(f"missing attribute {lab}", (sc, e), f"{c.name.lstrip('_')} has no attribute {n}")
                return None
            k = c.members[n]
            if store:
                if k[0] == "prop" and not k[1] and o.kind == "cinst":
                    self.bad(f"assignment to {lab}", (sc, e), f"{n} of {c.name.lstrip('_')} cannot be written")
                return None
            if k[0] == "class":
                return T("cclass", k[1])
            if k[0] == "method" and o.kind == "cinst":
                return T("cmeth", (c, k[1]))
            if k[0] == "patched" and k[1] is not None and k[1].kind == "pyfunc":
                return T("pyfunc", k[1].v, bound=o.kind == "cinst")
            return None
        if o.kind in ("pyclass", "pyinst"):
            c = o.v
            if n in PYOBJ or not c.known():
                if o.kind == "pyinst" and not store:
                    ok, t = c.iget(n)
                    return self.member(ok, t, c, o)
                return None
            if store:
                return None
            ok, t = c.iget(n) if o.kind == "pyinst" else c.get(n)
            if not ok:
                self.bad(f"missing attribute {lab}", (sc, e), f"{c.node.name} has no attribute {n}")
                return None
            return self.member(ok, t, c, o)
        if o.kind == "list":
            if n not in dir(list) and o.v is not None and False:
                self.bad(f"missing attribute {lab}", (sc, e), f"a list has no attribute {n}")
            return None
        return None

    def member(self, ok, t, c, o):
        if not ok or t is None or t == "?":
            return None
        if t.kind == "pyfunc":
            return T("pyfunc", t.v, bound=o.kind == "pyinst")
        return t

    # --- function bodies -----------------------------------------------------------------------------------------
    def function(self, f):
        self.stats["functions"] += 1
        name = f.node.name if f.scope.kind == "module" else f.scope.where.split(".py")[-1].strip("/") + "." + f.node.name
        s = Scope("function", f.scope, f.mod, name, f)
        a = f.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]
        for n in self.stores(f.node.body):
            s.locals.add(n)
        for x in params:
            s.locals.add(x.arg)
        for st in ast.walk(f.node):
            if isinstance(st, ast.Global):
                s.locals -= set(st.names)
                s.globals_ |= set(st.names)
            elif isinstance(st, ast.Nonlocal):
                s.nonlocals |= set(st.names)

        def start():
            s.types = {}
            for x in params:
                s.types[x.arg] = f.types.get(x.arg)
            if f.cls is not None and f.kind in ("function", "property") and a.args:
                s.types[a.args[0].arg] = T("pyinst", f.cls)
            if f.cls is not None and f.kind == "classm" and a.args:
                s.types[a.args[0].arg] = T("pyclass", f.cls)
            s.maybe = {x.arg for x in params}
        # parameters reassigned in the body and loop variables: types are joined over all assignments first
        start()
        n0 = len(self.funcs)
        self.silent += 1
        self.block(f.node.body, s)
        types = s.types
        self.silent -= 1
        for g in self.funcs[n0:]:
            pass
        del self.funcs[n0:]
        start()
        s.types = types
        self.block(f.node.body, s)
        # every combination of the switches among the parameters
        allp = a.posonlyargs + a.args
        dom = []
        stored = self.stores(f.node.body)
        for x, d in list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and x.arg not in stored:
                if isinstance(d.value, bool):
                    dom.append((x.arg, (False, True)))
                elif d.value is None:
                    dom.append((x.arg, ("none", "some")))
        for vals in itertools.product(*[v for _, v in dom[:6]]) if dom else []:
            self.given = dict(zip([x for x, _ in dom], vals))
            n0 = len(self.funcs)
            start()
            s.types = dict(types)
            self.block(f.node.body, s)
            del self.funcs[n0:]
            self.stats["switch combinations"] = self.stats.get("switch combinations", 0) + 1
        self.given = {}
        s.maybe = None

    def stores(self, body):
        out = set()

        def visit(n, top):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        out.add(c.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add(al.asname or al.name.split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c, False)
        for st in body:
            visit(st, True)
        return out

    def inst_types(self):
        """Types of what constructors and methods store on their instance."""
        for f in [f for f in self.funcs if f.cls is not None and f.kind == "function" and f.node.args.args]:
            me = f.node.args.args[0].arg
            self.silent += 1
            s = Scope("function", f.scope, f.mod, f.node.name, f)
            s.locals = self.stores(f.node.body) | {x.arg for x in f.node.args.args}
            s.types = dict(f.types)
            s.types[me] = T("pyinst", f.cls)
            n0 = len(self.funcs)
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and \
                        isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == me:
                    t = self.ev(st.value, s)
                    n = st.targets[0].attr
                    f.cls.inst[n] = t if f.cls.inst.get(n) == "?" else join(f.cls.inst.get(n), t)
            del self.funcs[n0:]
            self.silent -= 1
        for f in self.funcs:
            if f.cls is not None:
                for n, t in f.cls.inst.items():
                    if t == "?":
                        f.cls.inst[n] = None

    def documented(self):
        """What the documentation presents as part of the package exists after a plain import."""
        for p in sorted(glob.glob(os.path.join(REPO, "doc", "*.rst"))):
            cur = "pykep"
            rel = os.path.relpath(p, REPO)
            for ln, l in enumerate(open(p, encoding="utf-8"), 1):
                w = l.split()
                if len(w) >= 3 and w[0] == ".." and w[1] in ("currentmodule::", "module::"):
                    cur = w[2]
                elif len(w) >= 3 and w[0] == ".." and w[1].startswith("auto") and w[1].endswith("::"):
                    full = w[2] if w[2].split(".")[0] == "pykep" else cur + "." + w[2]
                    if full.split(".")[0] != "pykep":
                        continue
                    self.stats["documented names"] = self.stats.get("documented names", 0) + 1
                    t = T("mod", self.mods["pykep"])
                    for part in full.split(".")[1:]:
                        if t is None or t.kind != "mod" or t.v.ns is None:
                            break
                        if part not in t.v.ns:
                            if t.v.name != "pykep" or not getattr(t.v.scope, "star", False):
                                self.finding(f"documented {full}", f"{rel}:{ln}",
                                             f"{t.v.name} ({t.v.rel}) does not define {part}")
                            break
                        t = t.v.ns[part]

    def run(self):
        root = Scope("module", None, Mod("pykep", os.path.join(REPO, "pykep", "__init__.py")), "import")
        self.load("pykep", (root, None))
        self.documented()
        # modules that the package does not import by itself
        for p in sorted(glob.glob(os.path.join(REPO, "pykep", "**", "*.py"), recursive=True)):
            n = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
            n = n[:-9] if n.endswith(".__init__") else n
            if n not in self.mods and os.path.basename(p) not in ("test.py", "test_trajopt.py"):
                self.load(n, (root, None))
        self.inst_types()
        i = 0
        while i < len(self.funcs):
            self.function(self.funcs[i])
            i += 1
        self.reached = [m.name for m in self.order]
        return self
