"""Models of what the Python package uses: the extension module, numpy, matplotlib's axes and the ephemerides packages.

Results of the extension module's numerical routines are uninterpreted functions of all their arguments."""
import ast
import math
import os
import re

from .build import REPO, AnalysisError
from .pycore import Core
from .pyi import (CUR, Arr, Bound, Class, Func, Inst, Interp, Module, Native, NClass, NObj, Opaque, PyRaise, Sym,
                  Unsupported, broadcast, bshape, div, dot, isnum, node, npsum, uf, un, wrap, D)


# --- constants ---------------------------------------------------------------------------------------------------------
def constants():
    """Values of include/kep3/core_astro/constants.hpp."""
    s = open(os.path.join(REPO, "include/kep3/core_astro/constants.hpp"), encoding="utf-8").read()
    s = re.sub(r"//[^\n]*|/\*.*?\*/", " ", s, flags=re.S)
    out = {}
    for m in re.finditer(r"(?:constexpr|const)\s+(?:static\s+)?(?:double|auto)\s+(\w+)\s*(?:=|\{)\s*([^;]*?)\}?\s*;", s):
        n, e = m.group(1), " ".join(m.group(2).split())
        e = re.sub(r"boost::math::constants::(?:double_constants::)?(\w+)(?:<\s*double\s*>\s*\(\s*\))?",
                   lambda k: {"pi": repr(math.pi), "half_pi": repr(math.pi / 2), "two_pi": repr(2 * math.pi)}.get(k.group(1), "?"), e)
        e = re.sub(r"\bstatic_cast<\s*double\s*>", "", e)
        e = re.sub(r"\bkep3::", "", e)
        e = re.sub(r"(?<=\d)'(?=\d)", "", e)
        try:
            t = ast.parse(e, mode="eval")
            for x in ast.walk(t):
                if not isinstance(x, (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Constant, ast.Name, ast.operator,
                                      ast.unaryop, ast.Load)):
                    raise ValueError(e)
            out[n] = float(eval(compile(t, "<constants>", "eval"), {"__builtins__": {}}, dict(out)))
        except (SyntaxError, ValueError, NameError, TypeError, ZeroDivisionError):
            continue
    if "AU" not in out or "DAY2SEC" not in out:
        raise AnalysisError("constants.hpp not understood")
    return out


# --- arguments ---------------------------------------------------------------------------------------------------------
def num(x, what="a number"):
    if isinstance(x, Arr) and x.size == 1 and not x.shape:
        x = x.item()
    if not isnum(x):
        raise TypeError(f"incompatible function arguments: {what} expected")
    return x


def vec(x, n=None):
    if isinstance(x, Arr):
        if x.ndim != 1:
            raise TypeError("incompatible function arguments: one-dimensional sequence expected")
        x = x.flat()
    if not isinstance(x, (list, tuple)):
        raise TypeError("incompatible function arguments: sequence expected")
    x = [num(v) for v in x]
    if n is not None and len(x) != n:
        raise TypeError(f"incompatible function arguments: {n} numbers expected, {len(x)} given")
    return x


def posvel(x):
    if isinstance(x, Arr):
        x = list(x)
    if not isinstance(x, (list, tuple)) or len(x) != 2:
        raise TypeError("incompatible function arguments: position and velocity expected")
    return [vec(x[0], 3), vec(x[1], 3)]


def bind(name, sig, args, kw):
    """Arguments of a binding by the signature(s) it declares; values in declaration order (None: default)."""
    for s in sig:
        if s is None:
            if not kw:
                return list(args)
            continue
        if len(args) > len(s):
            continue
        names = [n for n, _ in s]
        v = dict(zip(names, args))
        if any(k not in names or k in v for k in kw):
            continue
        v.update(kw)
        if any(n not in v and not d for n, d in s):
            continue
        return {n: v.get(n, Missing) for n in names}
    raise TypeError(f"{name}(): incompatible function arguments")


class Missing:
    pass


def get(b, n, default):
    v = b.get(n, Missing)
    return default if v is Missing else v


# --- the extension module ----------------------------------------------------------------------------------------------
class Epoch(NObj):
    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def get(self, n):
        if n == "mjd2000":
            return self.t
        if n == "mjd":
            return self.t + 51544
        if n == "jd":
            return self.t + 2451544.5
        raise AttributeError(f"epoch has no attribute {n}")

    def op_add(self, o): return Epoch(self.cls, self.t + num(o))

    def op_sub(self, o):
        return (self.t - o.t) if isinstance(o, Epoch) else Epoch(self.cls, self.t - num(o))

    def cmp(self, op, o):
        if not isinstance(o, Epoch):
            return NotImplemented
        a, b = self.t, o.t
        return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                "Gt": lambda: a > b, "GtE": lambda: a >= b}.get(op, lambda: NotImplemented)()

    def __deepcopy__(self, m): return Epoch(self.cls, self.t)
    def __format__(self, s): return "<epoch>"
    def __repr__(self): return "<epoch>"


class Enum:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, m):
        return self


class Udpla(NObj):
    """A planet description of the extension module."""

    def __init__(self, cls, label, data):
        self.cls, self.label, self.data = cls, label, data

    def get(self, n):
        if n == "ref_epoch" and "when" in self.data:
            return self.data["when"]
        raise AttributeError(f"{self.cls.name} has no attribute {n}")


def mjd(x):
    return x.t if isinstance(x, Epoch) else num(x, "an epoch or a number")


class Planet(NObj):
    """kep3::planet around a C++ description (uninterpreted) or an object of the interpreted program."""

    def __init__(self, cls, I, udpla):
        self.cls, self.I, self.udpla = cls, I, udpla
        if isinstance(udpla, Udpla):
            self.label = udpla.label
        elif isinstance(udpla, Inst):
            self.label = ("py", udpla.cls.name)
            if not I.has(udpla, "eph"):
                raise PyRaise(NotImplementedError("eph"), I.where())
        else:
            raise TypeError("planet(): a user-defined planet is expected")

    METHODS = {"eph", "eph_v", "get_name", "get_extra_info", "get_mu_central_body", "get_mu_self", "get_radius",
               "get_safe_radius", "period", "elements", "_py_extract", "_cpp_extract"}

    def get(self, n):
        if isinstance(self.cls.attrs.get(n), Func):
            return Bound(self.cls.attrs[n], self)
        if n not in self.METHODS:
            raise AttributeError(f"planet has no attribute {n}")
        return Native("planet." + n, getattr(self, "m_" + n))

    def leaf(self, what):
        return Sym(D().mk("uf_pl_" + what, (self.label,), None))

    def user(self, m, args, default):
        if isinstance(self.udpla, Inst):
            if self.I.has(self.udpla, m):
                return True, self.I.call(self.I.getattr(self.udpla, m), args, {})
            return True, default() if callable(default) else default
        return False, None

    def m_eph(self, when):
        t = mjd(when)
        py, r = self.user("eph", [t], None)
        if py:
            return posvel(r)
        self.I.eph_calls.append((self.label, t))
        e = [uf("eph", [t], self.label, i) for i in range(6)]
        return [e[:3], e[3:]]

    def m_eph_v(self, when):
        ts = [mjd(t) for t in (when.flat() if isinstance(when, Arr) else when)]
        if isinstance(self.udpla, Inst) and self.I.has(self.udpla, "eph_v"):
            r = self.I.call(self.I.getattr(self.udpla, "eph_v"), [Arr.of(ts)], {})
            r = r if isinstance(r, Arr) else Arr.of(r)
            return r.reshape((len(ts), 6))
        return Arr.of([[v for h in self.m_eph(t) for v in h] for t in ts]) if ts else Arr.new([], (0, 6))

    def m_get_name(self):
        py, r = self.user("get_name", [], "Python planet")
        return r if py else str(self.label)

    def m_get_extra_info(self):
        py, r = self.user("get_extra_info", [], "")
        return r if py else "<info>"

    def m_get_mu_central_body(self):
        py, r = self.user("get_mu_central_body", [], -1.0)
        if py:
            return num(r)
        if "mu_central_body" in self.udpla.data:
            return self.udpla.data["mu_central_body"]
        return Sym(D().mk("uf_pl_mucentral", (self.I.mu_group(self.label),), None))

    def _par(self, n):
        py, r = self.user("get_" + n, [], -1.0)
        return num(r) if py else self.leaf(n)

    def m_get_mu_self(self): return self._par("mu_self")
    def m_get_radius(self): return self._par("radius")
    def m_get_safe_radius(self): return self._par("safe_radius")

    def m_period(self, when=0.0):
        t = mjd(when)
        if isinstance(self.udpla, Inst) and not self.I.has(self.udpla, "period"):
            mu = self.m_get_mu_central_body()
            if not isinstance(mu, Sym) and mu <= 0:
                raise PyRaise(NotImplementedError("period"), self.I.where())
            e = self.m_eph(t)
            return uf("period_of", e[0] + e[1] + [mu])
        py, r = self.user("period", [t], None)
        return num(r) if py else uf("period", [t], self.label)

    def m_elements(self, when=0.0, el_type=None):
        return [uf("elements", [mjd(when)], self.label, i, repr(el_type)) for i in range(6)]

    def m__py_extract(self): return self.udpla if isinstance(self.udpla, Inst) else None
    def m__cpp_extract(self, t): return self.udpla if isinstance(self.udpla, Udpla) and t.cls is self.udpla.cls else None
    def __deepcopy__(self, m): return Planet(self.cls, self.I, self.udpla)
    def __format__(self, s): return "<planet>"
    def __repr__(self): return f"<planet {self.label}>"


class Lambert(NObj):
    def __init__(self, cls, d, nmax=None):
        self.cls, self.d = cls, d
        self.nmax = d["multi_revs"] if nmax is None else nmax

    def get(self, n):
        d = self.d
        if n in ("r0", "r1"):
            return list(d[n])
        if n in ("tof", "mu"):
            return d[n]
        if n in ("v0", "v1"):
            a = list(d["r0"]) + list(d["r1"]) + [d["tof"], d["mu"]]
            return [[uf("lambert_" + n, a, bool(d["cw"]), k, i) for i in range(3)] for k in range(2 * self.nmax + 1)]
        if n == "Nmax":
            return self.nmax
        if n in ("x", "iters"):
            a = list(d["r0"]) + list(d["r1"]) + [d["tof"], d["mu"]]
            return [uf("lambert_" + n, a, bool(d["cw"]), k) for k in range(2 * self.nmax + 1)]
        raise AttributeError(f"lambert_problem has no attribute {n}")

    def __format__(self, s): return "<lambert_problem>"


SF = ("rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut")


class Leg(NObj):
    """A Sims-Flanagan leg: values and derivatives of its constraints are uninterpreted functions of its parameters."""

    def __init__(self, cls, I, d, hf=False):
        self.cls, self.I, self.d, self.hf = cls, I, {}, hf
        for n in SF:
            self.set(n, d[n])
        self.tag = "hf" if hf else "sf"

    @property
    def nseg(self):
        return len(self.d["throttles"]) // 3

    @property
    def nfwd(self):
        c = self.d["cut"]
        if isinstance(c, Sym):
            raise Unsupported("number of segments from an unknown cut")
        return int(self.nseg * c)

    METHODS = ("compute_mismatch_constraints", "compute_throttle_constraints", "compute_mc_grad", "compute_tc_grad")

    def get(self, n):
        if n in ("rvs", "rvf"):
            return [list(v) for v in self.d[n]]
        if n == "throttles":
            return list(self.d[n])
        if n in self.d:
            return self.d[n]
        if n in ("rvms", "rvmf") and self.hf:
            rv = self.d["rvs" if n == "rvms" else "rvf"]
            return rv[0] + rv[1] + [self.d["ms" if n == "rvms" else "mf"]]
        if n == "nseg":
            return self.nseg
        if n == "nseg_fwd":
            return self.nfwd
        if n == "nseg_bck":
            return self.nseg - self.nfwd
        if n == "tol" and self.hf:
            return 1e-16
        if n in self.METHODS or (self.hf and n == "get_state_history"):
            return Native(self.cls.name + "." + n, getattr(self, "m_" + n))
        raise AttributeError(f"{self.cls.name} has no attribute {n}")

    def set(self, n, v):
        if n in ("rvs", "rvf"):
            self.d[n] = posvel(v)
        elif n == "throttles":
            v = vec(v)
            if len(v) % 3:
                raise PyRaise(ValueError("the throttles' length is not a multiple of 3"), self.I.where())
            self.d[n] = v
        elif n in SF:
            self.d[n] = num(v)
        elif n in ("rvms", "rvmf") and self.hf:
            v = vec(v, 7)
            self.d["rvs" if n == "rvms" else "rvf"] = [v[:3], v[3:6]]
            self.d["ms" if n == "rvms" else "mf"] = v[6]
        elif n == "tol" and self.hf:
            pass
        else:
            raise AttributeError(f"can't set attribute {n}")

    def inputs(self, mass=False):
        """[(name, index)] -> node, in a fixed order; the mass equation depends on masses, throttles, time and engine only."""
        d, out = self.d, []
        if not mass:
            out += [("xs", i, v) for i, v in enumerate(d["rvs"][0] + d["rvs"][1])]
        out.append(("xs", 6, d["ms"]))
        if not mass:
            out += [("xf", i, v) for i, v in enumerate(d["rvf"][0] + d["rvf"][1])]
        out.append(("xf", 6, d["mf"]))
        out += [("th", i, v) for i, v in enumerate(d["throttles"])]
        out.append(("th", len(d["throttles"]), d["tof"]))
        out += [("par", n, d[n]) for n in ("max_thrust", "isp") + (() if mass else ("mu",))]
        out.append(("par", "cut", d["cut"]))
        return out

    def m_compute_mismatch_constraints(self):
        r = []
        for i in range(7):
            inp = self.inputs(i == 6)
            r.append(uf("mc", [v for _, _, v in inp], self.tag, i, self.nseg))
        return r

    def m_compute_throttle_constraints(self):
        t = self.d["throttles"]
        return [uf("tc", t[3 * i:3 * i + 3]) for i in range(self.nseg)]

    def jac(self, i, kind, j):
        inp = self.inputs(i == 6)
        for k, (a, b, v) in enumerate(inp):
            if (a, b) == (kind, j):
                return Sym(D().mk("uf_jac", (k, "uf_mc", self.tag, i, self.nseg) + tuple(node(x) for _, _, x in inp), None))
        return 0.0

    def m_compute_mc_grad(self):
        n = 3 * self.nseg + 1
        return (Arr.of([[self.jac(i, "xs", j) for j in range(7)] for i in range(7)]),
                Arr.of([[self.jac(i, "xf", j) for j in range(7)] for i in range(7)]),
                Arr.of([[self.jac(i, "th", j) for j in range(n)] for i in range(7)]))

    def m_compute_tc_grad(self):
        t, n = self.d["throttles"], self.nseg
        return Arr.of([[Sym(D().mk("uf_jac", (j % 3, "uf_tc") + tuple(node(x) for x in t[3 * i:3 * i + 3]), None))
                        if j // 3 == i else 0.0 for j in range(3 * n)] for i in range(n)])

    def m_get_state_history(self, N):
        inp = [node(v) for _, _, v in self.inputs()]
        return [[Sym(D().mk("uf_hist", (s, k // 7, k % 7, N) + tuple(inp), None)) for k in range(7 * N)]
                for s in range(self.nseg)]

    def __deepcopy__(self, m): return Leg(self.cls, self.I, self.d, self.hf)
    def __format__(self, s): return "<leg>"


def flow(x, t, mu):
    """Arguments of a Keplerian propagation; the propagation of a propagated state is one over the sum of the times."""
    n = [v.n if isinstance(v, Sym) else None for v in x]
    m = node(mu)
    if all(v is not None and v.op == "uf_prop" and v.args[0] == i and v.args[1:] == n[0].args[1:] for i, v in enumerate(n)) \
            and n[0].args[-1] is m:
        base = n[0].args[1:]
        return flow([Sym(v) if v.op != "c" else v.args[0] for v in base[:6]], Sym(base[6]) + t, mu)
    if not isinstance(t, Sym) and t == 0:
        return list(x) + [None, mu]
    return list(x) + [t, mu]


def core_model(I):
    core = I.corenames
    I.eph_calls = []
    if not hasattr(I, "mu_group"):
        I.mu_group = lambda label: "sun"
    I.has = lambda o, n: n in o.attrs or o.cls.look(n) is not None
    ns = {}
    const = constants()
    for n, v in core.names.items():
        if v[0] == "const":
            ns[n] = const[n] if n in const else Enum(n)
        elif v[0] == "func":
            ns[n] = Native(n, unmodelled(n))
        else:
            ns[n] = Opaque("pykep.core." + n)

    def sig(n):
        v = core.names.get(n)
        return v[1] if v and v[0] == "func" else v[1].ctors if v else []

    # epoch
    E = NClass("epoch", None)
    jt = {k: Enum("julian_type." + k) for k in ("MJD2000", "MJD", "JD")}
    E.attrs["julian_type"] = Module("julian_type")
    E.attrs["julian_type"].ns.update(jt)
    E.attrs["string_format"] = Module("string_format")
    E.attrs["string_format"].ns["ISO"] = Enum("ISO")
    for m in (E.attrs["julian_type"], E.attrs["string_format"]):
        m.opaque = False

    def mk_epoch(*a, **k):
        b = bind("epoch", sig("epoch"), a, k)
        w, t = b["when"], get(b, "julian_type", jt["MJD2000"])
        if isinstance(w, str):
            return Epoch(E, Sym(D().mk("uf_epoch", (w,), None)))
        if isinstance(w, Opaque):
            return Epoch(E, Sym(D().mk("uf_epoch", (w.label,), None)))
        w = num(w)
        off = {"julian_type.MJD2000": 0, "julian_type.MJD": 51544, "julian_type.JD": 2451544.5}.get(repr(t))
        if off is None:
            raise TypeError("epoch(): incompatible function arguments")
        return Epoch(E, w - off if off else w)
    E.make = mk_epoch
    E.attrs["now"] = Native("now", lambda: Epoch(E, Sym(D().mk("uf_epoch", ("now",), None))))
    ns["epoch"] = E

    # planet
    P = NClass("planet", None)
    P.make = lambda *a, **k: Planet(P, I, bind("planet", sig("planet"), a, k)["udpla"])
    ns["planet"] = P

    def udpla(name, keys):
        C = NClass(name, None)
        C.attrs["_pykep_cpp_udpla"] = True

        def make(*a, **k):
            if not a and not k:
                return Udpla(C, (name,), {})
            b = bind(name, sig(name), a, k)
            d = {n: v for n, v in b.items() if v is not Missing}
            lab = [name]
            for n, v in d.items():
                if isinstance(v, str):
                    lab.append((n, v.lower() if n == "body" else v))
                elif isinstance(v, Enum):
                    lab.append((n, v.name))
                elif n == "added_params":
                    d[n] = vec(v)
                elif isinstance(v, Epoch):
                    lab.append((n, node(v.t).id))
                elif isnum(v):
                    d[n] = num(v)
                    lab.append((n, node(v).id))
                else:
                    f = Arr.of(v).flat()
                    if len(f) != 6:
                        raise TypeError(f"{name}(): incompatible function arguments")
                    lab.append((n,) + tuple(node(x).id for x in f))
            return Udpla(C, tuple(lab), d)
        C.make = make
        ns[name] = C
    for n, v in core.names.items():
        if v[0] == "class" and "_pykep_cpp_udpla" in v[1].members:
            udpla(n, ())

    # lambert
    L = NClass("lambert_problem", None)

    def mk_lambert(*a, **k):
        b = bind("lambert_problem", sig("lambert_problem"), a, k)
        d = {"r0": vec(get(b, "r0", [1., 0., 0.]), 3), "r1": vec(get(b, "r1", [0., 1., 0.]), 3),
             "tof": num(get(b, "tof", math.pi / 2)), "mu": num(get(b, "mu", 1.)), "cw": get(b, "cw", False),
             "multi_revs": get(b, "multi_revs", 1)}
        I.lamberts.append(d)
        return Lambert(L, d)
    L.make = mk_lambert
    I.lamberts = []
    ns["lambert_problem"] = L

    # legs
    def leg(name, hf):
        C = NClass(name, None)

        def make(*a, **k):
            b = bind(name, sig(name), a, k)
            df = {"rvs": [[1., 0., 0.], [0., 1., 0.]], "ms": 1., "throttles": [0.] * 6, "rvf": [[0., 1., 0.], [-1., 0., 0.]],
                  "mf": 1., "tof": math.pi / 2, "max_thrust": 1., "isp": 1., "mu": 1., "cut": 0.5}
            return Leg(C, I, {n: get(b, n, df[n]) for n in SF}, hf)
        C.make = make
        ns[name] = C
    leg("_sims_flanagan", False)
    leg("_sims_flanagan_hf", True)

    def prop(*a, **k):
        b = bind("propagate_lagrangian", sig("propagate_lagrangian"), a, k)
        rv = posvel(get(b, "rv", [[1, 0, 0], [0, 1, 0]]))
        args = flow(rv[0] + rv[1], num(get(b, "tof", math.pi / 2)), num(get(b, "mu", 1)))
        if args[6] is None:
            e = args[:6]
            return ([e[:3], e[3:]], Arr.of([[float(i == j) for j in range(6)] for i in range(6)])) \
                if I.truth(get(b, "stm", False)) else (e[:3], e[3:])
        e = [uf("prop", args, i) for i in range(6)]
        if I.truth(get(b, "stm", False)):
            args = rv[0] + rv[1] + [num(get(b, "tof", math.pi / 2)), num(get(b, "mu", 1))]
            return ([e[:3], e[3:]], Arr.of([[uf("prop_stm", args, i, j) for j in range(6)] for i in range(6)]))
        return (e[:3], e[3:])
    ns["propagate_lagrangian"] = Native("propagate_lagrangian", prop)

    def fb(name):
        def f(*a, **k):
            if not a and not k:
                raise TypeError(name)
            for s in sig(name):
                try:
                    b = bind(name, [s], a, k)
                except TypeError:
                    continue
                if "planet" in b:
                    if not isinstance(b["planet"], Planet):
                        continue
                    p = [b["planet"].m_get_mu_self(), b["planet"].m_get_safe_radius()]
                else:
                    p = [num(b["mu"]), num(b["safe_radius"])]
                return uf(name, vec(b["v_rel_in"], 3) + vec(b["v_rel_out"], 3) + p)
            raise TypeError(name + "(): incompatible function arguments")
        return f
    for n in ("fb_dv", "fb_con"):
        ns[n] = Native(n, fb(n))
    return ns


def unmodelled(n):
    def f(*a, **k):
        flat = []
        for x in list(a) + list(k.values()):
            if isnum(x):
                flat.append(x)
            elif isinstance(x, (list, tuple, Arr)):
                flat += Arr.of(x).flat()
            else:
                raise Unsupported(n)
        return uf("core_" + n, flat)
    return f


# --- numpy -------------------------------------------------------------------------------------------------------------
def numpy_model(I):
    A = Arr.of

    def arr(x, *a, **k):
        if isinstance(x, Opaque):
            return x
        return A(list(CUR[0].iter(x)) if not isinstance(x, (Arr, int, float, Sym)) else x)

    def filled(v):
        def f(shape, *a, **k):
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            return Arr.new([v] * math.prod(shape), shape)
        return f

    def linspace(a, b, N=50, **k):
        N = k.pop("num", N)
        if k:
            raise Unsupported("linspace")
        if not isinstance(N, int):
            raise TypeError("linspace: integer expected")
        a, b = num(a), num(b)
        if N == 1:
            return A([a])
        return A([CUR[0].binop(ast.Add(), a, CUR[0].binop(ast.Div(), (b - a) * i, N - 1)) for i in range(N)])

    def cross(a, b):
        a, b = A(a).flat(), A(b).flat()
        if len(a) != 3 or len(b) != 3:
            raise ValueError("incompatible dimensions for cross product")
        return A([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def norm(x, *a, **k):
        if a or k:
            raise Unsupported("norm")
        f = A(x).flat()
        s = 0.0
        for v in f:
            s = v * v if isinstance(s, float) and s == 0 else s + v * v
        return un("sqrt", s)

    def insert(x, i, v):
        f = list(A(x).flat())
        vs = A(v).flat()
        if not isinstance(i, int):
            raise Unsupported("insert")
        return A(f[:i] + vs + f[i:])

    def cumsum(x):
        out, s = [], None
        for v in A(x).flat():
            s = v if s is None else s + v
            out.append(s)
        return A(out)

    def elementwise(op):
        return lambda x: un(op, x)

    def two(op):
        def f(x, y):
            if isinstance(x, (Arr, list, tuple)) or isinstance(y, (Arr, list, tuple)):
                x, y = A(x), A(y)
                sh = bshape(x.shape, y.shape)
                return Arr.new([f(p, q) for p, q in zip(broadcast(x, sh), broadcast(y, sh))], sh)
            p, q = node(x), node(y)
            if op in ("fmin", "fmax"):
                p, q = sorted((p, q), key=lambda n: n.id)
            return wrap(D().mk(op, (p, q), None))
        return f

    def clip(x, a, b):
        if isinstance(x, Arr):
            return x.map(lambda v: clip(v, a, b))
        return Sym(D().mk("uf_clip", (node(x), node(a), node(b)), None)) if isinstance(x, Sym) else min(max(x, a), b)

    def repeat(x, n, axis=None):
        x = A(x)
        if axis is None:
            return A([v for v in x.flat() for _ in range(n)])
        if axis == 0:
            return A([r.tolist() if isinstance(r, Arr) else r for r in x for _ in range(n)])
        raise Unsupported("repeat")

    def hstack(xs):
        xs = [A(x) for x in CUR[0].iter(xs)]
        if all(x.ndim <= 1 for x in xs):
            return A([v for x in xs for v in x.flat()])
        if len({len(x) for x in xs}) != 1:
            raise ValueError("all the input array dimensions must match exactly")
        return A([[v for x in xs for v in x[i].flat()] for i in range(len(xs[0]))])

    def vstack(xs):
        xs = [A(x) for x in CUR[0].iter(xs)]
        return A([r for x in xs for r in ([x.tolist()] if x.ndim == 1 else x.tolist())])

    def concat(xs, axis=0):
        xs = [A(x) for x in CUR[0].iter(xs)]
        if axis == 0:
            return A([v.tolist() if isinstance(v, Arr) else v for x in xs for v in x])
        return hstack(xs)

    def diff(x):
        f = A(x).flat()
        return A([b - a for a, b in zip(f, f[1:])])

    def arange(*a):
        return A(list(range(*a)))

    nt = Native
    ns = {"array": nt("array", arr), "asarray": nt("asarray", lambda x, *a, **k: x if isinstance(x, Arr) else arr(x)),
          "zeros": nt("zeros", filled(0.0)), "ones": nt("ones", filled(1.0)), "empty": nt("empty", filled(0.0)),
          "linspace": nt("linspace", linspace), "cross": nt("cross", cross), "dot": nt("dot", dot),
          "insert": nt("insert", insert), "cumsum": nt("cumsum", cumsum), "repeat": nt("repeat", repeat),
          "append": nt("append", lambda x, v: A(A(x).flat() + A(v).flat())),
          "hstack": nt("hstack", hstack), "vstack": nt("vstack", vstack), "concatenate": nt("concatenate", concat),
          "diff": nt("diff", diff), "arange": nt("arange", arange), "clip": nt("clip", clip),
          "sum": nt("sum", lambda x, axis=None: npsum(x if isinstance(x, Arr) else A(x), axis)),
          "prod": nt("prod", lambda x: __import__("functools").reduce(lambda a, b: a * b, A(x).flat(), 1.0)),
          "reshape": nt("reshape", lambda x, s: A(x).reshape(s)), "transpose": nt("transpose", lambda x: A(x).T),
          "outer": nt("outer", lambda a, b: A([[x * y for y in A(b).flat()] for x in A(a).flat()])),
          "matmul": nt("matmul", dot), "copy": nt("copy", lambda x: A(x)), "eye": nt("eye", lambda n: A(
              [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])),
          "identity": nt("identity", lambda n: A([[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])),
          "abs": nt("abs", elementwise("fabs")), "fabs": nt("fabs", elementwise("fabs")),
          "maximum": nt("maximum", two("fmax")), "minimum": nt("minimum", two("fmin")), "arctan2": nt("arctan2", two("atan2")),
          "power": nt("power", lambda a, b: CUR[0].binop(ast.Pow(), A(a) if isinstance(a, (list, tuple)) else a, b)),
          "square": nt("square", lambda a: (A(a) if isinstance(a, (list, tuple)) else a) ** 2),
          "deg2rad": nt("deg2rad", lambda a: (A(a) if isinstance(a, (list, tuple)) else a) * (math.pi / 180)),
          "rad2deg": nt("rad2deg", lambda a: (A(a) if isinstance(a, (list, tuple)) else a) * (180 / math.pi)),
          "hypot": nt("hypot", lambda a, b: un("sqrt", a * a + b * b)),
          "flip": nt("flip", lambda x: A(x)[::-1]), "atleast_1d": nt("atleast_1d", lambda x: A(x) if A(x).shape else A([x])),
          "pi": math.pi, "inf": math.inf, "nan": math.nan, "e": math.e, "float64": float, "ndarray": Arr,
          "size": nt("size", lambda x: A(x).size), "shape": nt("shape", lambda x: A(x).shape), "newaxis": None}
    for n, o in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"),
                 ("arccos", "acos"), ("arcsin", "asin"), ("arctan", "atan"), ("sinh", "sinh"), ("cosh", "cosh"),
                 ("tanh", "tanh"), ("floor", "floor"), ("ceil", "ceil"), ("arcsinh", "asinh"), ("arccosh", "acosh"),
                 ("arctanh", "atanh"), ("negative", "neg"), ("absolute", "fabs")):
        ns[n] = nt(n, elementwise(o))
    la = Module("numpy.linalg")
    la.ns["norm"] = nt("norm", norm)
    la.opaque = False
    ns["linalg"] = la
    return ns


def dcopy(x, memo=None):
    if isinstance(x, list):
        return [dcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(dcopy(v) for v in x)
    if isinstance(x, dict):
        return {k: dcopy(v) for k, v in x.items()}
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, Inst):
        o = Inst(x.cls)
        o.attrs = {k: dcopy(v) for k, v in x.attrs.items()}
        return o
    if isinstance(x, NObj) and hasattr(x, "__deepcopy__"):
        return x.__deepcopy__({})
    return x


def scopy(x):
    if isinstance(x, (list, dict, set)):
        return type(x)(x)
    return dcopy(x) if isinstance(x, (Arr, NObj)) else x


def bisect(left):
    def f(a, x, lo=0, hi=None):
        a = a.flat() if isinstance(a, Arr) else list(a)
        hi = len(a) if hi is None else hi
        # a sorted sequence is searched: the place is the number of elements below x
        i = lo
        while i < hi and (CUR[0].compare("lt", a[i], x) if left else CUR[0].compare("le", a[i], x)):
            i += 1
        return i
    return f


class Axes(NObj):
    """matplotlib axes: records what is drawn."""

    def __init__(self):
        self.calls = []
        self.cls = "Axes3D"

    def get(self, n):
        return Native("axes." + n, lambda *a, **k: self.calls.append((n, a, k, CUR[0].where())))

    def set(self, n, v):
        pass

    def __format__(self, s): return "<axes>"


def natives(extra=None):
    """Models of third-party modules by name."""
    N = Native

    def spice(I):
        def spkezr(body, et, frame, corr, obs):
            if isinstance(et, (Arr, list, tuple)):
                es = et.flat() if isinstance(et, Arr) else list(et)
                return ([A6(body, t, frame, corr, obs) for t in es], [0.0 for _ in es])
            return (A6(body, et, frame, corr, obs), 0.0)

        def A6(body, t, frame, corr, obs):
            return Arr.of([uf("spice", [t], body, frame, corr, obs, i) for i in range(6)])
        def pxform(a, b, t):
            return Arr.of([[uf("pxform", [t], a, b, 3 * i + j) for j in range(3)] for i in range(3)])
        I.kernels = []
        return {"spkezr": N("spkezr", spkezr), "pxform": N("pxform", pxform), "bodn2c": N("bodn2c", lambda n: ("naif", n)),
                "furnsh": N("furnsh", lambda p: I.kernels.append(("load", p))),
                "unload": N("unload", lambda p: I.kernels.append(("unload", p)))}

    def sgp4(I):
        class Sat(NObj):
            def __init__(self, l1, l2):
                self.tag = (l1, l2)
                self.cls = "Satrec"

            def get(self, n):
                if n in ("jdsatepoch", "jdsatepochF"):
                    return Sym(D().mk("uf_sat_" + n, self.tag, None))
                if n == "satnum_str":
                    return "<satnum>"
                if n == "sgp4":
                    return N("sgp4", lambda jd, fr: (0, tuple(self.st(jd, fr)[:3]), tuple(self.st(jd, fr)[3:])))
                if n == "sgp4_array":
                    def f(jd, fr):
                        if not (isinstance(jd, Arr) and isinstance(fr, Arr)) or jd.size != fr.size:
                            raise ValueError("sgp4_array: arrays of the same length expected")
                        s = [self.st(a, b) for a, b in zip(jd.flat(), fr.flat())]
                        return (Arr.of([0] * len(s)), Arr.of([x[:3] for x in s]), Arr.of([x[3:] for x in s]))
                    return N("sgp4_array", f)
                return Opaque("Satrec." + n)

            def st(self, jd, fr):
                # only the sum of the two parts matters
                return [uf("sgp4", [jd + fr], self.tag, i) for i in range(6)]
        S = NClass("Satrec", None)
        S.attrs["twoline2rv"] = N("twoline2rv", lambda a, b: Sat(a, b))
        return {"Satrec": S, "exporter": Opaque("exporter")}

    def exporter(I):
        m = Module("sgp4.exporter")
        m.opaque = True
        m.ns["export_tle"] = N("export_tle", lambda s: ("line1", "line2"))
        return {"exporter": m}

    def plt(I):
        def figure(**k):
            class Fig(NObj):
                cls = "Figure"

                def get(self, n):
                    if n == "add_subplot":
                        return N("add_subplot", lambda *a, **q: Axes())
                    return N(n, lambda *a, **q: None)
            return Fig()
        return {"figure": N("figure", figure)}

    d = {
        "numpy": numpy_model,
        "copy": lambda I: {"deepcopy": N("deepcopy", dcopy), "copy": N("copy", scopy)},
        "bisect": lambda I: {"bisect_left": N("bisect_left", bisect(True)), "bisect_right": N("bisect_right", bisect(False)),
                             "bisect": N("bisect", bisect(False))},
        "math": lambda I: {**{n: N(n, lambda x, o=o: un(o, num(x))) for n, o in (
            ("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("sin", "sin"), ("cos", "cos"), ("acos", "acos"),
            ("fabs", "fabs"), ("floor", "floor"), ("atan", "atan"), ("tan", "tan"))}, "pi": math.pi, "inf": math.inf,
            "atan2": N("atan2", lambda y, x: wrap(D().mk("atan2", (node(y), node(x)), None)))},
        "typing": lambda I: {n: Opaque(n) for n in ("Any", "Dict", "List", "Tuple", "Union", "Optional", "Callable",
                                                     "Sequence")},
        "os": lambda I: {"name": "posix"},
        "sys": lambda I: {"version_info": (3, 12, 0), "platform": "linux"},
        "matplotlib.pyplot": plt,
        "spiceypy": spice,
        "sgp4.api": sgp4,
        "sgp4": exporter,
    }
    d.update(extra or {})
    return d


def interp(assume=None, mu_group=None, **kw):
    I = Interp(natives(), core_model, assume, **kw)
    I.corenames = Core()
    if mu_group:
        I.mu_group = mu_group
    return I
