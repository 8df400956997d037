"""The stand-in for heyoka's VSOP2013 model: an opaque function of planet, time and threshold, compiled and looked up."""
from .client import *
from .dag import Node
from .interp import FuncRef, Ptr
from . import hy
from .sf import h

F64 = ("l", "double", 8)
NAMES = ["mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto", "Venus", "moon", ""]


def model(I, mod, dem, args, ins):
    if not all(isinstance(a, int) for a in args[:2]):
        return I.fresh("unk", "vsop")
    return I.dag.mk("hvsop", (args[0], args[1], I.fl(args[2]), I.fl(args[3])), I.mkloc(mod, ins))


def mu(I, mod, dem, args, ins):
    return I.dag.leaf(f"vsop mu {args[0]}")


def subst(I, n, x, y, loc):
    """n with y for the variable x."""
    d = I.dag
    if n is x:
        return y
    if n.op in ("c", "in"):
        return n
    if n.op in ("add", "mul", "sub", "div") and len(n.args) == 2:
        a = [subst(I, k, x, y, loc) for k in n.args]
        return None if None in a else d.bin(n.op, *a, loc)
    if n.op == "neg":
        a = subst(I, n.args[0], x, y, loc)
        return None if a is None else d.neg(a, loc)
    if n.op == "hvsop":
        a = subst(I, n.args[2], x, y, loc)
        return None if a is None else d.mk("hvsop", n.args[:2] + (a, n.args[3]), n.loc)
    return None


def lookup(I, mod, dem, args, ins):
    name, outs, n, v = args
    at = lambda p, i: I.fl(I.load_leaf(Ptr(p.obj, p.off + 8 * i), "double", 8))
    ns = [at(outs, i) for i in range(n if isinstance(n, int) else 0)]
    v = I.fl(v)
    key = "kv_jit " + " ".join(str(x.id) for x in ns + [v])

    def call(I, mod, dem, args, ins):
        t = at(args[1], 0)
        loc = I.mkloc(mod, ins)
        for i, x in enumerate(ns):
            r = subst(I, x, v, t, loc)
            I.store(F64, r if r is not None else I.fresh("unk", "jit"), Ptr(args[0].obj, args[0].off + 8 * i))
        return None
    I.intercepts[key] = call
    return FuncRef(None, key)


IC = dict(hy.SYM, kv_hy_vsop=model, kv_hy_vsop_mu=mu, kv_hy_lookup=lookup)


def hook(ev, n, g=None, nd=None):
    if n.op == "hvsop" and g is None:
        a = n.args
        return h(ev.seed, "vsop", a[0], a[1], ev.num(a[2]), ev.num(a[3]))
    return None


def prog():
    return program(["d_vsop", "d_string"], ["udpla/vsop2013.cpp"])
