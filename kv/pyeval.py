"""Algebraic value numbering of results of the Python interpreter."""
from .dag import Node
from .field import Eval, P, Reject, inv, sqrt
from .pyi import CUR, Arr, Sym, isnum


# positive by meaning
POSITIVE = {"uf_pl_mucentral", "uf_pl_mu_self", "uf_pl_radius", "uf_pl_safe_radius", "uf_period", "uf_period_of"}


class Pos(dict):
    """Positive values for the inputs named in POSNAMES."""

    def __init__(self, s):
        self.s = s

    def __contains__(self, n):
        return any(n.startswith(p) if p.endswith("*") else n == p for p in POSNAMES)

    def __getitem__(self, n):
        import hashlib
        h = int.from_bytes(hashlib.blake2b(repr((self.s, n)).encode(), digest_size=8).digest(), "little") % P
        return h * h % P


POSNAMES = {"units", "mu", "ms", "msc", "rsc", "vsc", "rp", "xa*", "a*", "isp", "max_thrust", "tof", "mf"}


def hook(mu=None):
    """Uninterpreted derivatives, and the ephemerides as Keplerian motion around mu (a node)."""
    def h(ev, n, g=None, nd=None):
        if n.op == "uf_jac":
            if g is not None:
                return None
            j, a = n.args[0], n.args[1:]
            return ev.prf("dop", a[0], j, tuple(ev.v[x.id] if isinstance(x, Node) else x for x in a[1:]))
        if n.op in ("fmin", "fmax") and g is None:
            return ev.prf(n.op, tuple(sorted(ev.v[x.id] for x in n.args)))
        if n.op in POSITIVE and g is None:
            r = ev.prf("positive", n.op, tuple(ev.v[x.id] if isinstance(x, Node) else x for x in n.args))
            return r * r % P
        if n.op == "uf_eph" and g is not None and mu is not None:
            lab, i, t = n.args
            e = [ev.prf("op", "uf_eph", (lab, k, ev.v[t.id])) for k in range(6)]
            if i < 3:
                k = e[3 + i] * 86400
            else:
                r = sqrt(sum(x * x for x in e[:3]))
                k = -ev.num(mu) * e[i - 3] * inv(r * r * r) * 86400
            return tuple(k * x % P for x in g[t.id])
        return None
    return h


def samples(f, n=2, mu=None, tries=3000, assign=None):
    """f(ev) on n samples; None if no sample is admitted."""
    out = []
    for s in range(tries):
        ev = Eval(7919 * s + 13, assign=assign or Pos(s), hook=hook(mu))
        try:
            out.append(f(ev))
        except Reject:
            continue
        if len(out) == n:
            return out
    return None


def flat(x):
    """Numbers in a nested value."""
    if isinstance(x, Arr):
        return x.flat()
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    if isinstance(x, dict):
        return [v for y in x.values() for v in flat(y)]
    return [x]


def nd(I, x):
    """A number as node outside the interpretation."""
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, Arr):
        x = x.item()
    return I.dag.const(float(x))


def differ(I, a, b, mu=None, tries=3000):
    """Index of the first pair of numbers that differ; -1 if none, None if undecided, or a length mismatch as text."""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return f"{len(a)} numbers, {len(b)} expected"
    bad = [i for i, (x, y) in enumerate(zip(a, b)) if not (isnum(x) and isnum(y)) or isinstance(x, bool) != isinstance(y, bool)]
    if bad:
        return bad[0]
    na, nb = [nd(I, x) for x in a], [nd(I, x) for x in b]
    todo = [i for i in range(len(a)) if na[i] is not nb[i]]
    if not todo:
        return -1

    def f(ev):
        return next((i for i in todo if ev.num(na[i]) != ev.num(nb[i])), -1)
    r = samples(f, mu=mu, tries=tries)
    if r is None:
        return None
    return max(r)
