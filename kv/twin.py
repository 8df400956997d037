"""Relational value numbering: the same trace evaluated on an input and on its image under a symmetry.

Both evaluations share all uninterpreted symbols, so what differs between them is due to the symmetry alone: outputs
must be the image of the outputs, scalars that are compared keep their sign, and a root stays a root."""
from .dag import topo
from .field import Eval, P, Reject, inv, isqr
from .interp import locof
from .report import where

BIG = 1e300


def opaque(nodes):
    """Depends on values the analysis knows nothing about (loop-carried or returned by unknown calls)?"""
    return any(n.op in ("unk", "loop", "loopmem", "leaf") for n in topo(list(nodes)))


def twin(ev, assign, byid):
    b = dict(ev.byid)
    b.update(byid)
    return Eval(ev.seed, assign, b, ev.hook)


def half_powers(s):
    """s = square: (sqrt-able) returns function exponent(half-integer numerator)->value."""
    r = s[0]          # square root of the scale
    return lambda k: pow(r if k >= 0 else inv(r), abs(k), P)


class Dims:
    """A change of units: factors for length, time, mass, each the square of a random residue."""

    def __init__(self, rng):
        self.r = []
        for _ in range(3):
            while True:
                x = rng.randrange(2, P)
                if isqr(x):
                    break
            self.r.append(x)

    def f(self, L=0, T=0, M=0):
        """Factor of a quantity of the given (half-integer) dimension."""
        v = 1
        for r, k in zip(self.r, (L, T, M)):
            k = int(round(2 * k))
            v = v * pow(r if k >= 0 else inv(r), abs(k), P) % P
        return v

    def table(self, n=16):
        """All factors with half-integer exponents up to n/2."""
        if not hasattr(self, "_t"):
            t = {}
            pw = [{k: pow(r if k >= 0 else inv(r), abs(k), P) for k in range(-n, n + 1)} for r in self.r]
            for a, x in pw[0].items():
                for b, y in pw[1].items():
                    xy = x * y % P
                    for c, z in (pw[2].items() if abs(a) + abs(b) <= 12 else ((0, 1),)):
                        t.setdefault(xy * z % P, (a / 2, b / 2, c / 2))
            self._t = t
        return self._t
