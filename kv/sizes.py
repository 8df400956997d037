"""Sizes the code singles out.

A check that enumerates small sizes 1..N asks which further sizes the code itself distinguishes: a quantity that grows
with the size and is compared with (or reduced modulo, masked by, narrowed to) one that does not.  The size at which the
two meet is extrapolated from the enumerated ones and analysed as well."""
from . import interp
from .report import where


class Sizes:
    def __init__(self, limit=130):
        self.limit = limit
        self.logs = {}

    def at(self, n):
        """Record the comparisons made from here to the end of the with block as those of size n."""
        s = self

        class C:
            def __enter__(self):
                interp.LOG = s.logs.setdefault(n, {})

            def __exit__(self, *a):
                interp.LOG = None
        return C()

    def more(self):
        """Sizes beyond those recorded at which some comparison changes its outcome, with the place."""
        ns = sorted(self.logs)
        out = {}
        if len(ns) < 3 or ns[-1] - ns[-3] != 2:
            return out
        keys = set(self.logs[ns[-1]]) & set(self.logs[ns[-2]]) & set(self.logs[ns[-3]])
        for k in keys:
            rs = [self.logs[n][k] for n in ns[-3:]]
            mod, ins = rs[0][4:]
            lo, hi = min(r[2] for r in rs), max(r[3] for r in rs)
            la, ha = min(r[0] for r in rs), max(r[1] for r in rs)
            kind = k[2]
            for vals, cs in (([r[1] for r in rs], {lo, hi}), ([r[3] for r in rs], {la, ha})):
                c = [x for x in cs if 0 < x < 1 << 20]
                if lo != hi and vals[0] == rs[0][1] or la != ha and vals[0] == rs[0][3] and vals != [r[1] for r in rs]:
                    continue
                d1, d2 = vals[2] - vals[1], vals[2] - 2 * vals[1] + vals[0]
                if d1 <= 0 or d2 < 0:
                    continue
                for x in c:
                    if vals[2] > x:
                        continue
                    v, d, n = vals[2], d1, ns[-1]
                    while v < x and n <= self.limit:
                        d += d2
                        v += d
                        n += 1
                    if n <= self.limit:
                        for m in (n, n + 1):
                            if m > ns[-1]:
                                out.setdefault(m, mod.locstr(ins[2]))
        return out

    def beyond(self, rep, what, fn, most=6):
        """Analyse (at most `most` of) the sizes the code singles out beyond those enumerated."""
        new = self.more()
        pick = sorted(new)
        if len(pick) > most:
            pick = pick[:most // 2] + pick[-(most - most // 2):]
        for n in pick:
            rep.assumptions.append(f"{n} {what} analysed too, singled out at {where(new[n])}")
            with rep.part(f"{n} {what}"):
                fn(n)
        rep.count("sizes_singled_out", len(pick))
