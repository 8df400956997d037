import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.report import main
from kv.build import REPO, AnalysisError
from kv.dag import Node
from kv.field import P
from kv.pyi import Arr, Inst, PyRaise, Sym, Text, Unsupported, isnum
from kv.pymodel import Axes, Epoch
from kv.pymodel import interp as plain
from kv.pyeval import differ, flat, nd, samples

RULE = ("The problem classes are interpreted from their syntax tree on symbolic problem data and decision vectors, for every "
        "configuration listed, with the legs, Lambert solver, propagator and ephemerides as uninterpreted functions of "
        "their arguments.  Declared dimensions must be those of the returned values; the gradient must be, entry by entry "
        "along the declared sparsity, the derivative of the fitness (and derivatives outside it vanish); every method must "
        "hand the decoded decision vector in the same units to the leg or solver; encodings must be inverse to each other; "
        "drawn coordinates must scale with the plot units; results must not depend on earlier calls.")
DAY = 86400


PAIR = re.compile(r"^(q?)(tof|mf|t0|t)([lu])(\d*)$")
POS = re.compile(r"^q?(ms|mu|max_thrust|isp|msc|rsc|vsc|mf[lu]|tof[lu]|t[lu]\d*|tmax|vinf[sf]?|units|rp)$")


def sane(op, a, b):
    """Problem data are consistent: lower bounds below upper bounds; masses, scales, durations positive."""
    if a.op == b.op == "in":
        p, q = PAIR.match(a.args[0]), PAIR.match(b.args[0])
        if p and q and p[1] == q[1] and p[2] == q[2] and p[4] == q[4] and p[3] != q[3]:
            return op != "eq" and p[3] == "l"
    for x, y, up in ((a, b, False), (b, a, True)):
        if x.op == "in" and POS.match(x.args[0]) and y.op == "c" and y.args[0] <= 0:
            return op != "eq" and up
    return None


def interp():
    return plain(sane)


def leaf(I, n):
    return Sym(I.dag.leaf(n))


def leaves(I, n, k):
    return [leaf(I, f"{n}{i}") for i in range(k)]


class Ctx:
    def __init__(self, rep, key, where):
        self.rep, self.key, self.where = rep, key, where

    def same(self, I, what, a, b, mu=None):
        d = differ(I, a, b, mu)
        if d is None:
            self.rep.undecided(f"{self.key}: {what}", "no admissible sample")
        else:
            self.rep.check(d == -1, f"{self.key}: {what}", self.where,
                           what + (f" differs at entry {d}" if not isinstance(d, str) else ": " + d))

    def check(self, c, what, detail=""):
        self.rep.check(c, f"{self.key}: {what}", self.where, detail or what)


def src(cls):
    return {"direct_point2point": "pykep/trajopt/_direct_point2point.py", "direct_pl2pl": "pykep/trajopt/_direct_pl2pl.py",
            "mga": "pykep/trajopt/_mga.py"}[cls]


def only(I, thunk, ctx, what):
    """The value of the single trace of thunk; a raised exception is a violation."""
    r = I.explore(thunk)
    bad = [v for o, v, _ in r if o == "raise"]
    if bad:
        ctx.check(False, what, f"{what}: {type(bad[0].exc).__name__}: {bad[0].exc} ({bad[0].where})")
        return None
    return r[0][1]


# --- direct problems ----------------------------------------------------------------------------------------------------
def direct(I, cls, nseg, cut, arr, tag=""):
    """(problem, data) for symbolic problem data."""
    pk = I.imp("pykep")
    C = I.getattr(I.getattr(pk, "trajopt"), cls)
    L = lambda n: leaf(I, tag + n)
    d = {"ms": L("ms"), "mu": L("mu"), "max_thrust": L("max_thrust"), "isp": L("isp"),
         "tof_bounds": [L("tofl"), L("tofu")], "mf_bounds": [L("mfl"), L("mfu")], "nseg": nseg, "cut": cut,
         "mass_scaling": L("msc"), "r_scaling": L("rsc"), "v_scaling": L("vsc")}
    if cls == "direct_point2point":
        d["rvs"] = [leaves(I, tag + "rs", 3), leaves(I, tag + "vs", 3)]
        d["rvf"] = [leaves(I, tag + "rf", 3), leaves(I, tag + "vf", 3)]
        if arr:
            d["rvs"], d["rvf"] = [Arr.of(v) for v in d["rvs"]], [Arr.of(v) for v in d["rvf"]]
        n = 3 * nseg + 2
    else:
        d["pls"], d["plf"] = [planet(I, pk, b) for b in ("EARTH", "MARS")]
        d["t0_bounds"], d["vinfs"], d["vinff"] = [L("t0l"), L("t0u")], L("vinfs"), L("vinff")
        n = 3 * nseg + 9
    p = I.call(C, [], dict(d))
    x = leaves(I, tag + "x", n)
    return p, d, (Arr.of(x) if arr else x), n


def planet(I, pk, body):
    return I.call(I.getattr(pk, "planet"), [I.call(I.getattr(I.getattr(pk, "udpla"), "jpl_lp"), [], {"body": body})], {})


def meth(I, o, m, *a, **k):
    return I.call(I.getattr(o, m), list(a), k)


def legdata(leg):
    return {n: leg.get(n) for n in ("rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut")}


def doc_leg(I, cls, d, x):
    """The leg the documented decision vector stands for."""
    if isinstance(x, Arr):
        x = x.flat()
    out = {n: d[n] for n in ("ms", "max_thrust", "isp", "mu", "cut")}
    if cls == "direct_point2point":
        out.update(rvs=d["rvs"], rvf=d["rvf"], mf=x[0], throttles=x[1:-1], tof=x[-1] * DAY)
    else:
        a = [v for h in d["pls"].m_eph(x[0]) for v in h]
        b = [v for h in d["plf"].m_eph(x[0] + x[-1]) for v in h]
        out.update(rvs=[a[:3], [p + q for p, q in zip(a[3:], x[2:5])]], rvf=[b[:3], [p + q for p, q in zip(b[3:], x[5:8])]],
                   mf=x[1], throttles=x[8:-1], tof=x[-1] * DAY)
    return out


LEGKEYS = ("rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut")


def cmp_leg(ctx, I, what, got, want):
    ctx.same(I, what, [got[k] for k in LEGKEYS], [want[k] for k in LEGKEYS])


def check_direct(rep, cls, nseg, cut, arr):
    key = f"{cls}(nseg={nseg}, cut={cut}, {'array' if arr else 'list'})"
    ctx = Ctx(rep, key, src(cls))
    I = interp()
    rep.count("configurations")

    def dims(I):
        p, d, x, n = direct(I, cls, nseg, cut, arr)
        x0 = list(flat(x))
        lb, ub = meth(I, p, "get_bounds")
        r = dict(lb=lb, ub=ub, nec=meth(I, p, "get_nec"), nic=meth(I, p, "get_nic"), n=n, d=d, p=p, x=x)
        r["fit"] = meth(I, p, "fitness", x)
        leg = I.getattr(p, "leg")
        r["leg_f"] = legdata(leg)
        r["doc"] = doc_leg(I, cls, d, x)
        r["mc"], r["tc"] = leg.m_compute_mismatch_constraints(), leg.m_compute_throttle_constraints()
        r["hg"] = meth(I, p, "has_gradient")
        # another decision vector in between
        y = leaves(I, "y", n)
        meth(I, p, "fitness", Arr.of(y) if arr else y)
        r["grad"] = meth(I, p, "gradient", x)
        r["leg_g"] = legdata(leg)
        r["sp"] = meth(I, p, "gradient_sparsity")
        # an object that has seen other calls, another object alive
        q, dq, _, _ = direct(I, cls, nseg + 1, cut, arr, "q")
        meth(I, q, "fitness", leaves(I, "qx", n + 3))
        meth(I, p, "gradient", Arr.of(y) if arr else y)
        meth(I, p, "plot", y, Axes())
        r["fit2"] = meth(I, p, "fitness", x)
        r["grad2"] = meth(I, p, "gradient", x)
        lb2, ub2 = meth(I, p, "get_bounds")
        r["b2"] = [lb2, ub2]
        r["sp2"] = meth(I, p, "gradient_sparsity")
        r["xsame"] = all(a is b for a, b in zip(x0, flat(x))) and len(x0) == len(flat(x))
        fresh, _, _, _ = direct(I, cls, nseg, cut, arr)
        r["grad3"] = meth(I, fresh, "gradient", x)
        r["off"] = meth(I, I.call(I.getattr(I.getattr(I.imp("pykep"), "trajopt"), cls), [], {**d, "with_gradient": False}),
                        "has_gradient")
        return r
    r = only(I, dims, ctx, "interprets without an exception")
    if r is None:
        return
    n, m = r["n"], 1 + r["nec"] + r["nic"]
    ctx.check(len(r["lb"]) == n and len(r["ub"]) == n, "as many bounds as decision variables",
              f"{len(r['lb'])} lower and {len(r['ub'])} upper bounds for the documented {n} variables")
    ctx.check(len(flat(r["fit"])) == m, "fitness has 1+nec+nic entries", f"{len(flat(r['fit']))} instead of {m}")
    ctx.check(r["hg"] is True and r["off"] is False, "has_gradient is the option given")
    # bounds as documented
    d = r["d"]
    if cls == "direct_point2point":
        want = [[d["mf_bounds"][k]] + [(-1, 1)[k]] * 3 * nseg + [d["tof_bounds"][k]] for k in (0, 1)]
    else:
        want = [[d["t0_bounds"][k], d["mf_bounds"][k]] + [(-1, 1)[k] * 1000 * d["vinfs"]] * 3 +
                [(-1, 1)[k] * 1000 * d["vinff"]] * 3 + [(-1, 1)[k]] * 3 * nseg + [d["tof_bounds"][k]] for k in (0, 1)]
    from kv.pyi import CUR
    CUR[0] = I
    ctx.same(I, "lower bounds are those given, in the units of the decision vector", r["lb"], want[0])
    ctx.same(I, "upper bounds are those given, in the units of the decision vector", r["ub"], want[1])
    cmp_leg(ctx, I, "leg of the fitness as documented", r["leg_f"], r["doc"])
    cmp_leg(ctx, I, "leg of the gradient as documented", r["leg_g"], r["doc"])
    # fitness as documented: objective -mf, mismatches and throttle constraints, scaled
    x = flat(r["x"])
    sc = [d["r_scaling"]] * 3 + [d["v_scaling"]] * 3 + [d["mass_scaling"]]
    mf = x[0] if cls == "direct_point2point" else x[1]
    ref = [-mf / d["mass_scaling"]] + [a / b for a, b in zip(r["mc"], sc)] + list(r["tc"])
    if cls == "direct_pl2pl":
        for v, c in ((x[2:5], d["vinfs"]), (x[5:8], d["vinff"])):
            c = c * 1000
            ref.append((v[0] * v[0] + v[1] * v[1] + v[2] * v[2] - c * c) / (d["v_scaling"] * d["v_scaling"]))
    ctx.same(I, "fitness: objective, scaled mismatches, throttle and infinite velocity constraints", r["fit"], ref)
    # sparsity
    sp = [tuple(flat(e)) for e in (r["sp"] if not isinstance(r["sp"], Arr) else r["sp"].tolist())]
    ctx.check(all(len(e) == 2 and all(isinstance(v, int) for v in e) and 0 <= e[0] < m and 0 <= e[1] < n for e in sp),
              "sparsity entries in range")
    ctx.check(len(set(sp)) == len(sp), "sparsity entries distinct")
    ctx.check(sp == sorted(sp), "sparsity in lexicographic order", "not sorted as the optimisers demand")
    g = flat(r["grad"])
    ctx.check(len(g) == len(sp), "as many gradient entries as declared", f"{len(g)} entries, {len(sp)} declared")
    if len(g) == len(sp) and len(flat(r["fit"])) == m:
        fit = [nd(I, v) for v in flat(r["fit"])]
        gn = [nd(I, v) for v in g]
        seeds = {v.n.id: i for i, v in enumerate(x)}
        pos = {e: k for k, e in enumerate(sp)}

        def f(ev):
            bad = []
            for i, q in enumerate(fit):
                gr = ev.grad(q, seeds)
                for j in range(n):
                    if (i, j) in pos:
                        if ev.num(gn[pos[i, j]]) != gr[j] % P:
                            bad.append((i, j, "is not the derivative of the fitness"))
                    elif gr[j] % P:
                        bad.append((i, j, "is missing from the sparsity"))
            return bad
        s = samples(f, mu=d["mu"].n)
        if s is None:
            rep.undecided(key + ": gradient", "no admissible sample")
        else:
            bad = s[0] or s[1]
            ctx.check(not bad, "gradient is the derivative of the fitness",
                      f"entry {bad[0][:2]} {bad[0][2]} ({len(bad)} in all)" if bad else "")
            rep.count("gradient entries", len(g))
    ctx.same(I, "fitness independent of earlier calls", r["fit2"], r["fit"])
    ctx.same(I, "gradient independent of earlier calls", [r["grad2"], r["grad3"]], [r["grad"], r["grad"]])
    ctx.same(I, "bounds independent of earlier calls", r["b2"], [r["lb"], r["ub"]])
    ctx.check(r["sp2"] == r["sp"], "sparsity independent of earlier calls")
    ctx.check(r["xsame"], "decision vector left as it was")
    # plot and pretty
    for opts in ({}, {"show_midpoints": True, "show_gridpoints": True, "show_throttles": True}):
        u = leaf(I, "units")

        def draw(I, k=1):
            p, d, x, n = direct(I, cls, nseg, cut, arr)
            out = []
            for un in (u, u * 2, None):
                ax = Axes()
                meth(I, p, "plot", x, ax, **opts, **({"units": un} if un is not None else {}))
                out.append((ax, legdata(I.getattr(p, "leg"))))
            ret = meth(I, p, "plot", x, **opts)
            meth(I, p, "pretty", x)
            return out, doc_leg(I, cls, d, x), ret, list(I.printed), legdata(I.getattr(p, "leg")), x, d
        w = only(I, draw, ctx, "plot interprets without an exception" + (" (all options)" if opts else ""))
        if w is None:
            continue
        CUR[0] = I
        out, doc, ret, printed, leg_p, x, d = w
        for (ax, lg), nm in zip(out, ("units", "2 units", "default units")):
            cmp_leg(ctx, I, f"leg drawn as documented ({nm})", lg, doc)
        cmp_leg(ctx, I, "leg printed as documented", leg_p, doc)
        ctx.check(isinstance(ret, Axes), "plot returns the axes")
        drawn(ctx, I, "with all options" if opts else "by default", out[0][0], out[1][0], 2)
        from kv.pymodel import constants
        drawn(ctx, I, ("with all options" if opts else "by default") + ", default units are AU", out[0][0], out[2][0],
              constants()["AU"] / u)
        # the two end points are marked where the leg starts and ends
        sc3 = [flat(list(a[:3])) for nme, a, k, _ in out[0][0].calls if nme == "scatter"]
        for end in ("rvs", "rvf"):
            q = [v / u for v in flat(doc[end][0])]
            ctx.check(any(len(s) == 3 and differ(I, s, q) == -1 for s in sc3), f"the {end} end of the leg is marked")
        if opts:
            continue
        # what pretty prints are decoded quantities
        vals = [v for a, _ in printed for v in values(a)]
        x = flat(x)
        if cls == "direct_pl2pl":
            mag = lambda v: (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) ** 0.5
            allowed = [x[0], x[0] + x[-1], x[-1], mag(x[2:5]) / 1000, mag(x[5:8]) / 1000, x[1]] + [v / 1000 for v in x[2:8]]
        else:
            allowed = list(x)
        subset(ctx, I, "pretty prints the decoded vector", vals, allowed)


def values(a):
    out = []
    for v in flat(list(a)):
        if isinstance(v, Text):
            out += values(v.vals)
        elif isinstance(v, Epoch):
            out.append(v.t)
        elif isnum(v):
            out.append(v)
    return out


def subset(ctx, I, what, vals, allowed):
    vals = [v for v in vals if isinstance(v, Sym)]
    a, b = [nd(I, v) for v in vals], [nd(I, v) for v in allowed]

    def f(ev):
        s = {ev.num(y) for y in b}
        return [i for i, y in enumerate(a) if ev.num(y) not in s]
    r = samples(f)
    if r is None:
        ctx.rep.undecided(f"{ctx.key}: {what}", "no admissible sample")
        return
    ctx.check(not (r[0] and r[1]), what, f"printed value number {r[0][0]} is none of them" if r[0] else "")


def drawn(ctx, I, what, a, b, ratio):
    """Coordinates of a (units u) are ratio times those of b (units ratio*u)."""
    ctx.check([c[0] for c in a.calls] == [c[0] for c in b.calls], f"same drawing whatever the units ({what})")
    ctx.check(len(a.calls) > 0, f"something is drawn ({what})")
    for (na, pa, ka, wa), (nb, pb, kb, wb) in zip(a.calls, b.calls):
        if na not in ("scatter", "plot", "quiver", "plot3D", "scatter3D"):
            continue
        ca, cb = flat([v for v in pa[:3]]), flat([v for v in pb[:3]])
        if not all(isnum(v) for v in ca + cb):
            ctx.rep.undecided(f"{ctx.key}: {what}", "unknown coordinates")
            continue
        d = differ(I, ca, [v * ratio for v in cb])
        if d is None:
            ctx.rep.undecided(f"{ctx.key}: {what}", "no admissible sample")
        else:
            k = ctx.where
            ctx.where = wa
            ctx.check(d == -1, f"coordinates of {na} at {wa.rsplit(':', 1)[0]} scale with the units ({what})",
                      f"coordinate {d} of {len(ca)} drawn at {wa} is not in the plot's units")
            ctx.where = k


# --- multiple gravity assists -------------------------------------------------------------------------------------------
def mga(I, legs, enc, mo=False, oi=False, tag="", arr=False, epochs=False):
    pk = I.imp("pykep")
    C = I.getattr(I.getattr(pk, "trajopt"), "mga")
    bodies = ["EARTH", "VENUS", "MARS", "JUPITER", "SATURN"][:legs + 1]
    seq = [planet(I, pk, b) for b in bodies]
    L = lambda n: leaf(I, tag + n)
    t0 = [L("t0l"), L("t0u")]
    if epochs:
        t0 = [I.call(I.getattr(pk, "epoch"), [t], {}) for t in t0]
    tof = {"direct": [[L(f"tl{i}"), L(f"tu{i}")] for i in range(legs)], "alpha": [L("tl"), L("tu")], "eta": L("tmax")}[enc]
    d = dict(seq=seq, t0=t0, tof=tof, vinf=L("vinf"), multi_objective=mo, tof_encoding=enc)
    if oi:
        d.update(orbit_insertion=True, e_target=L("et"), rp_target=L("rp"))
    p = I.call(C, [], dict(d))
    n = legs + (2 if enc == "alpha" else 1)
    x = leaves(I, tag + "x", n)
    if enc == "alpha":
        x[1:] = leaves(I, "xa" + tag, n - 1)
    return p, d, (Arr.of(x) if arr else x), n


def tofs(I, enc, d, x):
    """Times of flight by the documented decoding."""
    x = flat(x)
    if enc == "direct":
        return x[1:]
    if enc == "alpha":
        from kv.pyi import un
        l = [un("log", a) for a in x[2:]]
        s = l[0]
        for v in l[1:]:
            s = s + v
        return [x[1] * v / s for v in l]
    out, used = [], 0
    for e in x[1:]:
        t = (d["tof"] - used) * e
        out.append(t)
        used = t + used
    return out


def norm(v):
    s = v[0] * v[0]
    for a in v[1:]:
        s = s + a * a
    return s ** 0.5


def ref_mga(I, d, x, enc, oi):
    from kv.pyi import uf, un, D
    T = tofs(I, enc, d, x)
    x = flat(x)
    ep = [x[0]]
    for t in T:
        ep.append(ep[-1] + t)
    rv = [p.m_eph(t) for p, t in zip(d["seq"], ep)]
    mu = d["seq"][0].m_get_mu_central_body()
    lam = []
    for i, t in enumerate(T):
        a = rv[i][0] + rv[i + 1][0] + [t * DAY, mu]
        lam.append([[uf("lambert_" + w, a, False, 0, k) for k in range(3)] for w in ("v0", "v1")])
    sub = lambda a, b: [p - q for p, q in zip(a, b)]
    fb = [uf("fb_dv", sub(lam[i][1], rv[i + 1][1]) + sub(lam[i + 1][0], rv[i + 1][1]) +
             [d["seq"][i + 1].m_get_mu_self(), d["seq"][i + 1].m_get_safe_radius()]) for i in range(len(T) - 1)]
    tot = norm(sub(lam[0][0], rv[0][1]))
    # max(0, tot - vinf)
    a, b = nd(I, 0.0), nd(I, tot - d["vinf"] * 1000)
    launch = Sym(I.dag.mk("fmax", tuple(sorted((a, b), key=lambda q: q.id)), None))
    arr = norm(sub(lam[-1][1], rv[-1][1]))
    if oi:
        ms = d["seq"][-1].m_get_mu_self()
        rp, e = d["rp_target"], d["e_target"]
        arr = un("fabs", (arr * arr + 2 * ms / rp) ** 0.5 - ((1 + e) * ms / rp) ** 0.5)
    s = launch
    for f in fb:
        s = s + f
    return dict(T=T, ep=ep, rv=rv, lam=lam, fb=fb, tot=tot, launch=launch, arr=arr, dv=s + arr, mu=mu)


def check_mga(rep, legs, enc, mo, oi, arr):
    from kv.pyi import CUR
    key = f"mga({legs} legs, {enc}{', two objectives' if mo else ''}{', insertion' if oi else ''}, {'array' if arr else 'list'})"
    ctx = Ctx(rep, key, src("mga"))
    I = interp()
    rep.count("configurations")

    def run(I):
        p, d, x, n = mga(I, legs, enc, mo, oi, arr=arr)
        x0 = list(flat(x))
        lb, ub = meth(I, p, "get_bounds")
        r = dict(lb=lb, ub=ub, n=n, nobj=meth(I, p, "get_nobj"), d=d, x=x)
        q, dq, xq, _ = mga(I, legs, enc, mo, oi, "q", arr)
        meth(I, q, "fitness", xq)
        y = leaves(I, "y", n)
        meth(I, p, "fitness", Arr.of(y) if arr else y)
        r["fit"] = meth(I, p, "fitness", x)
        I.lamberts.clear()
        r["dvs"] = meth(I, p, "_compute_dvs", x) if I.has(p, "_compute_dvs") else None
        r["lamb"] = list(I.lamberts)
        meth(I, p, "pretty", y)
        I.printed.clear()
        meth(I, p, "pretty", x)
        r["printed"] = list(I.printed)
        r["fit2"] = meth(I, p, "fitness", x)
        r["b2"] = meth(I, p, "get_bounds")
        r["same"] = all(a is b for a, b in zip(x0, flat(x))) and len(x0) == len(flat(x))
        r["ref"] = ref_mga(I, d, x, enc, oi)
        return r
    r = only(I, run, ctx, "interprets without an exception")
    if r is None:
        return
    CUR[0] = I
    n, d = r["n"], r["d"]
    ctx.check(len(r["lb"]) == n and len(r["ub"]) == n, "as many bounds as decision variables",
              f"{len(r['lb'])} lower and {len(r['ub'])} upper bounds for the documented {n} variables")
    fit = flat(r["fit"])
    ctx.check(r["nobj"] == len(fit) == (2 if mo else 1), "as many objectives as declared",
              f"{len(fit)} values, {r['nobj']} declared")
    k2 = lambda k: {"direct": [t[k] for t in d["tof"]] if enc == "direct" else None,
                    "alpha": ([d["tof"][k]] if enc == "alpha" else []) + [(1e-3, 1.0 - 1e-3)[k]] * legs,
                    "eta": [(1e-3, 1.0 - 1e-3)[k]] * legs}[enc]
    t0 = [leaf(I, "t0l"), leaf(I, "t0u")]
    for k, b in ((0, r["lb"]), (1, r["ub"])):
        if enc == "direct":
            ctx.same(I, ("lower", "upper")[k] + " bounds are those given", b, [t0[k]] + k2(k))
        else:
            m = 2 if enc == "alpha" else 1
            ctx.same(I, ("lower", "upper")[k] + " bounds are those given", flat(b)[:m], ([t0[k]] + k2(k))[:m])
            ctx.check(all(isinstance(v, (int, float)) and 0 < v < 1 for v in flat(b)[m:]),
                      "encoded times of flight are bounded inside (0, 1)")
    ref = r["ref"]
    T = ref["T"]
    tot = T[0]
    for t in T[1:]:
        tot = tot + t
    ctx.same(I, "fitness is the total velocity increment of the decoded trajectory", fit[:1], [ref["dv"]])
    if mo:
        ctx.same(I, "second objective is the total time of flight", fit[1:], [tot])
    if r["dvs"] is not None:
        ctx.check(len(r["lamb"]) == legs, "one Lambert problem per leg")
        if len(r["lamb"]) == legs:
            got = [[l["r0"], l["r1"], l["tof"], l["mu"]] for l in r["lamb"]]
            want = [[ref["rv"][i][0], ref["rv"][i + 1][0], T[i] * DAY, ref["mu"]] for i in range(legs)]
            ctx.same(I, "Lambert problems of the decoded legs", got, want)
    allowed = ref["ep"] + flat(ref["lam"]) + [ref["tot"], ref["launch"], ref["arr"], ref["dv"]] + ref["fb"] + list(T)
    subset(ctx, I, "pretty prints quantities of the decoded trajectory", [v for a, _ in r["printed"] for v in values(a)],
           allowed)
    ctx.same(I, "fitness independent of earlier calls", r["fit2"], r["fit"])
    ctx.same(I, "bounds independent of earlier calls", list(r["b2"]), [r["lb"], r["ub"]])
    ctx.check(r["same"], "decision vector left as it was")
    if not oi and not mo:
        check_mga_planet(rep, ctx, I, legs, enc, arr)
        check_mga_plot(rep, ctx, I, legs, enc, arr)


def check_mga_planet(rep, ctx, I, legs, enc, arr):
    """The trajectory as a planet: position and velocity on the ballistic arc of each leg, an error outside."""
    from kv.pyi import CUR, uf

    def run(I):
        p, d, x, n = mga(I, legs, enc, arr=arr)
        pl = meth(I, p, "to_planet", x)
        ref = ref_mga(I, d, x, enc, False)
        # the decoded epochs increase
        for a, b in zip(ref["ep"], ref["ep"][1:]):
            pass
        t = leaf(I, "t")
        try:
            return ("ok", meth(I, pl, "eph", t), ref)
        except PyRaise as e:
            return ("raise", e, ref)
    out = I.explore(run)
    CUR[0] = I
    t = leaf(I, "t")
    kinds = {}
    for o, v, conds in out:
        if o == "raise":
            ctx.check(False, "to_planet works", f"{type(v.exc).__name__}: {v.exc} ({v.where})")
            return
        st, val, ref = v
        # where t lies: tests against the epochs of the encounters
        lo, hi, eq = -1, legs + 1, None
        num = ref["ep"]
        ok = True

        def loc(ev):
            k = [ev.num(nd(I, e)) for e in num]
            tv = ev.num(nd(I, t))
            out = []
            for op, a, b, r, w in conds:
                va, vb = ev.num(a), ev.num(b)
                if va == tv and vb in k:
                    out.append((op, k.index(vb), r, False))
                elif vb == tv and va in k:
                    out.append((op, k.index(va), r, True))
                else:
                    out.append(None)
            return out
        s = samples(loc, 1)
        if s is None or None in s[0]:
            rep.undecided(ctx.key + ": to_planet", "a test on something else than the epochs of the encounters")
            return
        feas = [q for q in range(2 * legs + 3) if all(holds(q, c) for c in s[0])]
        for q in feas:
            kinds.setdefault(q, []).append((st, val, ref))
    # q = 2k+1: at epoch k; q even: between epochs k-1 and k
    for q in range(2 * legs + 3):
        name = f"at epoch {q // 2}" if q % 2 else f"before epoch {q // 2}" if q <= 2 * legs else "after the last epoch"
        got = kinds.get(q, [])
        if len(got) != 1:
            rep.undecided(f"{ctx.key}: to_planet {name}", f"{len(got)} traces")
            continue
        st, val, ref = got[0]
        inside = 1 <= q <= 2 * legs + 1
        ctx.check((st == "ok") == inside, f"to_planet {name}: {'has' if inside else 'has no'} ephemerides",
                  f"{st}" + (f": {val.exc}" if st == "raise" else ""))
        if st != "ok" or not inside:
            continue
        e = val
        if q == 1:
            ctx.same(I, f"to_planet {name}: state at launch", e, [ref["rv"][0][0], ref["lam"][0][0]])
            continue
        # an epoch inside belongs to the leg before it (or after it: the position is the same)
        alts = [(q + 1) // 2 - 1 if q % 2 else q // 2 - 1] + ([q // 2] if q % 2 and q // 2 < legs else [])
        alts = [q // 2 - 1] + ([q // 2] if q % 2 and q // 2 < legs else [])
        res = []
        for i in alts:
            a = ref["rv"][i][0] + ref["lam"][i][0] + [(t - ref["ep"][i]) * DAY, ref["mu"]]
            res.append(differ(I, e, [uf("prop", a, k) for k in range(6)]))
        if None in res:
            rep.undecided(f"{ctx.key}: to_planet {name}", "no admissible sample")
        else:
            ctx.check(-1 in res, f"to_planet {name}: state on the arc of the leg",
                      "not the leg's departure state propagated by the time since the leg began")


def holds(q, c):
    """Does the test hold when t lies at place q?  (op, k, result, swapped): t op epoch k."""
    op, k, r, sw = c
    p = 2 * k + 1
    v = {"lt": (p < q) if sw else (q < p), "le": (p <= q) if sw else (q <= p), "eq": p == q}[op]
    return v == r


def check_mga_plot(rep, ctx, I, legs, enc, arr):
    from kv.pyi import CUR
    u = leaf(I, "units")

    def run(I):
        p, d, x, n = mga(I, legs, enc, arr=arr)
        out = []
        for k in ({"units": u}, {"units": u * 2}, {"units": u, "leg_ids": [legs - 1]}):
            ax = Axes()
            meth(I, p, "plot", x, ax, **k)
            out.append(ax)
        ret = meth(I, p, "plot", x)
        return out, ret, ref_mga(I, d, x, enc, False)
    # drawing a Lambert arc tests the sense of motion; every outcome is drawn
    seen = 0
    for o, v, conds in I.explore(run, max_paths=1200) if legs <= 2 else []:
        if o == "raise":
            ctx.check(False, "plot works", f"{type(v.exc).__name__}: {v.exc} ({v.where})")
            return
        seen += 1
        if seen > 4:
            break
        CUR[0] = I
        out, ret, ref = v
        ctx.check(isinstance(ret, Axes), "plot returns the axes")
        drawn(ctx, I, "mga", out[0], out[1], 2)
        sc3 = [flat(list(a[:3])) for nme, a, k, _ in out[0].calls if nme == "scatter"]
        for i in range(legs + 1):
            q = [w / u for w in ref["rv"][i][0]]
            ctx.check(any(len(s) == 3 and differ(I, s, q) == -1 for s in sc3), f"encounter {i} is marked where it takes place")
        np_ = [len([c for c in ax.calls if c[0] == "plot"]) for ax in out]
        ctx.check(np_[0] == legs + 1 + legs and np_[2] == legs + 2, "one arc per leg asked for",
                  f"{np_[0]} curves for {legs} legs and {legs + 1} orbits; {np_[2]} with one leg")
    rep.count("plot traces", seen)


def check_codes(rep, legs):
    from kv.pyi import CUR
    ctx = Ctx(rep, f"mga encodings ({legs} legs)", src("mga"))
    I = interp()

    def run(I):
        ps = {e: mga(I, legs, e) for e in ("direct", "alpha", "eta")}
        r = {}
        C = I.getattr(I.getattr(I.imp("pykep"), "trajopt"), "mga")
        a2d, d2a = I.getattr(C, "alpha2direct"), I.getattr(C, "direct2alpha")
        xd, xa = Arr.of(leaves(I, "x", legs + 1)), Arr.of(leaves(I, "a", legs + 2))
        x0, a0 = list(xd.flat()), list(xa.flat())
        r["aa"] = I.call(a2d, [I.call(d2a, [xd], {})], {})
        r["da"] = I.call(a2d, [xa], {})
        p, d, _, _ = ps["eta"]
        r["ed"], r["de"] = meth(I, p, "eta2direct", xd), meth(I, p, "direct2eta", xd)
        r["ee"] = meth(I, p, "eta2direct", r["de"])
        r["dd"] = meth(I, p, "direct2eta", r["ed"])
        # lists are accepted where nothing but entries are used
        r["el"] = meth(I, p, "eta2direct", list(x0))
        r["same"] = all(a is b for a, b in zip(x0, xd.flat())) and all(a is b for a, b in zip(a0, xa.flat()))
        r["x"], r["a"] = x0, a0
        pd, pa = ps["direct"][0], ps["alpha"][0]
        r["fd"] = meth(I, pd, "fitness", I.call(a2d, [xa], {}))
        r["fa"] = meth(I, pa, "fitness", xa)
        r["fe"] = meth(I, p, "fitness", xd)
        r["fde"] = meth(I, pd, "fitness", r["ed"])
        r["wa"], r["we"] = tofs(I, "alpha", ps["alpha"][1], xa), tofs(I, "eta", d, xd)
        r["err"] = []
        for e in ("direct", "alpha"):
            for m in ("eta2direct", "direct2eta"):
                try:
                    meth(I, ps[e][0], m, xd)
                    r["err"].append((e, m))
                except PyRaise:
                    pass
        return r
    r = only(I, run, ctx, "conversions interpret without an exception")
    if r is None:
        return
    CUR[0] = I
    ctx.same(I, "alpha2direct undoes direct2alpha", r["aa"], r["x"])
    ctx.same(I, "alpha2direct decodes as documented", r["da"], [r["a"][0]] + r["wa"])
    ctx.same(I, "eta2direct decodes as documented", r["ed"], [r["x"][0]] + r["we"])
    ctx.same(I, "eta2direct accepts lists", r["el"], [r["x"][0]] + r["we"])
    ctx.same(I, "eta2direct undoes direct2eta", r["ee"], r["x"])
    ctx.same(I, "direct2eta undoes eta2direct", r["dd"], r["x"])
    ctx.same(I, "alpha encoding has the fitness of the decoded vector", r["fa"], r["fd"])
    ctx.same(I, "eta encoding has the fitness of the decoded vector", r["fe"], r["fde"])
    ctx.check(r["same"], "conversions leave their argument as it was")
    ctx.check(not r["err"], "eta conversions refuse other encodings", f"{r['err']}")


def check_defaults(rep):
    """Problems can be built with the default arguments, more than once, and with epochs as launch window."""
    from kv.pyi import CUR
    for cls in ("direct_point2point", "direct_pl2pl", "mga"):
        ctx = Ctx(rep, f"{cls}()", src(cls))
        I = interp()

        def run(I):
            C = I.getattr(I.getattr(I.imp("pykep"), "trajopt"), cls)
            r = []
            for _ in range(2):
                p = I.call(C, [], {})
                lb, ub = meth(I, p, "get_bounds")
                x = leaves(I, "x", len(lb))
                f = meth(I, p, "fitness", x)
                r.append([lb, ub, f] + ([meth(I, p, "gradient", x)] if cls != "mga" else []))
            return r
        r = only(I, run, ctx, "default problem interprets without an exception")
        if r is None:
            continue
        CUR[0] = I
        ctx.same(I, "two default problems agree", r[0], r[1])
        ctx.check(len(r[0][0]) == len(r[0][1]), "as many lower as upper bounds")
        if all(isinstance(v, (int, float)) for v in flat(r[0][:2])):
            ctx.check(all(a <= b for a, b in zip(flat(r[0][0]), flat(r[0][1]))), "lower bounds below upper bounds")
    ctx = Ctx(rep, "mga(t0 as epochs)", src("mga"))
    I = interp()

    def run2(I):
        a, _, x, _ = mga(I, 2, "direct")
        b, _, _, _ = mga(I, 2, "direct", epochs=True)
        return meth(I, a, "get_bounds"), meth(I, b, "get_bounds")
    r = only(I, run2, ctx, "launch window given as epochs is accepted")
    if r is not None:
        CUR[0] = I
        ctx.same(I, "launch window as epochs or as mjd2000", list(r[0]), list(r[1]))


def check_gym(rep):
    from kv.pyi import CUR
    ctx = Ctx(rep, "gym", "pykep/trajopt/gym/_cassini_mga.py")
    I = interp()

    def run(I):
        I.imp("pykep")
        g = I.imp("pykep.trajopt.gym._cassini_mga")
        r = {}
        for n in ("cassini1", "cassini1_a", "cassini1_n"):
            p = g.ns[n]
            lb, ub = meth(I, p, "get_bounds")
            x = Arr.of(leaves(I, n + "x", len(lb)))
            r[n] = dict(lb=lb, ub=ub, nobj=meth(I, p, "get_nobj"), fit=meth(I, p, "fitness", x), p=p, x=x)
            for m in ("get_name", "get_extra_info"):
                meth(I, p, m)
        d = g.ns["cassini1"]
        for n, conv in (("cassini1_a", "alpha2direct"), ("cassini1_n", "eta2direct")):
            xd = meth(I, r[n]["p"], conv, r[n]["x"])
            r[n]["dir"] = meth(I, d, "fitness", xd)
        return r
    r = only(I, run, ctx, "gym problems interpret without an exception")
    if r is None:
        return
    CUR[0] = I
    for n, q in r.items():
        lb, ub = flat(q["lb"]), flat(q["ub"])
        ctx.check(len(lb) == len(ub) and all(a < b for a, b in zip(lb, ub)), f"{n}: bounds")
        ctx.check(q["nobj"] == len(flat(q["fit"])), f"{n}: as many objectives as declared")
        if "dir" in q:
            ctx.same(I, f"{n}: same fitness as the direct encoding of the same trajectory", q["fit"], q["dir"])


def run(rep):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    cfg = [(1, 0.6, False), (2, 0.5, True), (3, 0.6, False), (3, 1, False)] + \
        ([(1, 0, True), (4, 0.3, True), (5, 0.6, False), (10, 0.6, True), (7, 1, True)] if thorough else [])
    for cls in ("direct_point2point", "direct_pl2pl"):
        for nseg, cut, arr in cfg:
            with rep.part(f"{cls} {nseg} {cut}"):
                check_direct(rep, cls, nseg, cut, arr)
    for enc in ("direct", "alpha", "eta"):
        for legs in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
            for mo, oi, arr in ((False, False, True), (True, True, True)) + (((False, False, False),) if enc != "alpha" else ()):
                with rep.part(f"mga {enc} {legs} {mo} {oi} {arr}"):
                    check_mga(rep, legs, enc, mo, oi, arr)
    for legs in (1, 2, 3):
        with rep.part(f"encodings {legs}"):
            check_codes(rep, legs)
    with rep.part("defaults"):
        check_defaults(rep)
    with rep.part("gym"):
        check_gym(rep)


if __name__ == "__main__":
    sys.exit(main("C26", RULE, run))
