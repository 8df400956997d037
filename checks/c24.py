#!/usr/bin/env python3
"""C24: the extension module binds each name to the C++ entity of the same meaning.

Each binding statement (def, def_static, def_property*, value, attr, init) of pykep/*.cpp is read off the source after
macro expansion, and compared with the entity it names: same name (up to the documented prefixes), the keyword names in
the order of the parameters of the entity declared in include/kep3, getter and setter of the same parameter, lambdas
that call the entity of their name with their parameters in order, and arrays whose shape has the size of the data."""
import glob
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from kv import report                                        # noqa: E402
from kv.build import REPO                                    # noqa: E402
from kv.pycore import Core, strip, match, split, expand      # noqa: E402

OPS = {"__lt__": "<", "__gt__": ">", "__le__": "<=", "__ge__": ">=", "__eq__": "==", "__ne__": "!=",
       "__add__": "+", "__sub__": "-"}
# keyword -> C++ parameter names meaning the same thing
SAME = {
    "when": {"ep", "when", "mjd2000", "in", "epoch_in", "julian_epoch", "julian_epoch_in", "eps", "ref_epoch", "mjd", "v", "jd", "gcal_ep"},
    "el_type": {"el_type", "el_ty", "elem_type", "elements_type", "el_t"},
    "stm": {"stm", "request_stm"}, "rv": {"pos_vel", "pos_vel_0", "rv", "pos_vel0"},
    "tof": {"dt", "tof"}, "tofs": {"dts", "tofs", "time_grid", "dt", "tof"}, "planet": {"pl", "planet"},
    "multi_revs": {"multi_revs", "max_revs"}, "veff": {"veff", "v_eff"}, "elem": {"par", "elem", "par_in"},
    "posvel": {"pos_vel", "posvel", "rv"}, "mu_central_body": {"mu", "mu_central_body"},
    "julian_type": {"julian_type", "epoch_type", "type", "jt"}, "string_format": {"string_format", "sf", "fmt"},
    "body": {"body", "pl_name", "name"}, "thresh": {"thresh", "thresh_"}, "cut": {"cut"},
    "throttles": {"throttles"}, "r0": {"r0", "r0_a"}, "r1": {"r1", "r1_a"}, "cw": {"cw"},
}


class Decls:
    """Parameter names of the functions, methods and constructors declared in the headers."""

    def __init__(self):
        self.par = {}
        self.names = set()
        self.types = {}
        for f in sorted(glob.glob(os.path.join(REPO, "include", "kep3", "**", "*.hpp"), recursive=True)
                        + glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
            if "/detail/" in f and "null_udpla" not in f:
                pass
            s = strip(open(f).read())
            s = re.sub(r"^\s*#.*?(?<!\\)$", "", s, flags=re.M)
            for m in re.finditer(r"(?<![\w.>])(?:(\w+)::)?(\w+)\s*\(", s):
                e = match(s, m.end() - 1)
                ps = split(s[m.end():e - 1])
                names, types = [], []
                for p in ps:
                    p = re.sub(r"=.*", "", p, flags=re.S).strip()
                    p = re.sub(r"\{.*", "", p, flags=re.S).strip()
                    n = re.match(r"(.*[\w>&*\]])\s*[&*\s]\s*(\w+)$", p, re.S) or re.match(r"(.*[>&*])()$", p, re.S)
                    if not n or re.search(r"[\"]", p):
                        names = None
                        break
                    names.append(n.group(2))
                    types.append(re.sub(r"\bconst\b|[&\s]|std::|kep3::", "", n.group(1)))
                self.names.add(m.group(2))
                if names is not None:
                    self.par.setdefault(m.group(2), []).append((names, types))

    def of(self, name, n):
        r = [x for x in self.par.get(name, []) if len(x[0]) == n and all(x[0])]
        return r or [(x[0][:n], x[1][:n]) for x in self.par.get(name, []) if len(x[0]) > n and all(x[0][:n])]


def meaning(kw, p):
    p = p.strip("_")
    p = p[2:] if p.startswith("m_") else p
    return p == kw or p.rstrip("0123456789_") == kw or p in SAME.get(kw, ()) or kw in SAME.get(p, ())


def last(e):
    """The unqualified name of a C++ entity expression (&a::b::c, py::vectorize(a::b)), or None."""
    e = e.strip()
    m = re.match(r"(?:py|pybind11)::vectorize\s*\((.*)\)$", e, re.S)
    if m:
        return last(m.group(1))
    m = re.match(r"(?:py|pybind11)::overload_cast\s*<.*>\s*\((.*)\)$", e, re.S) \
        or re.match(r"static_cast\s*<.*>\s*\((.*)\)$", e, re.S)
    if m:
        return last(split(m.group(1))[0])
    m = re.match(r"&?\s*([\w:]+)\s*(<.*>)?$", e, re.S)
    return m.group(1).split("::")[-1] if m else None


def norm(n):
    n = n.lstrip("_") if not n.startswith("__") else n
    return n


def lam(e):
    """(parameter names, parameter types, body) of a lambda expression."""
    e = e.strip()
    if not e.startswith("["):
        return None
    i = match(e, 0)
    while e[i].isspace():
        i += 1
    if e[i] != "(":
        return [], [], e[e.index("{"):]
    j = match(e, i)
    names, types = [], []
    for p in split(e[i + 1:j - 1]):
        m = re.match(r"(.*[\s&*>])(\w+)$", p, re.S)
        if not m:
            return None
        types.append(m.group(1).strip())
        names.append(m.group(2))
    return names, types, e[e.index("{", j):]


def calls(body, names):
    """[(name, args, qualifier)] of the calls in the body."""
    out = []
    for m in re.finditer(r"([\w:]+(?:<[^;<>]*>)?(?:\.|->))?([\w:]+)\s*\(", body):
        e = match(body, m.end() - 1)
        out.append((m.group(2).split("::")[-1], split(body[m.end():e - 1]), m.group(1) or "", m.group(2)))
    return out


class Chk:
    def __init__(self, rep):
        self.rep = rep
        self.d = Decls()
        self.n = 0

    def stmt(self, what, args, cls, where):
        rep = self.rep
        raw = args
        name = args[0].strip('"') if args and args[0].startswith('"') else None
        kws = [m.group(1) for a in args[1:] for m in [re.match(r"(?:py|pybind11)::arg\(\s*\"(\w+)\"", a)] if m]
        if what == "value":
            e = last(args[1])
            if e is None:
                return rep.undecided(where, "enumerator expression")
            rep.check(e == name, f"enum:{cls}:{name}", where, f"the enumerator {name} is bound to {args[1]}")
            self.n += 1
            return
        if name is None:
            m = re.match(r"(?:py|pybind11)::init\s*<(.*)>\s*\(\s*\)$", args[0], re.S) if args else None
            b = re.match(r"(?:py|pybind11)::init\s*\(", args[0]) if args else None
            if b:
                self.datetime(args[0], where)
            elif m:
                self.init(split(m.group(1)), kws, cls, where)
            elif args and re.match(r"(?:py|pybind11)::pickle\s*\(", args[0]):
                a = split(args[0][args[0].index("(") + 1:-1])
                n = [last(x) for x in a]
                if None in n or len(n) != 2:
                    return rep.undecided(where, "pickle functions")
                rep.check("get" in n[0] and "set" in n[1], f"pickle:{cls}", where,
                          f"pickle takes the state with {n[0]} and restores it with {n[1]}")
                self.n += 1
            return
        if what.startswith("def_property"):
            ents = args[1:2] if what.startswith("def_property_readonly") else args[1:3]
            self.prop(name, ents, cls, where)
            return
        if what not in ("def", "def_static") or len(args) < 2:
            return
        if cls and name.startswith("__"):
            self.dunder(name, args[1], cls, where)
            return
        L = lam(args[1])
        if L is not None:
            self.lam(name, L, kws, cls, where)
            return
        e = last(args[1])
        if e is None:
            return rep.undecided(where, f"bound expression {args[1][:60]}")
        want = {norm(name)}
        if args[1].strip().startswith(("py::vectorize", "pybind11::vectorize")):
            want = {norm(name)[:-2]} if name.endswith("_v") else want
        if name in ("_cpp_extract", "_py_extract"):
            want = {"generic" + name}
        if e not in want and e not in self.d.names and not e.startswith("generic_"):
            return rep.undecided(where, f"{name} is bound to {e}, which is not an entity of the library")
        rep.check(e in want, f"name:{cls}:{name}", where, f"{name} is bound to {args[1]}")
        self.n += 1
        if kws:
            self.order(e, kws, where, f"{cls}:{name}")

    def order(self, e, kws, where, key):
        cand = self.d.of(e, len(kws))
        if not cand:
            return self.rep.undecided(where, f"no declaration of {e} with {len(kws)} named parameters")
        self.match(kws, [c[0] for c in cand], where, key)

    def match(self, kws, cands, where, key):
        """Some declaration has the keywords in its order; a keyword that means another parameter is a swap."""
        if any(all(meaning(k, p) for k, p in zip(kws, ps)) for ps in cands):
            self.rep.ok(where)
            self.n += 1
            return
        for ps in cands:
            for i, k in enumerate(kws):
                j = [n for n, p in enumerate(ps) if meaning(k, p)]
                if j and i not in j:
                    self.n += 1
                    return self.rep.bad(f"kw:{key}", where,
                                        f"keyword {k} is in position {i + 1}, the parameter of that name is {ps[j[0]]} "
                                        f"in position {j[0] + 1}")
        self.rep.undecided(where, f"keywords {kws} against parameters {cands[0]}")

    def init(self, types, kws, cls, where):
        if not kws:
            return
        t = cls.split("::")[-1] if cls else ""
        if len(types) != len(kws):
            self.rep.bad(f"init:{cls}:{len(types)}", where, f"{len(types)} parameters, {len(kws)} keywords")
            return
        nt = [re.sub(r"\bconst\b|[&\s]|std::|kep3::", "", x) for x in types]
        cand = [c for c in self.d.of(t, len(kws))
                if all(a == b or a.split("::")[-1] == b.split("::")[-1] for a, b in zip(c[1], nt))]
        if not cand:
            cand = self.d.of(t, len(kws))
        if not cand:
            # epoch(int) is reached through the constructor of doubles
            return self.rep.undecided(where, f"constructor {t}({', '.join(nt)})")
        self.match(kws, [c[0] for c in cand], where, f"{cls}:init{len(kws)}")

    def datetime(self, e, where):
        """The fields of a datetime object go to the parameters of their unit."""
        v = dict((a, b) for a, b in re.findall(r"\b(\w+)\s*=\s*\w+\.attr\(\"(\w+)\"\)", e))
        m = re.search(r"kep3::epoch\s*([({])", e)
        if not v or not m:
            return
        b = e.index(m.group(1), m.start())
        a = split(e[b + 1:match(e, b) - 1])
        got = [v.get(x, x) for x in a]
        want = ["year", "month", "day", "hour", "minute", "second", "0", "microsecond"]
        if len(got) != 8 or any(not re.match(r"\w+$", x) for x in got):
            return self.rep.undecided(where, f"epoch({', '.join(a)})")
        self.n += 1
        self.rep.check(got == want, "init:datetime", where, f"a datetime gives epoch({', '.join(got)})")

    def acc(self, e, cls, kind):
        """Parameter an accessor works on: get_x, x -> x; set_x -> x."""
        L = lam(e)
        if L:
            cs = [c for c in calls(L[2], L[0]) if c[2]]
            e = cs[0][0] if len(cs) == 1 else None
            if cs and e and (cs[0][2].rstrip(".->") != L[0][0] or [a for a in cs[0][1]] != L[0][1:]):
                if len(L[0]) > 1 and not re.search(r"\b" + L[0][1] + r"\b", L[2]):
                    return "what the object has already"
                return None
        else:
            e = last(e)
        if e is None:
            return None
        return e[4:] if e.startswith(("get_", "set_")) else e

    def prop(self, name, ents, cls, where):
        for i, e in enumerate(ents):
            a = self.acc(e, cls, i)
            if a is None:
                self.rep.undecided(where, f"accessor {e[:60]}")
                continue
            L = lam(e)
            if not L and last(e) not in self.d.names:
                self.rep.undecided(where, f"accessor {e[:60]}")
                continue
            self.n += 1
            self.rep.check(a == name, f"prop:{cls}:{name}:{i}", where,
                           f"the {'setter' if i else 'getter'} of {name} works on {a}")
            n = L and [c for c in calls(L[2], L[0]) if c[2]][0][0] or last(e)
            if i == 1:
                self.rep.check(n.startswith("set_"), f"prop:{cls}:{name}:set", where, f"the setter of {name} is {n}")
            else:
                self.rep.check(not n.startswith("set_"), f"prop:{cls}:{name}:get", where, f"the getter of {name} is {n}")

    def dunder(self, name, e, cls, where):
        want = {"__repr__": "ostream_repr", "__copy__": "generic_copy_wrapper", "__deepcopy__": "generic_deepcopy_wrapper"}
        L = lam(e)
        if name in want and L is None:
            n = last(e)
            if n is None:
                return self.rep.undecided(where, "bound expression")
            self.n += 1
            if n not in want.values() and n not in self.d.names:
                return self.rep.undecided(where, f"{name} is bound to {n}")
            self.rep.check(n == want[name], f"name:{cls}:{name}", where, f"{name} is bound to {e}")
            m = re.search(r"<(.*)>\s*$", e, re.S)
            if m and cls:
                self.rep.check(m.group(1).split("::")[-1].strip() == cls.split("::")[-1], f"type:{cls}:{name}", where,
                               f"{name} of {cls} is that of {m.group(1)}")
            return
        if name in OPS and L:
            ps, types, body = L
            m = re.match(r"\{\s*return\s+(\w+)\s*([<>=!+\-]=?)\s*(.*?);\s*\}$", body, re.S)
            if not m or len(ps) != 2:
                return self.rep.undecided(where, "operator")
            self.n += 1
            a, op, b = m.groups()
            b = b.strip()
            self.rep.check(op == OPS[name] and a == ps[0] and re.search(r"\b" + ps[1] + r"\b", b),
                           f"op:{cls}:{name}:{types[1]}", where, f"{name} is {a} {op} {b}")
            if b != ps[1]:
                w = re.match(r"std::chrono::duration<double,\s*std::ratio<86400(,\s*1)?>>[({]" + ps[1] + r"[)}]$", b) \
                    or re.match(r"kep3::(?:chr_)?days?[({]" + ps[1] + r"[)}]$", b)
                if w:
                    self.rep.ok(where)
                else:
                    r = re.match(r"std::chrono::duration<double,\s*std::ratio<([\d, ]+)>>[({]" + ps[1] + r"[)}]$", b)
                    if r or re.match(r"std::chrono::(hours|minutes|seconds)", b):
                        self.rep.bad(f"op:{cls}:{name}:unit", where, f"a number of days is added as {b}")
                    else:
                        self.rep.undecided(where, f"operand {b}")
            return

    def lam(self, name, L, kws, cls, where):
        ps, types, body = L
        rep = self.rep
        method = cls is not None and types and cls.split("::")[-1] in types[0]
        want = norm(name)
        free = ps[1:] if method else ps
        cs = calls(body, ps)
        # the entity of the name; for the integrators the factory get_ta_xxx
        alias = {want, want.replace("get_", "get_ta_", 1)}
        hit = [c for c in cs if c[0] in alias]
        ents = [c for c in cs if c[3].startswith("kep3::") and c[0] in self.d.names
                or method and c[2].rstrip(".->") == ps[0]]
        if not hit:
            if len(ents) >= 1:
                self.n += 1
                rep.bad(f"name:{cls}:{name}", where, f"{name} calls {', '.join(sorted({c[0] for c in ents}))}")
            else:
                rep.undecided(where, f"{name}: no call recognised")
            return
        c = hit[0]
        self.n += 1
        args = [re.sub(r"std::move\((\w+)\)", r"\1", a) for a in c[1]]
        # std::visit([&](const auto &v) {return pl.eph(v);}, when): v stands for the visited parameter
        v = re.search(r"std::visit\(\s*\[[^\]]*\]\s*\([^)]*?(\w+)\)", body)
        if v:
            e = match(body, body.index("(", v.start()))
            a = split(body[body.index("(", v.start()) + 1:e - 1])
            if len(a) == 2:
                args = [a[1] if x == v.group(1) else x for x in args]
        rep.check(args == free, f"args:{cls}:{name}", where,
                  f"{name} takes ({', '.join(free)}) and calls {c[0]}({', '.join(args)})") \
            if all(re.match(r"\w+$", a) for a in args) and sorted(args) == sorted(free) or len(args) != len(free) \
            else rep.undecided(where, f"arguments of {c[0]}({', '.join(args)})")
        if kws:
            if len(kws) != len(free):
                rep.bad(f"kw:{cls}:{name}", where, f"{len(free)} parameters, {len(kws)} keywords")
            else:
                self.match(kws, [free], where, f"{cls}:{name}")
        self.arrays(name, body, cls, where)
        self.tuples(name, body, cls, where)

    def arrays(self, name, body, cls, where):
        """Shapes against the size of the data handed over."""
        size = {}
        for m in re.finditer(r"std::array<double,\s*(\d+)>\s*&?\s*(\w+)\s*=\s*([^;]*);", body):
            size[m.group(2)] = int(m.group(1))
        src = {}
        for m in re.finditer(r"auto\s+(\w+)\s*=\s*std::make_unique<([^;]*)>\s*\(([^;]*)\)\s*;", body):
            t = re.match(r"std::array<double,\s*(\d+)>$", m.group(2).strip())
            src[m.group(1)] = int(t.group(1)) if t else None
            a = re.sub(r"std::move\((\w+)\)", r"\1", m.group(3)).strip()
            if t and a in size:
                self.rep.check(size[a] == int(t.group(1)), f"size:{cls}:{name}:{m.group(1)}", where, "array copied")
        ptr = {}
        for m in re.finditer(r"\*\s*(\w+)\s*=\s*(\w+)\.release\(\)", body):
            ptr[m.group(1)] = m.group(2)
        caps = {m.group(1): m.group(2) for m in re.finditer(r"py::capsule\s+(\w+)\s*\(\s*(\w+)\.get\(\)", body)}
        for m in re.finditer(r"py::array_t<double>\s*\(\s*py::array::ShapeContainer\s*\{", body):
            b = body.index("(", m.start())
            e = match(body, b)
            a = split(body[b + 1:e - 1])
            sh = split(a[0][a[0].index("{") + 1:a[0].rindex("}")])
            dims = []
            for x in sh:
                y = re.sub(r"(static_cast|boost::numeric_cast)<py::ssize_t>\((.*)\)$", r"\2", x.strip(), flags=re.S)
                dims.append(int(y) if re.match(r"\d+u?$", y) and not y.endswith("u") else y)
            p = re.match(r"(\w+)->data\(\)$", a[1].strip()) if len(a) > 1 else None
            q = ptr.get(p.group(1)) if p else None
            if q is None:
                self.rep.undecided(where, f"{name}: data of an array")
                continue
            if len(a) > 2:
                c = re.sub(r"std::move\((\w+)\)", r"\1", a[2]).strip()
                if c in caps:
                    self.n += 1
                    self.rep.check(caps[c] == q, f"owner:{cls}:{name}:{q}", where,
                                   f"the array over {q} is kept alive by the capsule of {caps[c]}")
            if all(isinstance(x, int) for x in dims):
                n = 1
                for x in dims:
                    n *= x
                if src.get(q) is not None:
                    self.n += 1
                    self.rep.check(n == src[q], f"shape:{cls}:{name}:{q}", where,
                                   f"an array of shape {dims} over {src[q]} numbers")
                else:
                    self.rep.undecided(where, f"shape {dims} of data of run-time size")
                continue
            k = (name, str(cls).split("::")[-1].replace("_hf", ""))
            want = {("compute_mc_grad", "sims_flanagan"): (7, "3n+1"), ("compute_tc_grad", "sims_flanagan"): ("n", "3n"),
                    ("eph_v", "planet"): ("n", 6)}.get(k)
            got = tuple(self.sz(x) for x in dims)
            if want is None or None in got:
                self.rep.undecided(where, f"shape {dims}")
            else:
                self.n += 1
                self.rep.check(got == want, f"shape:{cls}:{name}:{q}", where, f"an array of shape {got}, for data of shape {want}")

    def tuples(self, name, body, cls, where):
        """A tuple of arrays has them in the order of the tuple the entity returns."""
        ref = {m.group(1): int(m.group(2)) for m in
               re.finditer(r"\b(\w+)\s*=\s*std::get<(\d+)>\(\w+\)\s*;", body)}
        own = {m.group(1): m.group(3).strip() for m in
               re.finditer(r"auto\s+(\w+)\s*=\s*std::make_unique<([^;]*)>\s*\(([^;]*)\)\s*;", body)}
        ptr = {m.group(1): m.group(2) for m in re.finditer(r"\*\s*(\w+)\s*=\s*(\w+)\.release\(\)", body)}
        arr = {m.group(1): m.group(2) for m in
               re.finditer(r"\b(\w+)\s*=\s*py::array_t<double>\s*\([^;]*?(\w+)->data\(\)", body)}
        for m in re.finditer(r"py::make_tuple\s*\(", body):
            a = split(body[m.end():match(body, m.end() - 1) - 1])
            pos = []
            for x in a:
                x = re.sub(r"std::move\((\w+)\)", r"\1", x)
                g = re.match(r"std::get<(\d+)>\(\w+\)$", x)
                pos.append(int(g.group(1)) if g else ref.get(own.get(ptr.get(arr.get(x)))))
            if len(a) > 1 and None not in pos:
                self.n += 1
                self.rep.check(pos == list(range(len(a))), f"tuple:{cls}:{name}", where,
                               f"the tuple returned has the results of {name} in the order {pos}")

    def sz(self, x):
        if isinstance(x, int):
            return x
        x = re.sub(r"\b\w+\.(get_nseg|size)\(\)", "n", x)
        x = re.sub(r"(\d)u\b", r"\1", x)
        if not re.match(r"[n\d*+()\s-]+$", x):
            return None
        try:
            f = [eval(x, {"__builtins__": {}}, {"n": k}) for k in (0, 1, 2)]      # a linear form in the size
        except Exception:
            return None
        b, a = f[0], f[1] - f[0]
        if f[2] != b + 2 * a:
            return None
        return b if a == 0 else ("" if a == 1 else str(a)) + "n" + (f"+{b}" if b else "")


def check(rep):
    ch = Chk(rep)
    core = Core()
    files = [f for f in core.files if f.endswith(".cpp")]
    nst = 0
    for f in files:
        s = expand(strip(open(f).read()))
        rel = os.path.relpath(f, REPO)
        cls = {}
        it = []
        for m in re.finditer(r"\b(?:py|pybind11)::(?:class_|enum_)\s*<", s):
            e = core.angle(s, m.end() - 1)
            t = split(s[m.end():e - 1])[0]
            m2 = re.match(r"\s*(\w+)?\s*[({]", s[e:])
            if not m2:
                continue
            j = match(s, e + m2.end() - 1)
            if m2.group(1):
                cls[m2.group(1)] = t
            it.append((j, t))
            m3 = re.match(r"\s*\w*\s*[({]\s*\w+\s*,\s*\"(\w+)\"", s[e:])
            if m3:
                want = t.split("::")[-1]
                nm = norm(m3.group(1))
                rep.check(nm == want or nm == "el_type" and want == "elements_type", f"class:{nm}", rel,
                          f"the class {m3.group(1)} is {t}")
                ch.n += 1
        for m in re.finditer(r"\bauto\s*&?&?\s*(\w+)\s*=\s*(?:pykep::)?expose_one_udpla\s*<", s):
            e = core.angle(s, m.end() - 1)
            t = s[m.end():e - 1].strip()
            cls[m.group(1)] = t
            a = split(s[s.index("(", e) + 1:match(s, s.index("(", e)) - 1])
            n = next((x.strip('"') for x in a if x.startswith('"')), None)
            if n:
                rep.check(norm(n) == t.split("::")[-1], f"class:{n}", rel, f"the class {n} is {t}")
                ch.n += 1
        for m in re.finditer(r"(?<![\w.>:])(\w+)\s*(?=\.\s*def\w*\s*\()", s):
            v = m.group(1)
            if v in cls or v == "m":
                it.append((m.end(), cls.get(v)))
        for i, c in it:
            while True:
                m = re.match(r"\s*\.\s*(\w+)\s*\(", s[i:])
                if not m:
                    break
                b = i + m.end() - 1
                e = match(s, b)
                a = split(s[b + 1:e - 1])
                nst += 1
                nm = a[0][:40] if a else ""
                with rep.part(f"{rel}:{nm}"):
                    ch.stmt(m.group(1), a, c, f"{rel} {c or 'module'}.{m.group(1)}({re.sub(chr(10), ' ', nm)})")
                i = e
        # constants
        for m in re.finditer(r"\bm\s*\.\s*attr\s*\(\s*\"(\w+)\"\s*\)\s*=\s*([^;]+);", s):
            w = re.match(r"(?:py::\w+|py::cast)\s*[({]\s*(?:kep3::)([\w:]+)\s*[)}]$", m.group(2).strip())
            nst += 1
            if not w:
                rep.undecided(f"{rel}:{m.group(1)}", "constant expression")
                continue
            ch.n += 1
            rep.check(w.group(1) == m.group(1), f"const:{m.group(1)}", f"{rel} {m.group(1)}",
                      f"the constant {m.group(1)} is kep3::{w.group(1)}")
    # Python planets: each method of the wrapper asks the object for the method of its own name
    p = os.path.join(REPO, "pykep", "python_udpla.cpp")
    with rep.part("python_udpla"):
        s = strip(open(p).read())
        for m in re.finditer(r"\bpython_udpla::(\w+)\s*\([^)]*\)\s*const\s*\{", s):
            body = s[m.end() - 1:match(s, m.end() - 1)]
            n = m.group(1)
            g = re.findall(r"getter_wrapper<[^>]*>\s*\(\s*m_obj\s*,\s*\"(\w+)\"\s*,\s*([^;]*)\)\s*;", body)
            for a, dflt in g:
                ch.n += 1
                rep.check(a == n, f"udpla:{n}", f"python_udpla::{n}", f"asks the object for {a}")
                if n in ("get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius") and re.match(r"-?[\d.]+$", dflt.strip()):
                    rep.check(float(dflt) == -1, f"udpla:{n}:default", f"python_udpla::{n}", f"default {dflt}")
            at = re.findall(r"(?:auto|py::object)\s+(\w+)\s*=\s*(?:pykep::)?callable_attribute\(m_obj,\s*\"(\w+)\"\)", body)
            var = dict(at)
            for v, a in at:
                r = re.search(r"\b" + v + r"\s*\((?!\))", body)
                if r:
                    ch.n += 1
                    e = match(body, r.end() - 1 if body[r.end() - 1] == "(" else body.index("(", r.start()))
                    args = split(body[body.index("(", r.start()) + 1:e - 1])
                    ps = re.search(r"python_udpla::" + n + r"\s*\(([^)]*)\)", s).group(1)
                    pn = [x.split()[-1].lstrip("&*") for x in split(ps)]
                    rep.check(a == n, f"udpla:{n}", f"python_udpla::{n}", f"calls {a} of the object")
                    if all(re.match(r"\w+$", x) for x in args):
                        rep.check(args == pn, f"udpla:{n}:args", f"python_udpla::{n}", f"{a}({', '.join(args)}) for ({', '.join(pn)})")
            if not g and not at:
                rep.undecided(f"python_udpla::{n}", "no attribute of the object asked for")
            del var
    rep.count("binding statements", nst)
    rep.count("obligations", ch.n)


if __name__ == "__main__":
    sys.exit(report.main("C24", "each binding names the C++ entity of the same name, with its parameters in order", check))
