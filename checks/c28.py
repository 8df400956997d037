import ast
import glob
import math
import os
import re
import struct
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import build
from kv.build import AnalysisError, BUILD, REPO
from kv.pycore import Core, expand, match, split, strip
from kv.report import main

RULE = ("The compiler's constant evaluation of every constant in constants.hpp is read off the intermediate representation and "
        "compared with its defining source (exact for conventional values, one part in 1e9 for measured ones, one part in "
        "1e15 for derived ones, with the relations among them); every attribute exported to Python is the constant of that "
        "name and is bound once in the package; no other literal of the sources is a second, differing approximation of a "
        "conversion constant.")

# name -> (value, relative tolerance, source)
TABLE = {
    "pi": (math.pi, 0, "mathematics"), "half_pi": (math.pi / 2, 0, "mathematics"),
    "AU": (149597870700.0, 0, "IAU 2012 resolution B2"), "CAVENDISH": (6.67430e-11, 1e-4, "CODATA 2018"),
    "MU_SUN": (1.32712440041279419e20, 1e-8, "DE440"), "MU_EARTH": (3.98600435507e14, 1e-8, "DE440"),
    "MU_MOON": (4.902800118e12, 1e-8, "DE440"),
    "EARTH_J2": (1.08262668e-3, 1e-5, "EGM"), "EARTH_RADIUS": (6378137.0, 1e-6, "WGS84"),
    "DAY2SEC": (86400.0, 0, "definition"), "G0": (9.80665, 0, "CGPM 1901"),
}
# derived: name -> value from the others
DERIVED = {
    "DEG2RAD": lambda c: c["pi"] / 180, "RAD2DEG": lambda c: 180 / c["pi"], "SEC2DAY": lambda c: 1 / c["DAY2SEC"],
    "DAY2YEAR": lambda c: 1 / 365.25, "half_pi": lambda c: c["pi"] / 2,
    "EARTH_VELOCITY": lambda c: math.sqrt(c["MU_SUN"] / c["AU"]),
    "CR3BP_EARTH_MOON": lambda c: c["MU_MOON"] / (c["MU_EARTH"] + c["MU_MOON"]),
}
LOOSE = {"EARTH_VELOCITY": 1e-9, "CR3BP_EARTH_MOON": 1e-9}
RECIPROCAL = [("DEG2RAD", "RAD2DEG"), ("DAY2SEC", "SEC2DAY")]
HPP = "include/kep3/core_astro/constants.hpp"


def evaluated():
    """Values of the constants as the compiler sees them, by name."""
    s = strip(open(os.path.join(REPO, HPP)).read())
    names = sorted(set(re.findall(r"\bdouble\s+(\w+)\s*[={(]", s)) | set(TABLE) | set(DERIVED))
    out, missing = {}, []
    d = os.path.join(BUILD, "const")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "constants.cpp")

    def attempt(ns):
        with open(src, "w") as f:
            f.write("#include <kep3/core_astro/constants.hpp>\n" +
                    "".join(f"extern const double kv_{n};\nconst double kv_{n} = static_cast<double>(kep3::{n});\n" for n in ns))
        r = subprocess.run([build.CXX, *build.CXXFLAGS, *build.include_flags(), "-S", "-emit-llvm", src, "-o", "-"],
                           capture_output=True, text=True)
        if r.returncode:
            return r.stderr
        for m in re.finditer(r"@kv_(\w+) = [^\n]*constant double (\S+?),", r.stdout):
            v = m.group(2)
            out[m.group(1)] = struct.unpack(">d", bytes.fromhex(v[2:].zfill(16)))[0] if v.startswith("0x") else float(v)
        return None
    e = attempt(names)
    if e:
        for n in list(names):
            if re.search(r"no member named '" + n + r"'|'" + n + r"' is not", e):
                names.remove(n)
                missing.append(n)
        e = attempt(names)
        if e:
            raise AnalysisError("constants.hpp does not compile: " + e[-800:])
    return out, missing


def rel(a, b):
    return abs(a - b) / abs(b)


def literals(c):
    """Numbers that only approximate a conversion constant."""
    k = {"pi": math.pi, "2 pi": 2 * math.pi, "pi/2": math.pi / 2, "degrees to radians": math.pi / 180,
         "radians to degrees": 180 / math.pi, "seconds per day": 86400.0, "days per Julian year": 365.25,
         "days per Julian century": 36525.0, "seconds per Julian year": 365.25 * 86400, "Julian years per day": 1 / 365.25,
         "astronomical unit": 149597870700.0, "astronomical unit in km": 149597870.7, "G0": 9.80665,
         "Julian date of MJD2000 zero": 2451544.5, "Julian date of MJD zero": 2400000.5}
    exact = {v for v in k.values()}

    def near(x, digits):
        if x in exact or x in (51544.0, 2451545.0, 86164.0):
            return None
        for n, v in k.items():
            tol = 2e-7 if n.startswith("Julian date") else 2e-3
            if abs(x - v) <= 4 * math.ulp(v):
                return None
            if digits >= 3 and abs(x - v) < tol * v:
                return n
        return None
    num = re.compile(r"(?<![\w.])(\d[\d']*\.?[\d']*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)[fFlLuUzZ]*(?![\w.])")
    files = [f for root, ext in (("src", "cpp"), ("include", "hpp"), ("pykep", "cpp"), ("pykep", "hpp"))
             for f in glob.glob(os.path.join(REPO, root, "**", "*." + ext), recursive=True)]
    for f in sorted(files):
        r = os.path.relpath(f, REPO)
        if r == HPP or "docstrings" in r:
            continue
        s = strip(open(f, encoding="utf-8", errors="replace").read())
        s = re.sub(r'"(\\.|[^"\\])*"', '""', s)
        # coefficients of the planetary theories are data
        s = re.sub(r"\{[^{}]*\}", lambda m: "{}" if m.group(0).count(",") > 20 else m.group(0), s)
        for m in num.finditer(s):
            t = m.group(1).replace("'", "")
            try:
                x = float(t)
            except ValueError:
                continue
            n = near(x, len(re.sub(r"[eE].*", "", t).replace(".", "").strip("0")))
            yield r, s[:m.start()].count("\n") + 1, m.group(0), n
    for f in sorted(glob.glob(os.path.join(REPO, "pykep", "**", "*.py"), recursive=True)):
        r = os.path.relpath(f, REPO)
        if os.path.basename(f).startswith("test"):
            continue
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = ast.parse(open(f, encoding="utf-8").read())
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                dg = len(re.sub(r"e.*", "", repr(x.value)).replace(".", "").replace("-", "").strip("0"))
                if isinstance(x.value, int) and x.value < 1000:
                    dg = 0      # whole numbers of days and the like
                yield r, x.lineno, repr(x.value), near(float(x.value), dg)


def exports(rep, c):
    n = 0
    for f in sorted(glob.glob(os.path.join(REPO, "pykep", "*.cpp"))):
        s = expand(strip(open(f, encoding="utf-8").read()))
        for m in re.finditer(r"\.\s*attr\s*\(\s*\"(\w+)\"\s*\)\s*=\s*([^;]*);", s):
            name, e = m.group(1), m.group(2).strip()
            if name not in c:
                continue
            n += 1
            q = re.findall(r"(?:kep3::)?\b([A-Za-z_]\w*)\b(?!\s*(?:::|\())", re.sub(r"\b(?:py|pybind11)\s*::\s*\w+", "", e))
            q = [x for x in q if x in c]
            w = f"pykep/{os.path.basename(f)}"
            if len(q) != 1 or re.search(r"[*/+]|\d", re.sub(r"kep3|py::float_|\b\w*[A-Z]\w*\b", "", e)):
                rep.undecided(f"{name}: exported value", e)
                continue
            rep.check(c[q[0]] == c[name], f"{name}: exported under its own name", w, f"the attribute {name} is kep3::{q[0]}")
    if n == 0:
        rep.undecided("exports", "no constant found in pykep/*.cpp")
    rep.count("exported constants", n)
    # bound once in the Python package
    names = {k for k in c if k.isupper() or "_" in k and k.upper() == k} | {k for k in c if re.match(r"[A-Z0-9_]+$", k)}
    for f in sorted(glob.glob(os.path.join(REPO, "pykep", "**", "*.py"), recursive=True)):
        if os.path.basename(f).startswith("test"):
            continue
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = ast.parse(open(f, encoding="utf-8").read())
        r = os.path.relpath(f, REPO)
        bad = []
        for x in ast.walk(t):
            tg = []
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                tg = x.targets if isinstance(x, ast.Assign) else [x.target]
            for g in tg:
                for y in ast.walk(g):
                    nm = y.id if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) else \
                        y.attr if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) else None
                    if nm in names:
                        # an alias of the same constant is the same value
                        v = getattr(x, "value", None)
                        if isinstance(x, ast.Assign) and isinstance(v, ast.Attribute) and v.attr == nm:
                            continue
                        bad.append((nm, x.lineno))
        for nm, l in bad:
            rep.bad(f"{nm}: one value", f"{r}:{l}", f"{nm} is bound again in the package")
        rep.ok("modules: no constant bound again", r)


def run(rep):
    c, missing = evaluated()
    for n in missing:
        rep.undecided(n, "not declared in constants.hpp any more")
    for n, (v, tol, src) in TABLE.items():
        if n in c:
            rep.check(c[n] == v if tol == 0 else rel(c[n], v) <= tol, f"{n}: value", HPP, f"{c[n]!r}, {src} has {v!r}")
    for n, f in DERIVED.items():
        if n not in c:
            continue
        try:
            v = f(c)
        except KeyError:
            continue
        rep.check(rel(c[n], v) <= LOOSE.get(n, 1e-15), f"{n}: consistent with the constants it derives from", HPP,
                  f"{c[n]!r}, the others give {v!r}")
    for a, b in RECIPROCAL:
        if a in c and b in c:
            rep.check(abs(c[a] * c[b] - 1) < 4e-16, f"{a} and {b}: reciprocal", HPP, f"{a} {b} = {c[a] * c[b]!r}")
    rep.count("constants", len(c))
    exports(rep, c)
    n = 0
    for f, line, text, k in literals(c):
        n += 1
        if k:
            rep.bad(f"{f}: one value of the constant ({k})", f"{f}:{line}", f"{text} is a second value of: {k}")
        else:
            rep.n_ok += 1
    rep.count("literals", n)
    rep.assumptions.append("Physical parameters of the bodies in the planetary theories (radii, masses) are data, not conversions.")


if __name__ == "__main__":
    sys.exit(main("C28", RULE, run))
