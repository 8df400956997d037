"""Lower /repo's C++ (current working tree) to LLVM IR and dump it as JSON.

Everything is derived from the working tree on each run; /verif/build only
caches by content hash (sources, headers, stubs, flags), so a stale result can
never be used for a changed tree.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"


class AnalysisError(Exception):
    """The analysis could not be carried out (never a verdict)."""


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _walk(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def tool(name):
    """Build (once per content) and return the path of a C++ tool in tools/."""
    src = os.path.join(VERIF, "tools", name, name + ".cpp")
    h = hashlib.sha256(_read(src)).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, f"{name}-{h}")
    if os.path.exists(exe):
        return exe
    lc = shutil.which("llvm-config-18") or "llvm-config"
    flags = subprocess.run([lc, "--cppflags"], capture_output=True, text=True, check=True).stdout.split()
    libs = subprocess.run([lc, "--ldflags", "--libs"], capture_output=True, text=True, check=True).stdout.split()
    tmp = exe + f".{os.getpid()}"
    r = subprocess.run([CXX, "-O1", "-std=c++17", "-fno-rtti", *flags, src, "-o", tmp, *libs],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build tool %s:\n%s" % (name, r.stderr[-2000:]))
    os.replace(tmp, exe)
    return exe


_inc = None


def config_include():
    """A directory holding kep3/config.hpp generated from config.hpp.in."""
    global _inc
    if _inc:
        return _inc
    txt = _read(os.path.join(REPO, "config.hpp.in")).decode()
    cm = _read(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r"project\(kep3\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    v = m.groups() if m else ("0", "0", "1")
    txt = (txt.replace("@kep3_VERSION@", ".".join(v)).replace("@kep3_VERSION_MAJOR@", v[0])
           .replace("@kep3_VERSION_MINOR@", v[1]).replace("@kep3_VERSION_PATCH@", v[2]))
    d = os.path.join(BUILD, "include")
    os.makedirs(os.path.join(d, "kep3"), exist_ok=True)
    p = os.path.join(d, "kep3", "config.hpp")
    if not os.path.exists(p) or _read(p).decode() != txt:
        tmp = p + f".{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, p)
    _inc = d
    return d


def include_flags(stubs=("stubs",)):
    fl = []
    for s in stubs:
        fl += ["-I", os.path.join(VERIF, s)]
    fl += ["-I", os.path.join(REPO, "include"), "-I", config_include()]
    return fl


CXXFLAGS = ["-std=c++20", "-O1", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
            "-fno-math-errno", "-DNDEBUG", "-DKV_ANALYSIS", "-Wno-everything", "-fno-unroll-loops"]

_tree_hash = None


def headers_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "drivers")):
            for p in _walk(root, (".hpp", ".h", ".tcc", "")):
                h.update(p.encode())
                h.update(_read(p))
        h.update(_read(os.path.join(REPO, "config.hpp.in")))
        _tree_hash = h.hexdigest()
    return _tree_hash


def lower(src, extra=()):
    """Lower one source file; returns (json path, None) or (None, error text)."""
    irdump = tool("irdump")
    flags = CXXFLAGS + list(extra)
    h = hashlib.sha256()
    h.update(headers_hash().encode())
    h.update(src.encode())
    h.update(_read(src))
    h.update(" ".join(flags).encode())
    h.update(os.path.basename(irdump).encode())
    key = h.hexdigest()[:24]
    d = os.path.join(BUILD, "ir")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src) + "." + key + ".json")
    if os.path.exists(out):
        return out, None
    bc = out + f".{os.getpid()}.bc"
    r = subprocess.run([CXX, *flags, *include_flags(), "-c", "-emit-llvm", src, "-o", bc],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-4000:]
    tmp = out + f".{os.getpid()}"
    r = subprocess.run([irdump, bc, tmp], capture_output=True, text=True)
    os.unlink(bc)
    if r.returncode:
        return None, r.stderr[-2000:]
    os.replace(tmp, out)
    return out, None


def lower_all(srcs, extra=()):
    """Lower several sources in parallel: {src: (path|None, err|None)}."""
    tool("irdump")
    config_include()
    headers_hash()
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(lambda s: lower(s, extra), srcs))
    return dict(zip(srcs, res))


def repo_src(*names):
    return [os.path.join(REPO, "src", n) for n in names]


def all_repo_sources():
    return _walk(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))


def driver(name):
    return os.path.join(VERIF, "drivers", name + ".cpp")


def load(path):
    with open(path) as f:
        return json.load(f)
