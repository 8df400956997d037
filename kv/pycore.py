"""What the extension module exports, read off the binding sources (pykep/*.cpp)."""
import glob
import os
import re

from .build import REPO


def strip(s):
    """Comments removed (strings kept)."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i and s[i - 1].isalnum())):
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            i = n if j < 0 else j + 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


def match(s, i, op="(", cl=")"):
    """Index after the bracket that closes s[i]."""
    d, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "'" and not (i and s[i - 1].isalnum())):
            i += 1
            while i < n and s[i] != c:
                i += 2 if s[i] == "\\" else 1
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return n


def split(s):
    """Arguments at the top level (angle brackets of templates are left alone when balanced inside one argument)."""
    out, d, cur, i, ang = [], 0, "", 0, 0
    while i < len(s):
        c = s[i]
        if c == '"' or (c == "'" and not (i and s[i - 1].isalnum())):
            j = i + 1
            while j < len(s) and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "<" and d == 0 and re.search(r"\w$", cur):
            ang += 1
        elif c == ">" and d == 0 and ang and not cur.endswith("-"):
            ang -= 1
        if c == "," and d == 0 and ang == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def expand(s):
    """One-parameter-list macros defined in the file itself are expanded."""
    s = s.replace("\\\n", " ")
    macros = {}
    out = []
    for line in s.split("\n"):
        m = re.match(r"\s*#\s*define\s+(\w+)\(([^)]*)\)\s*(.*)", line)
        if m:
            macros[m.group(1)] = ([a.strip() for a in m.group(2).split(",")], m.group(3))
            out.append("")
            continue
        if re.match(r"\s*#", line):
            out.append("")
            continue
        out.append(line)
    s = "\n".join(out)
    for name, (params, body) in macros.items():
        while True:
            m = re.search(r"\b" + name + r"\s*\(", s)
            if not m:
                break
            e = match(s, m.end() - 1)
            args = split(s[m.end():e - 1])
            b = body
            for p, a in zip(params, args):
                b = re.sub(r"\s*##\s*" + p + r"\b(\s*##\s*)?", lambda _: a, b)
                b = re.sub(r"\b" + p + r"\s*##\s*", lambda _: a, b)
                b = re.sub(r"(?<!#)#\s*" + p + r"\b", lambda _: '"' + a + '"', b)
                b = re.sub(r"\b" + p + r"\b(?!\")", lambda _: a, b) if p not in ("name",) else b
            s = s[:m.start()] + b + s[e:]
    return re.sub(r'(\w|\()"\s+"(?=\w)', r"\1", s)     # adjacent literals


class CClass:
    def __init__(self, name):
        self.name = name
        self.members = {}      # name -> ("method", [sig]) | ("prop", writable) | ("class", CClass) | ("value",)
        self.ctors = []
        self.dynamic = False

    def __repr__(self):
        return f"CClass({self.name})"


OBJ = {"__class__", "__doc__", "__dict__", "__init__", "__name__", "__module__", "__repr__", "__str__", "__eq__",
       "__hash__", "__new__", "__qualname__", "__getattribute__", "__setattr__", "__dir__", "__reduce__",
       "__getstate__", "__setstate__", "__format__", "__mro__", "__subclasses__", "__annotations__", "__bases__"}


def sig(args):
    """[(name, has default)] from the py::arg annotations, None without any."""
    r = []
    for a in args:
        m = re.match(r"(?:py|pybind11)::arg\(\s*\"(\w+)\"\s*\)(.*)", a, re.S)
        if m:
            r.append((m.group(1), "=" in m.group(2)))
        else:
            m = re.match(r"\"(\w+)\"_a(.*)", a, re.S)
            if m:
                r.append((m.group(1), "=" in m.group(2)))
    return r or None


class Core:
    def __init__(self):
        self.names = {}        # name -> ("const",) | ("func", [sig]) | ("class", CClass)
        files = sorted(glob.glob(os.path.join(REPO, "pykep", "*.cpp")) + glob.glob(os.path.join(REPO, "pykep", "*.hpp")))
        self.files = [f for f in files if "docstrings" not in f]
        for f in self.files:
            try:
                self.file(expand(strip(open(f).read())))
            except OSError:
                pass

    def file(self, s):
        var = {}
        # classes, enums
        for m in re.finditer(r"\b(?:py|pybind11)::(class_|enum_)\s*<", s):
            e = self.angle(s, m.end() - 1)
            m2 = re.match(r"\s*(\w+)?\s*[({]\s*(\w+)\s*,\s*\"(\w+)\"", s[e:])
            if not m2:
                continue
            v, scope, name = m2.groups()
            c = CClass(name)
            c.enum = m.group(1) == "enum_"
            j = match(s, s.index("(", e) if "(" in s[e:e + m2.end()] else s.index("{", e))
            c.dynamic = "dynamic_attr" in s[e:j]
            owner = var.get(scope)
            if isinstance(owner, CClass):
                owner.members[name] = ("class", c)
            else:
                self.names[name] = ("class", c)
            if v:
                var[v] = c
            self.chain(s, j, c, owner)
        for m in re.finditer(r"\bauto\s*&?&?\s*(\w+)\s*=\s*(?:pykep::)?expose_one_udpla\s*<", s):
            e = self.angle(s, m.end() - 1)
            a = split(s[s.index("(", e) + 1:match(s, s.index("(", e)) - 1])
            n = next((x.strip('"') for x in a if x.startswith('"')), None)
            if n:
                c = CClass(n)
                c.enum = False
                c.ctors.append([])
                c.members["_pykep_cpp_udpla"] = ("value",)
                self.names[n] = ("class", c)
                var[m.group(1)] = c
        for m in re.finditer(r"(?<![\w.>:])(\w+)\s*\.\s*(?=def\w*\s*\(|attr\s*\()", s):
            v = m.group(1)
            c = var.get(v)
            if c is None and v in ("c", "in", "p_module", "pla", "o", "obj", "self"):
                continue
            self.chain(s, m.end() - 1 if s[m.end() - 1] == "." else s.rindex(".", m.start(), m.end()), c, None)

    def angle(self, s, i):
        d = 0
        while i < len(s):
            if s[i] == "<":
                d += 1
            elif s[i] == ">" and s[i - 1] != "-":
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return i

    def chain(self, s, i, c, owner):
        while True:
            m = re.match(r"\s*\.\s*(\w+)\s*\(", s[i:])
            if not m:
                return
            b = i + m.end() - 1
            e = match(s, b)
            self.one(m.group(1), split(s[b + 1:e - 1]), c, owner, s[e:e + 4])
            i = e

    def one(self, what, args, c, owner, after):
        name = args[0].strip('"') if args and args[0].startswith('"') else None
        if what == "attr" and c is None:
            if name and re.match(r"\s*=[^=]", after):
                self.names.setdefault(name, ("const",))
        elif what == "value" and isinstance(c, CClass):
            if name:
                c.members[name] = ("value",)
        elif what == "export_values":
            for n in list(c.members):
                if c.members[n] == ("value",):
                    if owner is None:
                        self.names.setdefault(n, ("const",))
                    else:
                        owner.members.setdefault(n, ("value",))
        elif what in ("def", "def_static"):
            if c is None:
                if name:
                    k = self.names.setdefault(name, ("func", []))
                    if k[0] == "func":
                        k[1].append(sig(args[1:]))
            elif name:
                k = c.members.setdefault(name, ("method", []))
                if k[0] == "method":
                    k[1].append(sig(args[1:]))
            elif args and re.match(r"(py|pybind11)::init", args[0]):
                m = re.match(r"(?:py|pybind11)::init\s*<(.*)>\s*\(\s*\)$", args[0], re.S)
                s = sig(args[1:])
                if s is None and m and not m.group(1).strip():
                    s = []
                c.ctors.append(s)
        elif what.startswith("def_property") or what.startswith("def_read"):
            if name and c is not None:
                c.members[name] = ("prop", what in ("def_property", "def_readwrite", "def_property_static"))
