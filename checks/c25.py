import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv.report import main
from kv.build import AnalysisError
from kv.pynames import Names

RULE = ("The import of the package is followed statement by statement over abstract module namespaces (what the extension "
        "module exports is read off the binding sources); then every function, method, lambda and comprehension is "
        "walked with the scoping rules of the language.  Every name must be bound in an enclosing scope and, if local, on "
        "some path before its use (on every combination of the function's boolean and optional parameters); every "
        "attribute of a module, class or instance of the package must exist; every call of one of its functions, methods "
        "or classes must fit a signature; every documented name must exist after a plain import.")


def run(rep):
    found = []
    n = Names(lambda k, w, d: found.append((k, w, d)))
    try:
        n.run()
    except SyntaxError as e:
        rep.bad(f"{os.path.basename(e.filename or '')}: syntax", f"{e.filename}:{e.lineno}", e.msg)
        return
    if not n.core.names:
        raise AnalysisError("no exported name found in pykep/*.cpp")
    for k, w, d in found:
        rep.bad(k, w, d)
    for k, v in n.stats.items():
        rep.count(k.replace(" ", "_"), v)
    bad = len(rep.viol)
    total = sum(n.stats[k] for k in ("names", "attributes", "calls", "imports"))
    for m in n.order:
        rep.ok("module followed: " + m.name, m.rel)
    for f in n.funcs:
        rep.ok("function resolved: " + f.node.name, f"{f.mod.rel}:{f.node.lineno}")
        rep.functions.add("kep3::py " + f.mod.name + "." + f.node.name)
    rep.n_ok += total - bad
    rep.assumptions.append("Attributes of objects of third-party packages are not resolved; values of unknown type are "
                           "assumed to have the attributes used.")


if __name__ == "__main__":
    sys.exit(main("C25", RULE, run))
