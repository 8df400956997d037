#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and the notes below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "abstract interpretation of the LLVM IR into a value graph per trace, decided by algebraic value numbering"
CHECKS = {
    "C01": (VG + "; relational (two-unit-system) evaluation of each trace", "value-graph"),
    "C02": (VG + "; relational (rotated-axes) evaluation of each trace", "value-graph"),
    "C03": (VG + " and implicit differentiation", "value-graph"),
    "C04": (VG + " and implicit differentiation", "value-graph"),
    "C05": (VG + " over all branches of the solver", "value-graph"),
    "C06": (VG + "; interval analysis of the case distinction", "value-graph"),
    "C07": (VG, "value-graph"),
    "C10": (VG, "value-graph"),
    "C11": (VG + "; interval analysis of which traces arguments inside and outside the domain can take", "value-graph"),
    "C20": (VG + "; truth tables of the comparisons read off the traces", "value-graph"),
    "C21": (VG + "; comparison with the documented default of each optional query", "value-graph"),
    "C22": (VG + " against the published formulae", "value-graph"),
    "C23": (VG + "; element by element against the scalar call", "value-graph"),
    "C12": (VG + "; every trace classified as accepted or rejected", "value-graph"),
    "C13": (VG + "; inductive comparison of histories with a fresh object", "value-graph"),
    "C14": (VG, "value-graph"),
    "C15": (VG + " and symbolic differentiation", "value-graph"),
    "C16": (VG + "; the expression graphs handed to the integrator compared with the documented dynamics", "value-graph"),
    "C17": ("lock-set analysis over abstract traces", "lockset"),
    "C29": (VG + "; inductive comparison of histories with a fresh object", "value-graph"),
    "C30": (VG + " and symbolic differentiation, with the integrator as an uninterpreted flow", "value-graph"),
    "C31": (VG + ", with the integrator as an uninterpreted flow", "value-graph"),
    "C18": (VG + "; the saved and the loaded object compared query by query", "value-graph"),
    "C08": (VG + " and symbolic differentiation", "value-graph"),
    "C19": ("effect (purity) analysis over abstract traces", "effects"),
    "C27": (VG + "; every access of every trace checked against the object it falls in", "value-graph"),
    "C24": ("queries over the binding statements (names, keyword order, array shapes and ownership) against the declarations "
            "of the library", "bindings"),
    "C25": ("static name, attribute, keyword and import resolution over the Python syntax trees", "names"),
    "C26": ("abstract interpretation of the Python syntax trees into a value graph, decided by algebraic value numbering "
            "and symbolic differentiation", "pygraph"),
    "C28": ("compile-time constant evaluation (LLVM IR initialisers) and literal scan against the definitions", "consts"),
    "C32": ("abstract interpretation of the Python syntax trees into a value graph, decided by algebraic value numbering",
            "pygraph"),
    "C09": ("path-sensitive typestate analysis (converged/exhausted) over all abstract traces", "value-graph"),
}
NOTE = {
    "value-graph": "Decided from source for all inputs following each enumerated trace, without executing it; equality "
                   "of expressions is decided by a randomized algebraic value numbering over a 61-bit prime field "
                   "(wrong with probability ~1e-15 per obligation). Arithmetic is taken as exact, root solvers as "
                   "returning a root of their equation. Trusts clang's lowering and the models of libm and BLAS. "
                   "Traces without a model and loops that cannot be bounded are reported as undecided in the evidence.",
    "effects": "Every write of every enumerated trace to state that outlives the call, every static initialised along it "
               "and every call into the environment is recorded by abstract interpretation from source, without executing "
               "it; writes between marks to an object whose const member functions are called likewise. State written "
               "under a lock or per thread is followed into a second call. Covers the traces and sizes enumerated (legs up "
               "to 3 segments, up to 2 revolutions); state inside the libraries used is trusted. Atomics are undecided.",
    "bindings": "The binding sources cannot be compiled here (pybind11 and heyoka are not installed): they are read as "
                "text after macro expansion, and what is bound is resolved against the declarations of the library. "
                "Binding forms that are not recognised are reported as undecided; types are not checked.",
    "names": "Scopes, imports, attributes of the package's own modules and classes and of the extension module (read off "
             "the binding sources), keywords and argument counts are resolved over the syntax tree without executing it. "
             "Attributes of third-party modules and of values of unknown type are not resolved.",
    "pygraph": "The Python sources are abstractly interpreted on their syntax trees (not executed): numbers are nodes of a "
               "value graph, the extension module, numpy and matplotlib are replaced by trusted models, equality of "
               "expressions is decided by a randomized algebraic value numbering over a 61-bit prime field. Covers the "
               "numbers of segments, planets and encodings enumerated; exact arithmetic; planets are taken as Keplerian "
               "where the documentation says so (derivative of the ephemerides).",
    "consts": "The values are the initialisers clang computes for the constants; definitions are those of the documents "
              "cited in the sources (IAU, CODATA, DE440). Literals elsewhere in the sources that repeat a constant are "
              "compared with it.",
    "lockset": "Every access of the functions that hand out cached integrators to process-wide state is recorded with "
               "the mutexes held, by abstract interpretation from source (heyoka's headers replaced by an opaque "
               "stand-in); no execution and no scheduling is involved. Covers sequences of calls that miss, hit and "
               "count the caches. Atomics are reported as undecided.",
}
NA = {
    "N01": "Convergence depends on the numerical iteration for every input; no static argument in reach bounds it.",
    "N02": "Floating-point accuracy over a domain is a runtime quantity; a static error analysis of these "
           "transcendental, iterative codes is out of reach.",
    "N03": "Completeness of the solutions depends on the numerical iteration (Halley/Householder) of the solver.",
    "N04": "The step-size control lives in heyoka, which is not part of the repository and not installed here.",
    "N05": "Agreement with reference ephemerides is a comparison of data, not a property of the source.",
    "N06": "The accuracy of the gradients depends on the numerical integration of the variational equations by heyoka, "
           "which is not installed here; that they are assembled by the chain rule is C30.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    f = f"checks/{i.lower()}.py"
    if i in CHECKS:
        t, n = CHECKS[i][:2]
        checks.append({"property": i, "quick_cmd": f"python3 {f}", "thorough_cmd": f"VERIF_TIER=thorough python3 {f}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other",
                       "level_note": NOTE[n] + (" " + CHECKS[i][2] if len(CHECKS[i]) > 2 else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
