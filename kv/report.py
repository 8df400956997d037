"""Verdicts, evidence and known findings shared by all checks."""
import json
import os
import re
import signal
import sys
import time
import traceback

from .build import AnalysisError, VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, technique_rule):
        self.prop = prop
        self.rule = technique_rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.n_ok = 0
        self.ok_samples = []
        self.viol = []          # (key, where, detail)
        self.undec = []
        self.counts = {}
        self.functions = set()
        self.assumptions = []
        self.groups = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, what, where=""):
        self.n_ok += 1
        g = what.split(":")[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        if len(self.ok_samples) < 12 and self.groups[g] <= 2:
            self.ok_samples.append(f"{what} @ {where}" if where else what)

    def bad(self, key, where, detail):
        for k, w, d in self.viol:
            if k == key:
                return
        self.viol.append((key, where, detail))

    def undecided(self, what, why):
        if len(self.undec) < 200:
            self.undec.append(f"{what}: {why}")
        self.count("undecided")

    def check(self, cond, key, where, detail):
        if cond:
            self.ok(key, where)
        else:
            self.bad(key, where, detail)
        return cond

    def part(self, what):
        return Part(self, what)

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN)).get("findings", [])
        mine = {k["key"]: k for k in known if k.get("property") == self.prop and not k.get("fixed")}
        new, old = [], []
        for v in self.viol:
            (old if v[0] in mine else new).append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "explanation": self.rule,
            "obligations": self.n_ok + len(self.viol),
            "discharged": self.n_ok,
            "obligation_groups": self.groups,
            "samples": self.ok_samples[:12],
            "functions_analysed": sorted(f[:160] for f in self.functions if own(f))[:120],
            "functions_analysed_own": sum(1 for f in self.functions if own(f)),
            "functions_analysed_library": sum(1 for f in self.functions if not own(f)),
        }
        cov.update(self.counts)
        if self.undec:
            cov["undecided_items"] = self.undec[:40]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        if old:
            cov["known_findings"] = [v[0] for v in old]
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in old:
            print(f"KNOWN-FINDING: property={self.prop} {v[0]} at {v[1]}: {mine[v[0]].get('what', v[2])}")
        if new:
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.prop}.json")
            with open(p, "w") as f:
                json.dump([{"obligation": k, "where": w, "detail": x} for k, w, x in new], f, indent=1)
            for k, w, x in new[:40]:
                print(f"{self.prop}: {k} violated at {w}: {x}")
            print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        print(f"{self.prop}: {self.n_ok} obligations hold, {len(self.undec)} undecided, "
              f"{len(old)} known findings, {time.time() - self.t0:.1f}s")
        return 0


def own(f):
    return re.search(r"(^|[ *&])(kep3|kv)(::|_)", f.split("(")[0].split("<")[0]) is not None


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime()


def main(prop, rule, fn):
    """Run a check; whatever the time limit leaves unexamined is reported as undecided."""
    rep = Report(prop, rule)
    limit = 3000 if rep.thorough else 600
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        try:
            fn(rep)
        except OutOfTime:
            rep.undecided("remaining obligations", f"time limit of {limit} s")
        finally:
            signal.alarm(0)
        if not rep.n_ok and not rep.viol:
            raise AnalysisError("nothing could be decided")
    except AnalysisError as e:
        print(f"{prop}: analysis could not be carried out: {e}")
        if rep.viol:
            return rep.finish()
        rep.undecided("analysis", str(e)[:500])
        rep.finish()
        return 2
    return rep.finish()


class Part:
    """One independent part of a check: an internal failure leaves that part undecided."""

    def __init__(self, rep, what):
        self.rep, self.what = rep, what

    def __enter__(self):
        self.t0 = time.time()
        return self

    def __exit__(self, t, e, tb):
        if os.environ.get("KV_TIME"):
            print(f"{self.what}: {time.time() - self.t0:.1f} s", file=sys.stderr)
        if t is None or not issubclass(t, Exception):
            return False
        self.rep.undecided(self.what, f"{t.__name__}: {str(e)[:600]}")
        if os.environ.get("KV_DEBUG"):
            traceback.print_exception(t, e, tb)
        return True


def short(path):
    if path and path.startswith(REPO + "/"):
        return path[len(REPO) + 1:]
    return path or "?"


def where(loc):
    """loc from Module.locstr: [file,line,col,func,...]"""
    if not loc:
        return "?"
    return f"{short(loc[0])}:{loc[1]} in {loc[3]}"
