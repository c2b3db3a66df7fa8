"""Obligation bookkeeping, evidence files and the exit protocol shared by all checks."""
import json
import os
import sys
import ctypes
import threading
import time
import traceback

from .model import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class AnalysisLate(AnalysisBroken):
    def __str__(self):
        return "the analysis did not finish in time"


class Check:
    current = None

    def __init__(self, pid, tier, seed):
        Check.current = self
        self.started = time.time()
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obligations = 0
        self.discharged = 0
        self.violations = {}
        self.by_rule = {}
        self.samples = []
        self.notes = {}
        self.functions = set()
        self.assumptions = []
        self.rules = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, msg="", where=""):
        """one obligation of `rule` at `construct`; a failed one is a violation keyed by (rule, construct)"""
        self.obligations += 1
        self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 400 and self.by_rule[rule] <= 4:
                self.samples.append({"rule": rule, "construct": construct, "where": where})
        else:
            k = (rule, construct)
            if k not in self.violations:
                self.violations[k] = (msg, where)
        return ok

    def watch(self):
        """ends an analysis which does not finish (of broken code) in time to report what it found"""
        me = threading.get_ident()

        def late():
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(AnalysisLate))
        t = threading.Timer(max(1, (780 if self.tier != "thorough" else 3000) - (time.time() - self.started)), late)
        t.daemon = True
        t.start()
        return t

    def enough(self):
        """explorations of broken code may end early once violations are found"""
        return len(self.violations) > 25 or (self.violations and time.time() - self.started > 200)

    def analysed(self, eng):
        self.functions |= set(eng.visited)

    def floor(self, rule, n):
        got = self.by_rule.get(rule, 0)
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, got, n))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> rule=<rule> construct=<construct> | text
                head, _, text = line[len("finding:"):].partition("|")
                d = {}
                rest = head.strip()
                p, _, rest = rest.partition(" rule=")
                d["property"] = p.replace("property=", "").strip()
                d["rule"], _, d["construct"] = rest.partition(" construct=")
                if d["property"] == pid:
                    out[(d["rule"].strip(), d["construct"].strip())] = text.strip()
    return out


def main(pid, run, level="other"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    chk = Check(pid, tier, seed)
    status = 0
    broken = None
    timer = chk.watch()
    try:
        run(chk)
        if chk.obligations == 0:
            raise AnalysisBroken("no obligations were generated")
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    timer.cancel()
    known = known_findings(pid)
    new = {k: v for k, v in chk.violations.items() if k not in known}
    os.makedirs(EVID, exist_ok=True)
    for k in chk.violations:
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, k[0], k[1], known[k]))
    if new:
        rp = os.path.join(EVID, "%s.violation.txt" % pid)
        with open(rp, "w", encoding="utf-8") as f:
            for (rule, cons), (msg, where) in sorted(new.items()):
                f.write("%s\n  rule: %s - %s\n  construct: %s\n  %s\n" % (where or "-", rule, chk.rules.get(rule, ""), cons, msg))
        for (rule, cons), (msg, where) in sorted(new.items())[:25]:
            print("%s: [%s] %s: %s" % (where or "-", rule, cons, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        status = 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken), file=sys.stderr)
        if not new:
            status = 2
    samples = chk.samples
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Static analysis of /repo's current source (no execution): %d obligations over %d rules, %d discharged. Rules: %s" % (
                chk.obligations, len(chk.by_rule), chk.discharged,
                "; ".join("%s = %s" % (r, t) for r, t in sorted(chk.rules.items()))),
            "obligations": chk.obligations,
            "discharged": chk.discharged,
            "obligations_by_rule": chk.by_rule,
            "functions_analysed": sorted(chk.functions),
            "samples": samples[:60],
            "analysis_broken": broken,
        },
        "assumptions": chk.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    ev["coverage"].update(chk.notes)
    with open(os.path.join(EVID, "%s.json" % pid), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s: %d obligations, %d discharged, %d new violations, %d known, %.1fs%s" % (
        pid, chk.obligations, chk.discharged, len(new), len(chk.violations) - len(new), time.time() - t0,
        " ANALYSIS-BROKEN" if broken else ""))
    return status
