"""Common driver of the checks: collects obligations, compares violations with the
known-findings file, writes the evidence file and the exit status."""
import json
import os
import sys
import time
import traceback

from . import cxx

VERIF = cxx.VERIF


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = []          # (rule, instance, status, detail)
        self.seen = {}
        self.stats = {}
        self.notes = []
        self.assume = []
        self.rules = {}
        self.fns = set()
        self.files = set()

    # ---- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def _add(self, rule, inst, status, detail):
        key = (rule, inst)
        rank = {"ok": 0, "undecided": 1, "violation": 2}
        if key in self.seen:
            i = self.seen[key]
            if rank[status] > rank[self.obl[i][2]]:
                self.obl[i] = (rule, inst, status, detail)
            return
        self.seen[key] = len(self.obl)
        self.obl.append((rule, inst, status, detail))

    def ok(self, rule, inst, detail=""):
        self._add(rule, inst, "ok", detail)

    def bad(self, rule, inst, detail):
        self._add(rule, inst, "violation", detail)

    def undecided(self, rule, inst, detail):
        self._add(rule, inst, "undecided", detail)

    def judge(self, rule, inst, good, detail):
        if good:
            self.ok(rule, inst)
        else:
            self.bad(rule, inst, detail)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def need(self, cond, what):
        """The analysis is vacuous without this: an error of the check, not a verdict."""
        if not cond:
            raise cxx.AnalysisError("analysis anchor lost: " + what)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % prop):
                rest = ln.split(" ", 2)[2]
                key, _, txt = rest.partition(" :: ")
                out.append((key.strip(), txt.strip()))
    return out


def run(prop, tier, fn):
    """fn(report) fills in the obligations."""
    t0 = time.time()
    rep = Report(prop, tier)
    err = None
    try:
        fn(rep)
        if not rep.obl:
            raise cxx.AnalysisError("no rule instance was found")
    except cxx.AnalysisError as e:
        err = "analysis error: %s" % e
    except Exception:
        err = "internal error:\n" + traceback.format_exc()
    kn = known(prop)
    viol, hits = [], []
    for rule, inst, status, detail in rep.obl:
        if status != "violation":
            continue
        key = "%s|%s" % (rule, inst)
        hit = [t for k, t in kn if k == key]
        (hits if hit else viol).append((rule, inst, detail, hit[0] if hit else ""))
    n_ok = sum(1 for o in rep.obl if o[2] == "ok")
    und = [o for o in rep.obl if o[2] == "undecided"]
    EV = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(EV, exist_ok=True)
    cov = {
        "explanation": "Static analysis of /repo's current sources. Rules applied: "
                       + "; ".join("%s: %s" % kv for kv in sorted(rep.rules.items())),
        "obligations": len(rep.obl),
        "discharged": n_ok,
        "undecided": ["%s %s: %s" % (o[0], o[1], o[3]) for o in und],
        "known_findings": ["%s|%s" % (h[0], h[1]) for h in hits],
        "obligations_by_rule": {r: sum(1 for o in rep.obl if o[0] == r) for r in sorted({o[0] for o in rep.obl})},
        "functions_analysed": len(rep.fns),
        "samples": ["%s | %s | %s" % o[:3] for o in rep.obl[:: max(1, len(rep.obl) // 12)]][:14],
        "statistics": rep.stats,
        "files": sorted(rep.files)[:60],
        "notes": rep.notes,
    }
    if err:
        cov["error"] = err
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": rep.assume, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violations (%.1fs)"
          % (prop, len(rep.obl), n_ok, len(und), len(hits), len(viol), time.time() - t0))
    for o in und:
        print("  undecided: %s %s: %s" % (o[0], o[1], o[3]))
    for h in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, h[3] or h[1]))
    if viol:
        rp = os.path.join(EV, prop + ".violations.txt")
        with open(rp, "w") as f:
            for rule, inst, detail, _ in viol:
                f.write("rule %s\n  %s\ninstance: %s\n%s\n\n" % (rule, rep.rules.get(rule, ""), inst, detail))
        for rule, inst, detail, _ in viol:
            print("  violated: %s | %s | %s" % (rule, inst, detail))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        print(err, file=sys.stderr)
        return 2
    return 0
