"""Driver shared by every check: context object, known findings, evidence."""
from __future__ import annotations
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []      # (key, message, loc)
        self.obligations = []     # (rule, instance, status, detail)
        self.stats = {}
        self.assumptions = []
        self.rules = {}
        self._proj = None
        self._eff = None

    # shared, lazily built artefacts -------------------------------------
    @property
    def proj(self):
        if self._proj is None:
            from .proj import Project
            self._proj = Project()
        return self._proj

    @property
    def eff(self):
        if self._eff is None:
            from .effects import Effects
            self._eff = Effects(self.proj)
        return self._eff

    # reporting ------------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, instance, detail=""):
        self.obligations.append((rule, instance, "discharged", detail))

    def undecided(self, rule, instance, detail=""):
        self.obligations.append((rule, instance, "undecided", detail))

    def bad(self, rule, instance, message, loc=""):
        """a violation; ``rule:instance`` is its stable identity"""
        key = "%s:%s" % (rule, instance)
        self.obligations.append((rule, instance, "violated", "%s %s" % (loc, message)))
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, message, loc))

    def need(self, count, minimum, what):
        """instance counts below the confirmed minimum mean the analysis went blind"""
        from .proj import AnalysisBroken
        self.stats[what] = count
        if count < minimum:
            raise AnalysisBroken("only %d %s found (at least %d expected)" % (count, what, minimum))


def known_for(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    if rest.startswith("key="):
                        key, _, txt = rest[4:].partition(" ")
                        out[key] = txt
    return out


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("sa.checks." + pid.lower())
    ctx = Ctx(pid, tier)
    from .proj import AnalysisBroken, REPO
    try:
        mod.run(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = known_for(pid)
    new = []
    seen = set()
    for key, msg, loc in ctx.violations:
        if key in known:
            seen.add(key)
            print("KNOWN-FINDING: property=%s %s -- %s (%s)" % (pid, key, known[key] or msg, loc))
        else:
            new.append((key, msg, loc))
    n = len(ctx.obligations)
    done = sum(1 for o in ctx.obligations if o[2] == "discharged")
    und = [o for o in ctx.obligations if o[2] == "undecided"]
    if n == 0:
        print("ANALYSIS-BROKEN property=%s no obligations were generated" % pid)
        return 2
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    byrule = {}
    for r, i, s, d in ctx.obligations:
        byrule.setdefault(r, {"discharged": 0, "violated": 0, "undecided": 0})[s] += 1
    cov = {
        "explanation": "Static analysis of the current source in %s: %s" % (
            REPO, (mod.__doc__ or "").strip()),
        "obligations_generated": n,
        "obligations_discharged": done,
        "obligations_by_rule": byrule,
        "rules": ctx.rules,
        "undecided": ["%s %s %s" % (o[0], o[1], o[3]) for o in und][:60],
        "known_findings_seen": sorted(seen),
        "samples": ["%s | %s | %s | %s" % o for o in ctx.obligations[:: max(1, n // 25)]][:30],
    }
    if tier == "thorough":
        cov["all_obligations"] = ["%s | %s | %s | %s" % o for o in ctx.obligations]
    if ctx._proj is not None:
        cov["modules_parsed"] = len(ctx._proj.mods)
        cov["functions_parsed"] = sum(1 for _ in ctx._proj.functions())
    cov.update({"stat_" + k.replace(" ", "_"): v for k, v in ctx.stats.items()})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated (%.1fs)" % (
        pid, n, done, len(und), len(seen), len(new), time.time() - t0))
    if new:
        rp = os.path.join(evdir, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for key, msg, loc in new:
                fh.write("%s\n  at %s\n  %s\n" % (key, loc, msg))
        for key, msg, loc in new:
            print("  %s at %s: %s" % (key, loc, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.exit(run(pid, tier))


if __name__ == "__main__":
    main()
