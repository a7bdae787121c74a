"""Verdicts, evidence and exit status of a check.

Every obligation gets one of three verdicts: proved, refuted (with the construct that violates it), or undecided
(the construct lies outside what the rule understands; listed in the evidence, no alarm).  A refuted obligation
that known_findings.json lists is printed as KNOWN-FINDING."""
import json, os, sys, time, traceback
from .dump import VERIF, AnalysisError

FINDINGS = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, rule, level="other", trusted=None, assumptions=None):
        self.pid, self.rule, self.level = pid, rule, level
        self.trusted = trusted or ["rustc nightly front end and MIR construction", "driver/dump.rs", "vlib analyses"]
        self.assumptions = assumptions or []
        self.t0 = time.time()
        self.obs = []            # (id, verdict, where, detail)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def proved(self, oid, where="", detail=""):
        self.obs.append((oid, "proved", where, detail))

    def refuted(self, oid, where, detail):
        self.obs.append((oid, "refuted", where, detail))

    def undecided(self, oid, where, detail):
        self.obs.append((oid, "undecided", where, detail))

    def decide(self, oid, ok, where, detail):
        """ok: True proved, False refuted, None undecided."""
        (self.proved if ok else self.undecided if ok is None else self.refuted)(oid, where, detail)
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def guard(self, oid, f, *a):
        """Runs one analysis; what it cannot understand becomes an undecided obligation."""
        from .eng import Budget, Unmodelled
        try:
            return f(*a)
        except (AnalysisError, Budget, Unmodelled) as e:
            self.undecided(oid, "", "%s: %s" % (type(e).__name__, e))
        except Exception as e:  # an analysis that stumbles over an unforeseen shape decides nothing
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(oid, "", "analysis error %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VP_DEBUG"):
                traceback.print_exc()

    def finish(self):
        known = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                known = json.load(f).get("findings", [])
        keys = {k["key"]: k for k in known if k["property"] == self.pid}
        viol, found = [], []
        for o in self.obs:
            if o[1] == "refuted":
                (found if o[0] in keys else viol).append(o)
        und = [o for o in self.obs if o[1] == "undecided"]
        pr = [o for o in self.obs if o[1] == "proved"]
        cov = dict(self.counts)
        cov.update({
            "obligations": len(self.obs), "discharged": len(pr), "undecided": len(und), "refuted": len(viol) + len(found),
            "rule": self.rule, "explanation": self.rule, "trusted_base": self.trusted,
            "checker_cmd": "./check " + self.pid,
            "samples": self.samples or [list(o) for o in self.obs[:6]],
            "undecided_obligations": [list(o) for o in und[:60]],
            "violations_found": [list(o) for o in viol[:60]],
            "known_findings_seen": [list(o) for o in found],
            "notes": self.notes,
        })
        level = self.level
        if level == "proof" and (und or not pr):
            level = "other"
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)
        for o in found:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, keys[o[0]]["what"]))
        for o in und[:25]:
            print("undecided %s %s: %s" % (o[0], o[2], str(o[3])[:300]))
        for o in viol[:25]:
            print("refuted %s at %s: %s" % (o[0], o[2], str(o[3])[:600]))
        print("%s: %d obligations, %d proved, %d undecided, %d refuted (%s)" % (
            self.pid, len(self.obs), len(pr), len(und), len(viol) + len(found),
            ", ".join("%s %s" % kv for kv in self.counts.items())))
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        return 0
