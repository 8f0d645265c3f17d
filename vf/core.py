"""What every check has in common: the run's parameters, violations and their
replay files, known findings, and the evidence file."""
import hashlib
import json
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


class CheckError(Exception):
    """The check could not decide anything (exit 2)."""


def findings(prop):
    acc = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("kind") == "finding":
                    acc.append(d)
    return acc


class Run:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viol = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.inconclusive = 0
        self.rule = ""
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, quick=300, thorough=3000):
        """seconds left of this tier's budget"""
        return (thorough if self.thorough else quick) - (time.time() - self.t0)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x, most=6):
        if len(self.samples) < most:
            self.samples.append(x)

    def violation(self, key, text, replay):
        """One per key.  `replay' is what check.py replay needs."""
        if key in self.viol:
            self.count("further_violations_of_same_kind")
            return
        self.viol[key] = text
        d = os.path.join(VERIF, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(key.encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "seed": self.seed,
                       "tier": self.tier, "what": text, "replay": replay},
                      f, indent=1)
        if len(self.viol) <= 8:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            for l in text.splitlines()[:40]:
                print("    " + l)
            sys.stdout.flush()

    def known(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        self.count("known_findings_seen")

    def finish(self):
        cov = {"evaluations": self.evaluations,
               "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples}
        if self.counts:
            cov["observed"] = dict(sorted(self.counts.items()))
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(p + ".tmp", p)
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1f s"
              % (self.prop, self.tier, self.evaluations, len(self.distinct),
                 len(self.viol), time.time() - self.t0))
        if self.viol:
            return 1
        if self.evaluations == 0 or not self.distinct:
            print("error: nothing was observed")
            return 2
        if self.inconclusive > max(3, self.evaluations // 20):
            print("error: %d of %d inconclusive" % (self.inconclusive,
                                                    self.evaluations))
            return 2
        return 0


def rng(*parts):
    return random.Random("/".join(str(p) for p in parts))
