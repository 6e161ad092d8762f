"""Verdicts, evidence files and known findings."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.jsonl")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.counts = {}          # rule -> obligations examined
        self.ok = {}              # rule -> obligations discharged
        self.unknown = {}         # rule -> not decided (abstract value unknown)
        self.findings = []        # dict(rule, key, where, msg)
        self.notes = []
        self.samples = []
        self.minimums = {}
        self.rules = {}
        self.assumptions = []

    def rule(self, name, text, minimum=1):
        """Declare a rule: its text and the least number of instances it must
        match on any healthy tree (a rule matching fewer is broken)."""
        self.rules[name] = text
        self.minimums[name] = minimum
        self.counts.setdefault(name, 0)

    def obligation(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def passed(self, rule, n=1, sample=None):
        self.counts[rule] = self.counts.get(rule, 0) + n
        self.ok[rule] = self.ok.get(rule, 0) + n
        if sample and len(self.samples) < 12 and sum(1 for s in self.samples if s["rule"] == rule) < 3:
            self.samples.append({"rule": rule, "instance": sample})

    def undecided(self, rule, n=1):
        self.unknown[rule] = self.unknown.get(rule, 0) + n

    def violation(self, rule, key, where, msg):
        """key identifies the construct (function, expression), not its line."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        for f in self.findings:
            if f["rule"] == rule and f["key"] == key:
                return
        self.findings.append({"rule": rule, "key": key, "where": where, "msg": msg})

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding="utf-8") as fp:
                for line in fp:
                    line = line.strip()
                    if not line:
                        continue
                    d = json.loads(line)
                    if d.get("status") == "known" and d["property"] == self.prop:
                        out[(d["rule"], d["key"])] = d
        return out

    def finish(self):
        broken = []
        for r, m in self.minimums.items():
            if self.counts.get(r, 0) + self.unknown.get(r, 0) < m:
                broken.append("rule %s matched %d instances, fewer than the confirmed minimum %d"
                              % (r, self.counts.get(r, 0), m))
        known = self.known()
        new, old = [], []
        for f in self.findings:
            (old if (f["rule"], f["key"]) in known else new).append(f)
        total = sum(self.counts.values())
        done = sum(self.ok.values())
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source of /repo's current working tree; "
                               "each rule lists the instances it decided. " + " | ".join(
                                   "%s: %s" % kv for kv in self.rules.items()),
                "obligations": total,
                "discharged": done,
                "undecided": dict(self.unknown),
                "per_rule": {r: {"instances": self.counts.get(r, 0), "discharged": self.ok.get(r, 0),
                                 "undecided": self.unknown.get(r, 0)} for r in self.rules},
                "samples": self.samples,
                "known_findings": [f["key"] for f in old],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path, "w", encoding="utf-8") as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
        print("%s: %d instances of %d rules analysed, %d discharged, %d undecided (%.1f s)" % (
            self.prop, total, len(self.rules), done, sum(self.unknown.values()), ev["wall_s"]))
        for r in sorted(self.rules):
            print("  rule %-26s %5d instances  %5d discharged  %4d undecided" % (
                r, self.counts.get(r, 0), self.ok.get(r, 0), self.unknown.get(r, 0)))
        for f in old:
            print("KNOWN-FINDING: property=%s %s: %s [%s]" % (self.prop, f["where"], f["msg"], f["rule"]))
        if new:
            rp = os.path.join(HERE, "evidence", self.prop + ".violations.json")
            with open(rp, "w", encoding="utf-8") as fp:
                json.dump(new, fp, indent=1)
            for f in new:
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("    rule %s at %s: %s" % (f["rule"], f["where"], f["msg"]))
                print("    key: %s" % f["key"])
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN: " + b)
            return 2
        return 0
