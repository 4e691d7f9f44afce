"""Findings, known findings, evidence files and exit codes."""
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding:
    def __init__(self, rule, construct, loc, message, **extra):
        self.rule, self.construct, self.loc, self.message, self.extra = rule, construct, loc, message, extra

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        return dict(rule=self.rule, construct=self.construct, loc=self.loc, message=self.message, **self.extra)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


class Report:
    """Collects what one property check analysed and found."""

    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.findings = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.notes = []
        self.t0 = time.time()
        self.floors = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def undecide(self, what, why):
        self.count("undecided")
        if len(self.undecided) < 60:
            self.undecided.append(f"{what}: {why}")

    def find(self, rule, construct, loc, message, **extra):
        f = Finding(rule, construct, loc, message, **extra)
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def floor(self, what, minimum):
        """Instance floor: the run is broken if far fewer rule instances were seen than confirmed by hand."""
        self.floors.append((what, minimum))

    def finish(self, explanation, rule, assumptions=()):
        from .model import AnalysisBroken

        known = {k: w for p, k, w in load_known() if p == self.prop}
        new = [f for f in self.findings if f.key not in known]
        old = [f for f in self.findings if f.key in known]
        broken = [f"{w}: {self.counts.get(w, 0)} < {m}" for w, m in self.floors if self.counts.get(w, 0) < m]
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=int(os.environ.get("VERIF_SEED", "1") or 1),
            level="other",
            coverage=dict(
                explanation=explanation,
                rule=rule,
                counts=self.counts,
                samples=self.samples,
                undecided=self.undecided,
                known_findings=[f.as_dict() for f in old],
                violations=[f.as_dict() for f in new],
                notes=self.notes,
            ),
            assumptions=list(assumptions),
            wall_s=round(time.time() - self.t0, 3),
            violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: analysed " + ", ".join(f"{v} {k}" for k, v in sorted(self.counts.items())))
        for f in old:
            print(f"KNOWN-FINDING: property={self.prop} {f.key} :: {known[f.key]}")
        for f in new:
            print(f"{f.loc}: [{f.rule}] {f.construct}: {f.message}")
        if new:
            rp = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
            with open(rp, "w") as f:
                json.dump([x.as_dict() for x in new], f, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={rp}")
            sys.stdout.flush()
            return 1
        if broken:
            raise AnalysisBroken("instance counts fell below the confirmed floor: " + "; ".join(broken))
        return 0
