"""Findings, evidence and verdict of a check."""

import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(path=None):
    """Findings recorded as known: {(property, key): text}; fixed entries suppress nothing."""
    path = path or os.path.join(HERE, "known_findings.txt")
    out = {}
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, text = line[len("known: "):].partition(" -- ")
        prop, _, key = head.partition(" ")
        out[(prop.replace("property=", ""), key.replace("key=", "", 1))] = text
    return out


class Finding:
    def __init__(self, rule, construct, message):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.sites = []

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Report:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.broken = []
        self.notes = []

    # -- collection ------------------------------------------------------------

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=40):
        if len(self.samples) < limit and text not in self.samples:
            self.samples.append(text)

    def need(self, name, minimum):
        """Fail the run when fewer instances than confirmed were analysed."""
        if self.counts.get(name, 0) < minimum:
            self.broken.append(f"{name}: {self.counts.get(name, 0)} instances analysed, at least {minimum} confirmed by hand")

    def finding(self, rule, construct, message, site=None, entry=None, trace=None):
        f = self.findings.get(f"{rule}|{construct}")
        if f is None:
            f = self.findings[f"{rule}|{construct}"] = Finding(rule, construct, message)
        s = (site, entry, trace)
        if s not in f.sites and len(f.sites) < 12:
            f.sites.append(s)
        return f

    # -- verdict -----------------------------------------------------------------

    def finish(self):
        known = load_known()
        new, old = [], []
        for f in self.findings.values():
            (old if (self.prop, f.key) in known else new).append(f)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": " ".join(self.rules),
                **{k: v for k, v in sorted(self.counts.items())},
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:40]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        for f in old:
            print(f"KNOWN-FINDING: property={self.prop} {f.construct}: {known[(self.prop, f.key)]}")
        if new:
            path = os.path.join("evidence", f"{self.prop}.replay.txt")
            with open(os.path.join(HERE, path), "w") as fh:
                for f in new:
                    text = self.render(f)
                    fh.write(text + "\n")
                    print(text)
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.broken:
            for b in self.broken:
                print(f"ANALYSIS-BROKEN property={self.prop} {b}")
            return 2
        c = ", ".join(f"{k}={v}" for k, v in sorted(self.counts.items()))
        print(f"OK property={self.prop} {c} wall={ev['wall_s']}s")
        return 0

    def render(self, f):
        lines = [f"[{self.prop}] {f.rule}: {f.construct}: {f.message}"]
        for site, entry, trace in f.sites:
            lines.append(f"    at {site}" + (f" entry={entry}" if entry else "") + (f" via {trace}" if trace else ""))
        return "\n".join(lines)
