"""Shared by all checks: where things are, reporting, evidence, known findings."""
import json
import os
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = max(2, min(8, os.cpu_count() or 2))

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Report:
    """Collects what one check covered and found; decides its exit status."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.start = time.time()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = {}
        self.notes = {}
        self.assumptions = []

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, case, limit=6):
        if len(self.samples) < limit:
            self.samples.append(case)

    def violation(self, case):
        """case: dict with 'key' (identifies the failing input) and what was observed."""
        for finding in self.known:
            if finding["key"] == case["key"]:
                self.known_seen[finding["key"]] = finding
                return
        if len(self.violations) < 2000:
            self.violations.append(case)

    def finish(self):
        for key, finding in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, finding["what"]))
        replay = None
        if self.violations:
            # the shortest failing case is the easiest to read
            self.violations.sort(key=lambda c: (len(json.dumps(c)), json.dumps(c)))
            directory = os.path.join(VERIF, "work", "replay")
            try:
                os.makedirs(directory, exist_ok=True)
            except OSError:
                directory = tempfile.mkdtemp(prefix="replay-")
            replay = os.path.join(directory, "%s.json" % self.prop)
            with open(replay, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
        coverage = dict(self.counts)
        coverage.update(self.notes)
        coverage["samples"] = self.samples
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        print("%s: %s" % (self.prop, json.dumps(self.counts, sort_keys=True)))
        if self.violations:
            for case in self.violations[:3]:
                print(json.dumps(case, indent=1)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("known", []) if e["property"] == prop]


class MachineryError(Exception):
    """The check itself could not do its work: neither held nor violated."""
