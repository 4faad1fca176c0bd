"""Common parts of the checks: tiers, evidence, known findings, verdict lines."""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Check(object):
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.counts, self.assume = [], [], {}, []
        self.known_hit = {}
        self.known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k["property"] == prop and k.get("status") == "known":
                        self.known.append(k)
        self.rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.rdir, exist_ok=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def say(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a)
        sys.stdout.flush()

    def model(self, r, what, must=None):
        """Account for an exhaustive TLC run; a violation there is an error of the design"""
        self.states += r.distinct
        self.transitions += r.generated
        self.count("model: " + what, r.distinct)
        self.say("model %s: %d distinct states, %d generated, depth %d, %.1fs" % (
            what, r.distinct, r.generated, r.depth, r.secs))
        if r.violated:
            raise RuntimeError("specification %s violates %s\n%s" % (what, r.violated, r.tail(80)))

    def count(self, what, n):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violate(self, what, detail, replay):
        """what: short text that identifies the failure; replay: JSON-able reproduction"""
        for k in self.known:
            if re.search(k["match"], what):
                self.known_hit[k["id"]] = k
                return
        n = len(self.violations) + 1
        path = os.path.join(self.rdir, "%s-%d.json" % (self.prop, n))
        if n <= 20:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "detail": detail, "seed": SEED,
                           "replay": replay}, f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        for f in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "counts": self.counts}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": "thorough" if self.thorough else "quick",
                       "seed": SEED, "level": "model_checking", "coverage": cov,
                       "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(self.violations)}, f, indent=1, default=str)
        seen = set()
        for what, path in self.violations[:20]:
            if what not in seen:
                seen.add(what)
                print("  broken: " + what[:400])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        self.say("held: %d states, %d traces against the code, %s" % (
            self.states, self.traces, json.dumps(self.counts)))
        return 0
