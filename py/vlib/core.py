"""Common frame of all checks: tier, seed, evidence, verdicts."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPLAY = os.path.join(ROOT, "replay")
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings():
    """known: property=<id> key=<key> <text>   (fixed: lines suppress nothing)"""
    res = {}
    try:
        with open(KNOWN) as fp:
            for l in fp:
                w = l.split(None, 3)
                if len(w) >= 3 and w[0] == "known:":
                    res[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = \
                        w[3].strip() if len(w) > 3 else ""
    except FileNotFoundError:
        pass
    return res


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = []
        self.known_hit = []

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add_tlc(self, results):
        for r in results if isinstance(results, list) else [results]:
            self.states += r.states
            self.transitions += r.generated

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, data, key=None):
        """data: json-able description from which the failure can be replayed."""
        kf = known_findings()
        if key is not None and (self.prop, key) in kf:
            if key not in self.known_hit:
                self.known_hit.append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[(self.prop, key)]),
                      flush=True)
            return
        os.makedirs(REPLAY, exist_ok=True)
        js = json.dumps({"property": self.prop, "what": what, "seed": self.seed,
                         "tier": self.tier, "data": data}, indent=1, sort_keys=True)
        h = hashlib.sha1(js.encode()).hexdigest()[:10]
        p = os.path.join(REPLAY, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as fp:
            fp.write(js)
        self.viol.append((what, p))
        self.log("violation:", what)

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples}
        cov.update(self.extra)
        d = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as fp:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "level": self.level, "coverage": cov,
                       "violations": [w for w, _ in self.viol],
                       "known_findings": self.known_hit,
                       "wall_s": round(time.time() - self.t0, 2)}, fp, indent=1)

    def finish(self):
        self.write_evidence()
        for _, p in self.viol[:1]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1 if self.viol else 0


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            return ctx.finish()
        print("ERROR: check %s could not decide" % prop, flush=True)
        return 2
    return ctx.finish()
