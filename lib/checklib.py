"""Shared plumbing of the checks: scratch folder, evidence, verdicts."""
import glob
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUMOS_REPO", "/repo")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = os.environ["VERIF_SCRATCH"]
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.viol_count = 0
        self.known_hit = {}
        self.known = self._load_known()

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model side -----------------------------------------------------
    def tlc(self, module, **kw):
        import tlc
        r = tlc.run(module, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.extra.setdefault("tlc_runs", []).append(
            {"module": module, "states": r["distinct"], "generated": r["generated"], "depth": r["depth"]})
        return r

    def tmp(self, name):
        return os.path.join(self.scratch, name)

    # -- verdicts -------------------------------------------------------
    def _load_known(self):
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        keys = {}
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    keys[m.group(2)] = m.group(3)
        return keys

    def violation(self, what, data=None, key=None):
        """Record that the implementation left the specified behaviour."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.viol_count += 1
        if len(self.viol) >= 5:
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.pid, "what": what, "data": data}, default=str, indent=1)
        path = os.path.join("evidence", "replay", "%s-%s.json" % (
            self.pid, hashlib.md5(body.encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, path), "w") as f:
            f.write(body)
        self.viol.append(path)
        print("  %s: %s" % (self.pid, what))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()

    def ok(self, n=1):
        self.traces += n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        for k, w in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "observations_compared": self.steps,
               "samples": self.samples or ["(no sample recorded)"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.viol_count}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d traces validated, %d observations, %d states, %d violations, %.1fs" % (
            self.pid, self.traces, self.steps, self.states, self.viol_count, time.time() - self.t0))
        return 1 if self.viol_count else 0


def read_jsonl(path):
    """All records of path and of its part files (one per state, see Emit.tla), in a fixed order"""
    if os.path.exists(path):
        yield from _read(path)
    for p in sorted(glob.glob(path + ".p*")):
        yield from _read(p)


def _read(path):
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                v = json.loads(line)
                # CSVWrite prints TLA+ strings quoted, so the line may be JSON in JSON
                yield json.loads(v) if isinstance(v, str) else v


def short_exc(e):
    return "%s: %s" % (type(e).__name__, str(e).split("\n")[0][:200])


def validate_trace(chk, module, events, constants=None, invariants=("Report",), post="Accepted", **kw):
    """Write events, run the trace specification, return the list of rejected lines.

    Every event is consumed (the verdict is total); a rejection names line and clause.
    """
    import tempfile
    fd, tr = tempfile.mkstemp(suffix=".ndjson", dir=chk.scratch)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    out = tr + ".verdict"
    r = chk.tlc(module, constants=constants, invariants=list(invariants), postcondition=post,
                env={"VERIF_TRACE": tr, "VERIF_OUT": out}, workers=1, **kw)
    rej = list(read_jsonl(out)) if os.path.exists(out) else []
    os.remove(tr)
    return rej
