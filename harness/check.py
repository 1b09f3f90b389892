"""check.py PROPERTY [quick|thorough]  or  check.py --replay FILE

Decides one property: generates inputs, has the code under test analyse them,
and has TLC judge what was observed against the specification in ../spec.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import collections
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib             # noqa: E402
import gen             # noqa: E402
import families        # noqa: E402
from table import PROPERTIES   # noqa: E402

EVID = os.path.join(lib.VERIF, "evidence")


def known():
    """known_findings.txt: lines 'finding: property=P02 <case name> <text>'"""
    res = {}
    with open(os.path.join(lib.VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


class Run:
    """What a check did; turned into evidence and exit code."""

    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.counts = [], [], collections.Counter()
        self.findings = []
        self.where = lib.scratch("jv" + pid)
        self.seed = lib.SEED

    def rng(self, name):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, name))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, what):
        if len(self.samples) < 4:
            self.samples.append(what)

    def finish(self):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        for old in os.listdir(os.path.join(EVID, "replays")):
            if old.startswith(self.pid + "-"):
                os.unlink(os.path.join(EVID, "replays", old))
        out = []
        for n, (what, replay) in enumerate(self.violations[:20]):
            path = os.path.join(EVID, "replays", "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": what, **replay}, f, indent=1)
            out.append({"what": what, "replay": path})
            print("VIOLATION property=%s replay=%s  %s" % (self.pid, path, what))
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "cases_per_family": dict(self.counts)},
              "assumptions": PROPERTIES[self.pid].get("assumptions", []),
              "violations": len(self.violations), "reported": out, "wall_s": round(time.time() - self.t0, 1)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d traces judged, %d states, %d violations, %.1f s" %
              (self.pid, self.tier, self.traces, self.states, len(self.violations), ev["wall_s"]))
        return 1 if self.violations else 0


# ---------------------------------------------------------------- analyses of files
def trouble(c):
    """The analysis of case c did not end with a report of success"""
    r = c["res"]
    if "skipped" in r:
        return None
    if "hang" in r:
        return "no answer within %d s" % r["hang"]
    if "died" in r:
        return "process died"
    if "exc" in r:
        return "exception " + r["exc"]
    if r.get("success") != "True":
        return "report with success=%s" % r.get("success")
    if "big" in r and r["valid"] != str(not r["fails"]):
        return "isValid=%s although failing tests: %s" % (r["valid"], r["fails"])
    return None


def replay_of(c, diffs):
    return {"kind": "file", "family": c.get("family"), "options": c["o"], "hex": c["bytes"].hex(),
            "differences": [{"path": p, "expected": e, "observed": o} for p, e, o in diffs]}


def collect(run, spec, key="families"):
    cases = []
    for name, opt in spec.get(key, {}).items():
        r = run.rng(name)
        new = getattr(families, name)(r, run.scale(opt.get("scale", 1), opt.get("deep", 4)))
        lim = opt.get("max")
        if lim:
            lim = run.scale(lim, lim * 8)
            if len(new) > lim:
                new = [new[i] for i in sorted(r.sample(range(len(new)), lim))]
        for c in new:
            c.update(family=name, domain=opt.get("domain", spec.get("domain", "")))
        cases += new
        run.counts[name] += len(new)
    for name, (quick, deep) in spec.get("writer", {}).items():
        new, n = lib.write(name, *(run.scale(quick, deep)), workers=6)
        run.states += n
        for k, c in enumerate(new):
            c.update(family="writer " + name, domain=spec.get("domain", ""), o=gen.opts(c["fmt"], verbose=k % 3 > 0))
        cases += new
        run.counts["writer " + name] += len(new)
    for k, c in enumerate(cases):
        c["id"] = k
    return cases


def files(run, spec):
    cases = collect(run, spec)
    lib.observe(cases, run.where)
    judgeable = [c for c in cases if "obs" in c["res"]]
    diffs, verdicts, g, d = lib.judge(judgeable, run.where)
    run.states += d
    run.transitions += g
    run.traces += len(verdicts)
    for c in cases:
        bad = trouble(c)
        if bad:
            run.violation("%s: %s" % (c["family"], bad), replay_of(c, [("!", "report of a completed analysis", bad)]))
            continue
        ds = [x for x in diffs.get(c["id"], []) if re.search(c["domain"], x[0])]
        if ds:
            run.violation("%s: %s: specified %s, observed %s" % ((c["family"],) + ds[0]), replay_of(c, ds))
    for c in some_of(judgeable, 3, run.rng("samples")):
        run.sample({"family": c["family"], "options": c["o"], "bytes": c["bytes"].hex()[:400],
                    "size": len(c["bytes"]), "verdict": verdicts.get(c["id"])})


def some_of(xs, n, r):
    return xs if len(xs) <= n else r.sample(xs, n)


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else "quick"
    spec = PROPERTIES[pid]
    run = Run(pid, tier)
    if "families" in spec or "writer" in spec:
        files(run, spec)
    for name in spec.get("extra", []):
        import extra
        getattr(extra, name)(run)
    return run.finish()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d.get("kind") != "file":
        print(json.dumps(d, indent=1))
        return 0
    c = {"id": 0, "bytes": bytes.fromhex(d["hex"]), "o": d["options"], "cap": 20000}
    w = lib.scratch()
    lib.observe([c], w)
    bad = trouble(c)
    diffs = lib.judge([c], w)[0].get(0, []) if not bad else [("!", "", bad)]
    for x in diffs:
        print("%s: specified %s, observed %s" % tuple(x))
    return 1 if diffs else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
