#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's working tree.

Exit 0: held on everything explored. Exit 1 after a line "VIOLATION property=<id> replay=<path>": broken.
"""
import argparse
import json
import os
import re
import resource
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402
from vlib.checks import registry  # noqa: E402

try:
    # The explored inputs are long: the programs under test get a deep stack
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
except (OSError, ValueError):
    pass

KNOWN = os.path.join(core.VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines 'open: property=<id> <what fails>'. Lines 'fixed: ...' suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"open: property=(\S+) (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


class Context:
    def __init__(self, prop, tier, workdir):
        self.prop = prop
        self.tier = tier
        self.deep = tier == "thorough"
        self.dir = workdir
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True}
        self.bounds = []
        self.violations = []
        self.assumptions = []
        self.known = set(known_findings(prop))

    def count(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s):
        if len(self.coverage["samples"]) < 12:
            self.coverage["samples"].append(s)

    def violation(self, what, replay):
        self.violations.append(core.Violation(what, replay))

    def subdir(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def explore(self, name, fill, explorer=core.Explorer, **kw):
        """Runs one space of (pattern, operation, input) triples against the reference machine."""
        ex = explorer(self.prop, self.subdir(name), **kw)
        bounds = fill(ex, self.deep)
        self.bounds += bounds or []
        ex.explore()
        st = ex.stats
        self.count("states", st.get("states", 0))
        self.count("transitions", st.get("transitions", 0))
        self.count("traces_validated_against_impl", st.get("evals", 0))
        self.count("patterns", st.get("cases", 0))
        self.count("executions_that_match", st.get("matched", 0))
        self.count("model_self_checks", st.get("selfchecks", 0))
        if st.get("skipped"):
            self.count("skipped_step_limit", st["skipped"])
            self.coverage["exhaustive"] = False
        for s in ex.samples[:6]:
            s = dict(s)
            for k in ("pattern", "input"):
                if k + "_hex" not in s:
                    continue
                s[k] = bytes.fromhex(s.pop(k + "_hex")).decode("latin-1")[:80]
            self.sample(s)
        self.violations += ex.violations
        shutil.rmtree(ex.dir, ignore_errors=True)
        return ex


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    shutil.rmtree(os.path.join(core.VERIF, "replays", args.property), ignore_errors=True)
    error = None
    with core.Scratch() as d:
        ctx = Context(args.property, tier, d)
        for attempt in (0, 1):
            try:
                registry.CHECKS[args.property](ctx)
                error = None
                break
            except core.Inconclusive as e:
                # Possibly a passing shortage (memory, disk): once more from the start, unless a violation is already established
                error = e
                if ctx.violations:
                    break
                ctx = Context(args.property, tier, d)
            except Exception as e:  # noqa: BLE001
                error = e
                traceback.print_exc()
                break
    known = known_findings(args.property)
    fresh = [v for v in ctx.violations if v.what not in known]
    seen = [k for k in known if any(v.what == k for v in ctx.violations)]
    cov = ctx.coverage
    cov["bounds"] = ctx.bounds
    cov["rule"] = "every element of the spaces named in bounds is executed on the library and compared with the reference model; nothing is sampled"
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", args.property + ".json"), "w") as f:
        json.dump({"property": args.property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ctx.assumptions + registry.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
                   "violations": len(fresh)}, f, indent=1)
        f.write("\n")
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (args.property, k))
    for v in fresh[:5]:
        print("  " + v.what[:600])
        print("VIOLATION property=%s replay=%s" % (args.property, v.replay))
    if fresh:
        return 1
    if error is not None:
        print("ERROR %s: %s" % (args.property, error))
        return 2
    print("%s %s: held; states=%d transitions=%d executions=%d, %.1f s" %
          (args.property, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
