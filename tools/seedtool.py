#!/usr/bin/env python3
"""seedtool.py [ID...] [--no-check]: verifies planted bugs in scratch copies of /repo and runs the check of their property on them.

A planted bug is good when it applies, the repository's tests (static assertions) and examples still compile, and its demo passes on the
unchanged tree and fails on the changed one. No check reads seeded/; this script is for development only."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def verify(i, check=True):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="vseed-")
    try:
        for x in ("include", "test", "example"):
            shutil.copytree(os.path.join(R, x), os.path.join(t, x))
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
        if rc != 0:
            return i, meta["property"], "DEMO FAILS ON CLEAN TREE " + out[-600:], ""
        rc, out = sh(["git", "apply", "--unsafe-paths", "--directory=" + t, os.path.join(d, "patch.diff")], cwd="/")
        if rc != 0:
            rc, out = sh(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=t)
            if rc != 0:
                return i, meta["property"], "DOES NOT APPLY " + out[-300:], ""
        srcs = sorted(glob.glob(t + "/test/*.cpp") + glob.glob(t + "/example/**/*.cpp", recursive=True))
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda s: sh(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I", t + "/include", s], cwd=os.path.dirname(s)), srcs))
        for s, (rc, out) in zip(srcs, rs):
            if rc != 0:
                return i, meta["property"], "TESTS FAIL %s: %s" % (os.path.basename(s), next((l for l in out.splitlines() if "error" in l), "")[:300]), ""
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], cwd=t)
        if rc == 0:
            return i, meta["property"], "DEMO PASSES ON PATCHED TREE", ""
        if not check:
            return i, meta["property"], "good", ""
        t0 = time.time()
        rc, out = sh(["python3", os.path.join(V, "check.py"), meta["property"], "--tier", "quick"], cwd=V, env={"VERIF_REPO": t})
        what = next((l for l in out.splitlines() if l.startswith("VIOLATION")), "")
        why = next((l for l in out.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))), "")[:160]
        return i, meta["property"], "good", ("CAUGHT" if rc == 1 and what else "MISSED rc=%d %s" % (rc, out[-300:] if rc not in (0, 1) else "")) + " %.0fs %s" % (time.time() - t0, why)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        print(*verify(i, "--no-check" not in sys.argv), sep=" | ", flush=True)
