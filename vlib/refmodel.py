"""Access to the reference parser from Python (through harness/modeltool.cpp)."""
import atexit
import os
import shutil
import tempfile

from .core import CXX, Inconclusive, VERIF, run, tobytes

_tool = None


def tool():
    global _tool
    if _tool is None:
        d = tempfile.mkdtemp(prefix="mregex-model-")
        atexit.register(shutil.rmtree, d, True)
        exe = os.path.join(d, "modeltool")
        r = run([CXX, "-std=c++20", "-O1", "-w", os.path.join(VERIF, "harness", "modeltool.cpp"), "-o", exe])
        if r.returncode != 0:
            raise Inconclusive("modeltool does not compile: " + r.stderr.decode(errors="replace")[-2000:])
        _tool = exe
    return _tool


def accepted(alphabet, n):
    """All patterns over the alphabet with 1..n characters that are valid and meaningful, shortest first."""
    r = run([tool(), "accepted", tobytes(alphabet).hex(), str(n)])
    if r.returncode != 0:
        raise Inconclusive("modeltool failed")
    out = [bytes.fromhex(l) for l in r.stdout.decode().split()]
    return sorted(out, key=lambda p: (len(p), p))


def verdicts(patterns):
    """[(accepted, error position, semantic error)] of the patterns."""
    data = "".join(tobytes(p).hex() + "\n" for p in patterns).encode()
    r = run([tool(), "verdict"], input=data)
    if r.returncode != 0:
        raise Inconclusive("modeltool failed")
    res = []
    for line in r.stdout.decode().split("\n")[:-1]:
        a, e, m = (line.split(" ", 2) + ["", ""])[:3]
        res.append((a == "1", int(e), m))
    assert len(res) == len(patterns)
    return res
