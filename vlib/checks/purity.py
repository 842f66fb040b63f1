"""C19: every history and interleaving of calls gives each call the result it gives alone."""
import os
import shutil

from .. import core
from ..core import Explorer, DOTALL, ICASE, Inconclusive, MULTILINE, UNGREEDY, UNROLL, JOBS, run, words
from .iterators import needs_bidirectional


class PureExplorer(Explorer):
    driver = "puredriver.cpp"
    opnames = ["match", "match_prefix", "search", "search"]
    modes = ()

    def extra_obj_sources(self):
        return [(os.path.join(core.VERIF, "harness", self.driver), ["-O2"] + [x for x in self.cxx_extra if x.startswith("-fsanitize")])]

    def explore(self):
        self.write_inputs()
        if not self.build():
            return
        for mode, args, shards in self.modes:
            base = [self.exe, "--inputs", self.inputs, "--mode", mode, "--case-timeout", str(self.timeout)] + args
            self.one_mode(mode, base, shards)
            if self.violations:
                return

    def shard(self, base, i, n):
        r = run(base + ["--shard", "%d/%d" % (i, n)], env=dict(os.environ, **self.env))
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

    def one_mode(self, mode, base, n):
        import json
        for i, (rc, out, err) in enumerate(core.pmap(lambda i: self.shard(base, i, n), range(n))):
            if rc not in (0, 1, 3, 4):
                raise Inconclusive("driver exit %d in %s: %s %s" % (rc, mode, out[-1500:], err[-1500:]))
            for line in out.splitlines():
                if line.startswith("STATS "):
                    st = json.loads(line[6:])
                    self.samples += st.pop("samples")
                    for k, v in st.items():
                        self.stats[k] = self.stats.get(k, 0) + v
            bad = [l for l in out.splitlines() if l.startswith(("DIFF ", "CRASH ", "HANG "))]
            if (bad or rc) and len(self.violations) < 3:
                # Executions are deterministic: the same run must fail again
                rc2, out2, err2 = self.shard(base, i, n)
                again = [l for l in out2.splitlines() if l.startswith(("DIFF ", "CRASH ", "HANG "))]
                if not again:
                    raise Inconclusive("did not reproduce in %s: %s" % (mode, (bad or [rc])[0]))
                self.mode = mode
                self.base = base + ["--shard", "%d/%d" % (i, n)]
                fields = dict(t.split("=", 1) for t in again[0].split(" why=")[0].split()[1:])
                self.report(self.cases[int(fields["case"])], again[0])

    def replay_text(self, c, op, inp, line):
        """The whole explorer, to be built and run with the arguments of the failing run."""
        d = os.path.join(core.VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        shutil.copy(self.inputs, os.path.join(d, "inputs.txt"))
        args = " ".join(a for a in self.base[1:]).replace(self.inputs, os.path.join(d, "inputs.txt"))
        return ("// Replays the history: g++ -std=c++20 -O1 -w -pthread -I/repo/include -I/verif/harness THIS_FILE /verif/harness/puredriver.cpp && ./a.out %s\n" % args
                + self.tu_text(self.cases).replace(self.pch, self.header))


PATTERNS = [
    ("(a)|b", 0, ["a", "b", "ab"]),
    ("a*(b)?", 0, ["aab", "ba", ""]),
    ("(a|b)*b", 0, ["abab", "aba", "bb"]),
    ("(?<n>[ab])\\k<n>", 0, ["aa", "ab", "abb"]),
    ("(?<=(a))b|a", 0, ["ab", "ba", "bab"]),
    ("(?:(a)|b){2}", UNROLL, ["ab", "ba", "a"]),
    ("(?>a*)b", 0, ["aab", "aaa", "b"]),
    ("^\\w$", MULTILINE, ["a\nb", "\n", "ab\na"]),
    ("a{2,3}?b*+", ICASE, ["AAab", "aB", "aaaa"]),
    ("(?!ab)[ab]{2}", 0, ["ab", "ba", "aba"]),
]
SPARE = [("(?:a|(b))*?c", 0, ["abc", "bb", "c"]), ("((a)\\2?)+", 0, ["aaa", "aab", "b"]), ("[^a]+|(a)", 0, ["ba", "aa", "bbb"]), ("\\b(a+)\\b", 0, ["a ab", "aa", "b a"])]


# One pattern per construct and per special case of the matcher; inputs long enough to go through it several times
LIGHT = [
    ("(?:a?)*b", 0, ["aab", "ba"]), ("(?:a*)*", 0, ["aaab", ""]), ("(?:a?b?)+c", 0, ["abbac", "ab"]), ("(?:a*?)+?b", 0, ["aab", "a"]), ("(?:(a)|b?)*+c?", 0, ["abac", "b"]), ("(?:a?){2,}", 0, ["aaa", ""]),
    ("a{2}", 0, ["aa", "a"]), ("a{2,}", UNROLL, ["aaa", "a"]), ("(?:ab){1,3}", 0, ["abababab", "ba"]), ("(?:ab|a){2}?b", 0, ["aab", "abab"]), ("[^b]{1,2}+", 0, ["aaa", "b"]), ("(a){3}", UNROLL, ["aaa", "aa"]),
    ("(?:a|b)*?b", 0, ["aabb", "aaa"]), ("a++b", 0, ["aab", "aa"]), ("(?:a|ab)++c?", 0, ["abac", "aab"]), ("(?:ab?){0,2}+a", 0, ["abaa", "ab"]), ("a*?", 0, ["aa", ""]), ("a+?b??", 0, ["aab", "b"]),
    ("(?=(a+))\\1b", 0, ["aab", "aa"]), ("(?!b)\\w+", 0, ["bab", "ab"]), ("(?<=ab)a", 0, ["aba", "aa"]), ("(?<!a)b+", 0, ["abb", "bb"]), ("(?<=(a|b)*c)d", 0, ["abcd", "d"]), ("(?<=^a*)b", 0, ["aab", "cb"]),
    ("a(?=b(?<=ab))", 0, ["ab", "aa"]), ("(?:(?=a)[ab])*", 0, ["aab", "ba"]), ("(?>a|ab)c", 0, ["abc", "ac"]), ("(?>(a)*)b", 0, ["aab", "aa"]), ("(?>a?)a", 0, ["aa", "a"]), ("(?>[ab]*)c", 0, ["abc", "ab"]),
    ("\\bab\\b", 0, ["ab ab", "abab"]), ("\\Bb", 0, ["ab", "b"]), ("^ab$", 0, ["ab", "abab"]), ("^b$", MULTILINE, ["a\nb\na", "ab"]), ("\\Aa\\Z", 0, ["a", "aa"]), ("(?:^|b)a", MULTILINE, ["\na", "ba"]),
    ("(a)(b)(a)\\3\\2", 0, ["abaab", "abab"]), ("(?:(a)|(b)|(c))*", 0, ["abcab", "d"]), ("(?<x>a)(?<y>b)?\\k<x>", 0, ["aba", "aa"]), ("(a(b(c)?)?)?", 0, ["abc", "ab"]), ("(a*)*", 0, ["aa", "b"]), ("((a)|b)+\\2", 0, ["aba", "ba"]),
    ("(a)\\1", ICASE, ["aA", "ab"]), ("[a-c]+", ICASE, ["AbC", "d"]), ("[^a-c]", ICASE, ["A", "d"]), ("[\\d_-]+", 0, ["1-_", "a"]), (".", 0, ["a", "\n"]), (".+", DOTALL, ["a\nb", ""]),
    ("\\w\\s\\d", 0, ["a 1", "a1"]), ("\\R|\\N", 0, ["\n", "a"]), ("\\x61|\\.", 0, ["a", "."]), ("abc|abd|ab", 0, ["abd", "abe"]), ("a|b|c", 0, ["c", "d"]), ("ab*c|(a)b", 0, ["abbc", "ab"]),
    ("abcdefgh", 0, ["abcdefgh", "abcdefg"]), ("a.c[d-f]g?", 0, ["abcdg", "abc"]), ("(?:a*b)*?c", UNGREEDY, ["aabbc", "aab"]), ("a*", UNGREEDY, ["aa", ""]), ("(?:)", 0, ["", "a"]), ("[]|a", 0, ["a", "b"]),
    ("(.*)-\\1", 0, ["abab-abab", "ab-aa"]), ("[^]*b", 0, ["aaaaaaab", "aaaaaaaa"]), ("(?:a|b|ab)*c", ICASE, ["ABabc", "abab"]), ("(?:aa|a)*+b?", 0, ["aaab", "b"]),
]


def c19(ctx):
    deep = ctx.deep
    pats = PATTERNS + (SPARE if deep else [])

    def fill(ex, deep):
        for p, fl, ins in pats:
            ex.add(p, ex.family(ins), flags=fl, macro="VH_PURE_B" if needs_bidirectional(p) else "VH_PURE_F")
    def light(ex, deep):
        for p, fl, ins in LIGHT:
            ex.add(p, ex.family(ins), flags=fl, macro="VH_PURE_L")
        ex.modes = [("fresh", [], JOBS), ("held", [], JOBS), ("reuse", [], JOBS), ("soak", ["--depth", "70000" if not deep else "1000000"], JOBS), ("walk", ["--depth", "2" if not deep else "3", "--walk-patterns", str(len(LIGHT)), "--walk-generators", "0"], JOBS)]
        return ["all pairs of calls over %d patterns (every construct and every special case of the matcher) on 2 inputs: one after the other, as the first ones of a process, and with the first result, in each of 6 forms of input, alive during the second call" % len(LIGHT),
                "every call repeated up to 100 times, then another call of the same pattern at the same address on changed contents (each character replaced, reversed, cut, extended)",
                "%s repetitions of one call" % ex.modes[3][1][1]]
    walk_patterns, walk_gens, depth = (6, 4, 4) if not deep else (7, 6, 4)

    def histories(ex, deep):
        fill(ex, deep)
        ex.modes = [("fresh", [], JOBS), ("walk", ["--depth", str(depth), "--walk-patterns", str(walk_patterns), "--walk-generators", str(walk_gens)], JOBS),
                    ("walk", ["--depth", str(3), "--walk-patterns", str(len(pats)), "--walk-generators", "8"], JOBS),
                    ("pairs", [], JOBS), ("reuse", [], JOBS), ("nested", [], JOBS), ("schedules", ["--depth", "2"], JOBS)]
        if deep:
            ex.modes.insert(2, ("walk", ["--depth", "6", "--walk-patterns", "2", "--walk-generators", "2"], JOBS))
        return ["all histories of %d consecutive operations over an alphabet of match and search calls of %d patterns on 3 inputs each (at one and the same address) and of steps and restarts of %d interleaved generators and ranges; all histories of 3 over %d patterns and 16 generators and ranges" % (depth, walk_patterns, 2 * walk_gens, len(pats)),
                "every call as the first one of a process, followed by all others",
                "two generators or ranges of the same or different kinds and patterns, over the same memory, a part of it or a copy, drained past their ends (at most 7 steps each) in every order of their steps",
                "every call made, complete, at every iterator step of every other call (reentrancy)",
                "two threads running two calls of the same or of different patterns under a controlled scheduler, all schedules with at most 2 preemptions at iterator steps"]
    ctx.explore("histories", histories, explorer=PureExplorer, header="impl_pure.hpp", per_tu=2, timeout=100, selfcheck=False)
    if ctx.violations:
        return
    ctx.explore("light", light, explorer=PureExplorer, header="impl_pure.hpp", per_tu=4, timeout=100, selfcheck=False)
    if ctx.violations:
        return
    race_pass(ctx, fill)


def race_pass(ctx, fill):
    """The same bodies on free-running threads under the race detector (not exhaustive; looks for unsynchronised accesses only)."""
    class TSan(PureExplorer):
        cxx_extra = ["-fsanitize=thread"]
        env = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}
    probe = ctx.subdir("probe")
    src = os.path.join(probe, "p.cpp")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main() { int x = 0; std::thread t{[&] { x = 1; }}; t.join(); return x - 1; }\n")
    if run([core.CXX, "-std=c++20", "-fsanitize=thread", src, "-o", src + ".x"]).returncode != 0 or run([src + ".x"]).returncode != 0:
        ctx.bounds.append("race-detector pass skipped: the detector does not run on this machine")
        return
    ex = TSan(ctx.prop, ctx.subdir("tsan"), header="impl_pure.hpp", per_tu=2, timeout=100, selfcheck=False)
    fill(ex, ctx.deep)
    ex.write_inputs()
    if not ex.build():
        ctx.violations += ex.violations
        return
    cmd = [ex.exe, "--inputs", ex.inputs, "--mode", "free"]
    r = run(cmd, env=dict(os.environ, **TSan.env))
    text = (r.stdout + r.stderr).decode(errors="replace")
    if r.returncode == 66 and "data race" in text:
        what = "concurrent calls race: " + next((l.strip() for l in text.splitlines() if l.strip().startswith("#0")), "")[:200]
        ex.base = cmd
        ctx.violation(what, core.save_replay(ctx.prop, "race", ex.replay_text(None, 0, b"", ""), text[-8000:], what))
    elif r.returncode == 1 and "DIFF " in text:
        line = next(l for l in text.splitlines() if l.startswith("DIFF "))
        what = "concurrent calls disturb each other: " + line.split(" why=")[1]
        ex.base = cmd
        ctx.violation(what, core.save_replay(ctx.prop, "free", ex.replay_text(None, 0, b"", ""), text[-8000:], what))
    elif r.returncode != 0:
        raise Inconclusive("race-detector pass: exit %d: %s" % (r.returncode, text[-1500:]))
    ctx.bounds.append("the same calls on 4 free-running threads under the thread sanitizer: no data race reported (this pass alone is not exhaustive)")
