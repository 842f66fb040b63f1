"""Build-and-explore engine shared by all checks.

A check supplies a finite space of patterns (programs of the library: every pattern is a C++ type) and finite families of
inputs. The engine generates translation units that instantiate the real library from /repo's working tree for every
pattern, links them with the driver and the reference machine, and explores every (pattern, operation, input) triple.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CXX = os.environ.get("VERIF_CXX", "g++")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
CXXFLAGS = ["-std=c++20", "-w", "-I" + INC, "-I" + os.path.join(VERIF, "harness")]
OPT = ["-O1"]

FLAG_BITS = {"icase": 1, "dotall": 2, "multiline": 4, "ungreedy": 8, "unroll": 16}
ICASE, DOTALL, MULTILINE, UNGREEDY, UNROLL = 1, 2, 4, 8, 16
M, P, S = 1, 2, 4  # operation mask: match, match_prefix, search
OPN = ["match", "match_prefix", "search"]


def cstr(b):
    """A C++ string literal for the bytes b."""
    if isinstance(b, str):
        b = b.encode("latin-1")
    out = []
    for c in b:
        ch = chr(c)
        if ch.isascii() and (ch.isalnum() or ch in " _()[]{}<>=!:;,.*+-|^$/&%#@~"):
            out.append(ch)
        else:
            out.append("\\%03o" % c)
    return '"' + "".join(out) + '"'


def brief(b):
    """The literal, with the middle of a long one left out (the replay file has all of it)."""
    s = cstr(b)
    return s if len(s) <= 400 else "%s ... %s (%d bytes)" % (s[:150], s[-150:], len(b))


def flag_names(mask):
    return ["F::" + n for n, b in FLAG_BITS.items() if mask & b]


def tobytes(p):
    return p.encode("latin-1") if isinstance(p, str) else p


class Case:
    """One regex type. `ctype` is its C++ spelling when it is not regex<pattern, flags...> itself; `pattern` and `flags` are then
    what the type has to mean. `macro` names the harness entry point."""
    __slots__ = ("id", "pattern", "flags", "family", "ops", "ctype", "macro", "extra")

    def __init__(self, pattern, flags=0, family=0, ops=7, ctype=None, macro=None, extra=""):
        self.id = -1
        self.ctype = ctype
        self.macro = macro
        self.extra = extra
        self.pattern = tobytes(pattern)
        self.flags = flags
        self.family = family
        self.ops = ops

    def key(self):
        return (self.pattern, self.flags, self.family, self.ops, self.ctype, self.macro, self.extra)

    def type(self):
        if self.ctype:
            return self.ctype
        return "meta::regex<%s%s>" % (cstr(self.pattern), "".join(", meta::regex_flag::" + f[3:] for f in flag_names(self.flags)))

    def decl(self):
        if self.ctype or self.macro:
            return "%s(%d, %d, %du, %du, %s, %s%s)" % (self.macro or "VH_CASE_T", self.id, self.family, self.flags, self.ops, cstr(self.pattern),
                                                     self.type(), self.extra)
        fl = "".join(", " + f for f in flag_names(self.flags))
        return "VH_CASE(%d, %d, %du, %du, %s%s)" % (self.id, self.family, self.flags, self.ops, cstr(self.pattern), fl)

    def show(self):
        if self.ctype:
            return "%s (meaning %s)" % (self.ctype, cstr(self.pattern))
        fl = ",".join(f[3:] for f in flag_names(self.flags))
        return "regex<%s%s>" % (cstr(self.pattern), ", " + fl if fl else "")


class Violation:
    def __init__(self, what, replay=None):
        self.what = what
        self.replay = replay


class Inconclusive(Exception):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def pmap(fn, items, jobs=None):
    items = list(items)
    with cf.ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(fn, items))


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mregex-verif-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def compile_obj(src, obj, opt=None, extra=(), timeout=600):
    """Returns None on success, else the compiler's diagnostics."""
    try:
        r = run([CXX] + CXXFLAGS + (opt or OPT) + list(extra) + ["-c", src, "-o", obj], timeout=timeout)
    except subprocess.TimeoutExpired:
        return "compiler timeout after %d s" % timeout
    if r.returncode == 0:
        return None
    return r.stderr.decode(errors="replace")[-20000:] or "exit %d" % r.returncode


def syntax_only(src, extra=(), timeout=300):
    try:
        r = run([CXX] + CXXFLAGS + list(extra) + ["-fsyntax-only", src], timeout=timeout)
    except subprocess.TimeoutExpired:
        return "compiler timeout after %d s" % timeout
    if r.returncode == 0:
        return None
    return r.stderr.decode(errors="replace")[-20000:] or "exit %d" % r.returncode


def first_error(diag):
    for line in diag.splitlines():
        if "error:" in line or "timeout" in line:
            return line.strip()[:300]
    return diag.strip()[:300]


def looks_like_resource_failure(diag):
    return any(t in diag for t in ("Killed", "out of memory", "virtual memory exhausted", "No space left", "timeout after",
                                   "internal compiler error", "cannot allocate"))


def balanced_chunks(cases, per_tu):
    n = max(1, (len(cases) + per_tu - 1) // per_tu)
    if n > JOBS:
        n = ((n + JOBS - 1) // JOBS) * JOBS
    n = min(n, len(cases))
    return [cases[i::n] for i in range(n)]


class Explorer:
    """Explores a set of cases over families of inputs against the reference machine."""

    def __init__(self, prop, workdir, per_tu=40, header="impl.hpp", selfcheck=True, timeout=20):
        self.prop = prop
        self.dir = workdir
        self.per_tu = per_tu
        self.header = header
        self.selfcheck = selfcheck
        self.timeout = timeout
        self.cases = []
        self.families = []
        self.fam_names = {}
        self.violations = []
        self.stats = {}
        self.samples = []

    def family(self, inputs):
        inputs = tuple(tobytes(i) for i in inputs)
        if inputs not in self.fam_names:
            self.fam_names[inputs] = len(self.families)
            self.families.append(inputs)
        return self.fam_names[inputs]

    def add(self, pattern, family, flags=0, ops=7, **kw):
        self.cases.append(Case(pattern, flags, family, ops, **kw))

    driver = "driver.cpp"
    driver_args = ()
    opnames = OPN
    cxx_extra = []  # for the generated units and the link
    env = {}

    def extra_obj_sources(self):
        return [(os.path.join(VERIF, "harness", self.driver), ["-O2"])]

    def tu_text(self, cases):
        return ('#include "%s"\nstatic vh::Case const cases[] = {\n%s\n};\nstatic vh::Registrar reg{cases, %d};\n'
                % (self.pch, ",\n".join(c.decl() for c in cases), len(cases)))

    def make_pch(self, units):
        self.pch = os.path.join(self.dir, "pch_" + self.header)
        with open(self.pch, "w") as f:
            f.write('#include "%s"\n' % os.path.join(VERIF, "harness", self.header))
        if units > JOBS:
            r = run([CXX] + CXXFLAGS + OPT + self.cxx_extra + ["-x", "c++-header", self.pch, "-o", self.pch + ".gch"])
            if r.returncode != 0:
                # Let the units themselves tell what is wrong
                if os.path.exists(self.pch + ".gch"):
                    os.unlink(self.pch + ".gch")

    def build(self):
        seen = set()
        uniq = []
        for c in self.cases:
            if c.key() not in seen:
                seen.add(c.key())
                uniq.append(c)
        for i, c in enumerate(uniq):
            c.id = i
        self.cases = uniq
        chunks = balanced_chunks(uniq, self.per_tu)
        self.make_pch(len(chunks))
        jobs = []
        objs = []
        for src, opt in self.extra_obj_sources():
            obj = os.path.join(self.dir, "x_" + os.path.basename(src) + ".o")
            jobs.append((src, obj, opt, None))
            objs.append(obj)
        for i, ch in enumerate(chunks):
            src = os.path.join(self.dir, "tu%04d.cpp" % i)
            with open(src, "w") as f:
                f.write(self.tu_text(ch))
            obj = src[:-4] + ".o"
            jobs.append((src, obj, None, ch))
            objs.append(obj)
        results = pmap(lambda j: compile_obj(j[0], j[1], j[2], extra=self.cxx_extra if j[3] is not None else ()), jobs)
        for (src, obj, opt, ch), diag in zip(jobs, results):
            if diag is None:
                continue
            if ch is None:
                raise Inconclusive("driver does not compile: " + first_error(diag))
            self.bisect_compile(ch, diag)
        if self.violations:
            return False
        self.exe = os.path.join(self.dir, "explore")
        ld = ["-fuse-ld=gold"] if shutil.which("ld.gold") else []
        r = run([CXX] + self.cxx_extra + ld + objs + ["-o", self.exe])
        if r.returncode != 0:
            r = run([CXX] + self.cxx_extra + objs + ["-o", self.exe])
            if r.returncode != 0:
                raise Inconclusive("link failed: " + r.stderr.decode(errors="replace")[-2000:])
        for o in objs:
            os.unlink(o)
        return True

    def bisect_compile(self, cases, diag):
        """Some pattern of this unit fails to compile although it is valid: find which and report it."""
        def one(c):
            src = os.path.join(self.dir, "one%06d.cpp" % c.id)
            with open(src, "w") as f:
                f.write(self.tu_text([c]))
            d = compile_obj(src, src + ".o", extra=self.cxx_extra)
            if d is not None and looks_like_resource_failure(d):
                d = compile_obj(src, src + ".o", timeout=1200, extra=self.cxx_extra)
            return d
        if len(self.violations) >= 3:
            return
        bad = [(c, d) for c, d in zip(cases, pmap(one, cases)) if d is not None]
        if not bad:
            if looks_like_resource_failure(diag):
                # Every pattern compiles alone: the unit ran out of resources as a whole
                raise Inconclusive("unit failed to compile as a whole: " + first_error(diag))
            raise Inconclusive("unit fails but its patterns compile alone: " + first_error(diag))
        for c, d in bad[:3]:
            if looks_like_resource_failure(d):
                what = "compiling %s does not terminate within limits: %s" % (c.show(), first_error(d))
            else:
                what = "%s does not compile: %s" % (c.show(), first_error(d))
            path = save_replay(self.prop, "compile-%d" % c.id, self.compile_replay_text(c), d, what)
            self.violations.append(Violation(what, path))

    def compile_replay_text(self, c):
        if not c.macro:
            return compile_replay(c)
        return ("// Fails to compile: g++ -std=c++20 -c %s -I/repo/include -I/verif/harness THIS_FILE\n" % " ".join(self.cxx_extra)
                + self.tu_text([c]).replace(self.pch, self.header))

    def write_inputs(self):
        self.inputs = os.path.join(self.dir, "inputs.txt")
        with open(self.inputs, "w") as f:
            for fam in self.families:
                f.write("F\n")
                for i in fam:
                    f.write(i.hex() + "\n")

    def explore(self):
        self.write_inputs()
        if not self.build():
            return
        n = JOBS
        base = [self.exe, "--inputs", self.inputs] + list(self.driver_args)
        extra = ["--selfcheck"] if self.selfcheck else []

        def shard(i, timeout=None):
            r = run(base + ["--shard", "%d/%d" % (i, n), "--case-timeout", str(timeout or self.timeout)] + extra, env=dict(os.environ, **self.env))
            out = r.stdout.decode(errors="replace")
            if r.returncode not in (0, 1, 3, 4):
                raise Inconclusive("driver exit %d: %s %s" % (r.returncode, out[-2000:], r.stderr.decode(errors="replace")[-2000:]))
            if timeout is None and r.returncode == 3:
                return shard(i, self.slow())  # slow or hanging: once more with a longer limit
            sys.stderr.write(r.stderr.decode(errors="replace")[-3000:])
            return out
        suspects = []
        for i, out in enumerate(pmap(shard, range(n))):
            for line in out.splitlines():
                if line.startswith("STATS "):
                    st = json.loads(line[6:])
                    self.samples += st.pop("samples")
                    for k, v in st.items():
                        self.stats[k] = self.stats.get(k, 0) + v
                elif line.startswith(("DIFF ", "CRASH ", "HANG ")):
                    suspects.append((line, i))
        for line, i in suspects[:5]:
            self.confirm(line, base, lambda: shard(i, self.slow()))
            if line.startswith("HANG "):
                break

    def slow(self):
        return min(5 * self.timeout, 200)

    def confirm(self, line, base, again):
        """Reproduces the execution alone, or else the whole run it was part of."""
        fields = dict(t.split("=", 1) for t in line.split(" why=")[0].split()[1:])
        c = self.cases[int(fields["case"])]
        def alone():
            return run(base + ["--only", fields["case"], "--case-timeout", str(self.slow())], env=dict(os.environ, **self.env)).stdout.decode(errors="replace")
        for get in (alone, again):
            lines = [l for l in get().splitlines() if l.startswith(("DIFF ", "CRASH ", "HANG "))]
            if lines:
                fields = dict(t.split("=", 1) for t in lines[0].split(" why=")[0].split()[1:])
                return self.report(self.cases[int(fields["case"])], lines[0])
        raise Inconclusive("did not reproduce: " + line)

    def report(self, c, line):
        kind = line.split(" ", 1)[0]
        fields = dict(t.split("=", 1) for t in line.split(" why=")[0].split()[1:])
        inp = bytes.fromhex(fields.get("input", ""))
        op = int(fields["op"])
        if kind == "DIFF":
            what = "%s::%s(%s): %s" % (c.show(), self.opnames[op], brief(inp), line.split(" why=")[1])
        elif kind == "CRASH":
            what = "%s::%s(%s): crashed (signal %s)" % (c.show(), self.opnames[op], brief(inp), fields["sig"])
        else:
            what = "%s::%s(%s): did not terminate" % (c.show(), self.opnames[op], brief(inp))
        text = self.replay_text(c, op, inp, line)
        path = save_replay(self.prop, "case-%d" % c.id, text, line, what)
        self.violations.append(Violation(what, path))


    def replay_text(self, c, op, inp, line):
        return harness_replay(self.header, c, op, inp) if c.macro else run_replay(c, op, inp)


PRELUDE = {"xpr": "namespace xpr = meta::xpr;\nusing namespace meta::xpr::operators;\n"}


def self_header(c):
    return "xpr" if c.ctype and "xpr::" in c.ctype else ""


def compile_replay(c):
    return """// Fails to compile: g++ -std=c++20 -I/repo/include THIS_FILE
#include <mregex.hpp>
#include <cstdio>
%susing R = %s;
int main()
{
    char const *s = "";
    std::printf("%%d %%d %%d\\n", (int) R::match(s, s).matched(), (int) R::match_prefix(s, s).matched(), (int) R::search(s, s).matched());
}
""" % (PRELUDE.get(self_header(c), ""), c.type())


def run_replay(c, op, inp):
    return """// Replays the execution: g++ -std=c++20 -I/repo/include THIS_FILE && ./a.out   (expected outcome: see the .txt beside it)
#include <mregex.hpp>
#include <cstdio>
%susing R = %s;
int main()
{
    static char const text[] = %s;
    char const *b = text, *e = text + sizeof text - 1;
    auto r = R::%s(b, e);
    std::printf("matched=%%d\\n", (int) r.matched());
    int i = 0;
    r.for_each_group([&](auto const &g) {
        if (g.length() == 0) std::printf("group %%d: empty\\n", i++);
        else std::printf("group %%d: [%%d,%%d)\\n", i++, int(g.begin() - b), int(g.end() - b));
    });
}
""" % (PRELUDE.get(self_header(c), ""), c.type(), cstr(inp), OPN[op])


def harness_replay(header, c, op, inp):
    return """// Replays the execution: g++ -std=c++20 -I/repo/include -I/verif/harness THIS_FILE && ./a.out   (expected outcome: see the .txt beside it)
#include "%s"
#include <cstdio>
static vh::Case const c = %s;
int main()
{
    static char const text[] = %s;
    vh::Obs o{};
    c.run(%d, text, text + sizeof text - 1, o);
    std::printf("matched=%%d\\n", (int) o.matched);
    for (int i = 0; i < o.groups; ++i)
        std::printf("group %%d: [%%d,%%d) length %%ld\\n", i, o.s[i], o.e[i], o.len[i]);
    std::printf("problem: %%s\\n", o.problem ? o.problem : "none");
}
""" % (header, c.decl(), cstr(inp), op)


def save_replay(prop, name, cpp, log, what, ext=".cpp"):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ext)
    with open(path, "w") as f:
        f.write(cpp)
    with open(os.path.join(d, name + ".txt"), "w") as f:
        f.write(what + "\n\n" + (log or ""))
    return path


def words(alphabet, maxlen, minlen=0):
    """All words over the alphabet with minlen <= length <= maxlen, shortest first."""
    import itertools
    out = []
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            out.append("".join(t))
    return out


def near_words(unit, maxlen, devs, minlen=0, ndev=1):
    """unit repeated/truncated to every length <= maxlen, with at most ndev (0, 1 or 2) positions replaced by a character of devs."""
    out = []
    seen = set()

    def put(s):
        if s not in seen:
            seen.add(s)
            out.append(s)
    for n in range(minlen, maxlen + 1):
        w = (unit * (n // max(1, len(unit)) + 1))[:n]
        put(w)
        if ndev >= 1:
            for i in range(n):
                for d in devs:
                    put(w[:i] + d + w[i + 1:])
        if ndev >= 2:
            for i in range(n):
                for j in range(i + 1, n):
                    for d in devs:
                        for d2 in devs:
                            put(w[:i] + d + w[i + 1:j] + d2 + w[j + 1:])
    return out
