"""C13: the parser's verdict on every string of bounded spaces; C15: the compiler's verdict on programs."""
import itertools
import os

from .. import refmodel
from ..core import (CXX, Inconclusive, JOBS, compile_obj, cstr, first_error, looks_like_resource_failure, pmap, run, save_replay, syntax_only,
                    tobytes, CXXFLAGS)

HEAD = """#include <mregex.hpp>
#include <cstdio>
template<typename> struct vpos { static constexpr long value = -1; };
template<std::size_t I> struct vpos<meta::parsing::syntax_error<I>> { static constexpr long value = static_cast<long>(I); };
template<meta::static_string P>
inline constexpr long verdict_of = meta::parser<P>::accepted == (vpos<meta::parser_verdict<P>>::value == -1) ? vpos<meta::parser_verdict<P>>::value : -3;
"""


def tree(prefix, alphabet, depth, suffix=""):
    """Every string prefix+w with |w| <= depth, except continuations of strings that are already rejected before their last character.
    The parser reads its input from left to right, so such a continuation is rejected for the same reason at the same place."""
    out = []
    level = [tobytes(prefix)]
    alphabet = [tobytes(a) for a in alphabet]
    for d in range(depth + 1):
        vs = refmodel.verdicts(level)
        out += level
        if d == depth:
            break
        level = [p + a for p, (acc, at, _) in zip(level, vs) if acc or at == len(p) for a in alphabet]
    return out


def strings(deep):
    e = 1 if deep else 0
    out = []
    spaces = []

    def space(name, ss):
        spaces.append("%s (%d)" % (name, len(ss)))
        out.extend(ss)
    full = list("a()[]{}*+?|\\^-,1<>:=!kx$.0_b") if deep else list("a()[]{}*+?|\\^-,1<")
    space("all strings over %d special and ordinary characters up to length 3" % len(full), tree("", full, 3))
    if deep:
        space("all strings over 14 characters up to length 4", tree("", "a()[]{}*?|\\^-1", 4))
    space("quantifiers", tree("a", "a{1,}?+*", 4 + e))
    space("quantified groups", tree("(a)", "{12,}?+*|", 3 + 2 * e))
    space("groups", tree("(", "?:<=!>a)|", 3 + 2 * e) + tree("(?", ":<=!>a)", 3 + 2 * e) + tree("", "(?=a)", 5 + 2 * e))
    space("group nesting", tree("", "a|()*", 6 + 2 * e))
    space("braces and alternation", tree("", "a{|}(1)", 4 + 2 * e))
    space("names", tree("(?<", "aZ_1>)-", 4 + 2 * e))
    space("named references", tree("(?<a>b)\\k", "<a_1>)", 5 + 2 * e))
    space("numbers", tree("(a)\\", "0123a(", 3 + e))
    space("sets", tree("[", "a^]-\\[d", 4 + e))
    space("negated sets", tree("[^", "a^]-\\b", 3 + 2 * e))
    space("set ranges", tree("[a-", "bz\\dDwWsSRNnx0]-", 2 + e))
    space("hexadecimal", tree("\\x", "09aAfFgG]\\", 3) + tree("[\\x", "09afFg]\\-", 3 + 2 * e) + tree("[a-\\x", "7fFg]", 3 + 2 * e))
    space("escapes", tree("\\", list("bBAZdDwWsSkx0n(|)*\\"), 2 + e))
    every = [bytes([c]) for c in range(1, 256)]
    ctxs = ["%", "a%", "\\%", "[%", "[\\%", "[a%", "[a-%", "[a-\\%", "[^%", "(%", "(?%", "(?<%", "(?<a%", "(?<a_%", "a{%", "a{1%", "a{1,%", "a{1,2%", "a{1}%", "a*%", "a*?%", "a|%", "\\x%", "\\x1%", "\\x1f%", "\\k%", "\\k<%", "(?<a>)\\k<a%", "(a)\\1%", "(a)%",
            "[a]%", "[]%", "()%", "(?:)%", "^%", "\\b%", ".%", "(?=%", "(?:%", "(?<=%", "[\\d%", "[\\d-%", "[a-c%", "[-%", "{%", "a{%}", "(%)", "[%]", "(?<n%>)"]
    for c in ctxs:
        space("every byte in " + c, [c.encode().replace(b"%", b) for b in every])
    # Long patterns
    long = []
    for n in (list(range(1, 41)) + [64, 100] if deep else [1, 2, 3, 4, 5, 9, 10, 11, 16, 17, 33, 64]):
        long += ["(" * n + "a" + ")" * n, "(" * n + "a" + ")" * (n - 1), "(" * n + "a" + ")" * (n + 1), "(?:" * n + "a|b" + ")" * n, "a" * n, "a" * n + "*", "a" * n + "**", "a" * n + ")", "a|" * n + "b", "a|" * n, "a*" * n, "a*?" * n + "*", "[" + "a" * n + "]",
                 "[" + "a-c" * n + "]", "[" + "a" * n, "a{" + "1" * n + "}", "a{1," + "1" * n + "}", "a{" + "1" * n, "(?<" + "n" * n + ">a)", "(?<" + "n" * n, "(?<" + "n1_" * n + ">a)\\k<" + "n1_" * n + ">", "\\x61" * n, "\\x61" * n + "\\x6", "()" * n, "(a)" * n + "\\%d" % n, "[a]" * n + "]",
                 "(?=a)" * n, "(?<!a)" * n + "(?<", "." * n + "+" * 3, "^" * n + "*", "a{2}" * n + "{2}", "a{" * n, "a{" * n + "1", "(?>" * n + ")" * n, "\\." * n + "\\", "(a|" * n + "b" + ")" * n, "(a|" * n + ")" * n, "(a*)" * n + "*" * 2, "[]" * n, "[^]" * n + "[^"]
    space("long patterns", [tobytes(p) for p in long])
    seen = set()
    res = []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(s)
    return res, spaces


def unit(i, chunk):
    return HEAD + "extern long const table%d[] = {\n%s\n};\n" % (i, ",\n".join("verdict_of<%s>" % cstr(p) for p in chunk))


def evaluate(dir, chunks):
    """Compiles the chunks' verdict tables and returns [list of verdicts or None] per chunk, and the diagnostics of failed ones."""
    def comp(ic):
        i, ch = ic
        src = os.path.join(dir, "v%05d.cpp" % i)
        with open(src, "w") as f:
            f.write(unit(i, ch))
        d = compile_obj(src, src + ".o", opt=["-O0"], extra=["-ftemplate-depth=4000"])
        os.unlink(src)
        return d
    diags = pmap(comp, list(enumerate(chunks)))
    good = [i for i, d in enumerate(diags) if d is None]
    res = [None] * len(chunks)
    if good:
        main = os.path.join(dir, "main.cpp")
        with open(main, "w") as f:
            f.write("#include <cstdio>\n")
            for i in good:
                f.write("extern long const table%d[];\n" % i)
            f.write("static void dump(long const *t, int n) { for (int i = 0; i < n; ++i) std::printf(\"%ld\\n\", t[i]); }\nint main()\n{\n")
            for i in good:
                f.write("    dump(table%d, %d);\n" % (i, len(chunks[i])))
            f.write("}\n")
        exe = os.path.join(dir, "dump")
        r = run([CXX, "-w", main] + [os.path.join(dir, "v%05d.cpp.o" % i) for i in good] + ["-o", exe])
        if r.returncode != 0:
            raise Inconclusive("link failed: " + r.stderr.decode(errors="replace")[-1000:])
        vals = [int(x) for x in run([exe]).stdout.split()]
        k = 0
        for i in good:
            res[i] = vals[k:k + len(chunks[i])]
            k += len(chunks[i])
    for f in os.listdir(dir):
        if f.endswith(".o"):
            os.unlink(os.path.join(dir, f))
    return res, diags


def show(v):
    return "accepted" if v == -1 else "rejected at %d" % v if v >= 0 else "inconsistent verdict"


def program(p):
    return """// The verdict of the library's compile-time parser: g++ -std=c++20 -I/repo/include THIS_FILE && ./a.out
%sint main() { std::printf("%%ld   (-1: accepted, otherwise the position of the error)\\n", verdict_of<%s>); }
""" % (HEAD, cstr(p))


def c13(ctx):
    ss, spaces = strings(ctx.deep)
    ctx.bounds += spaces
    vs = refmodel.verdicts(ss)
    # Meaningless ranges and bounds are diagnosed while the expression is built (C15), whatever follows them
    keep = [i for i, v in enumerate(vs) if v[2] not in ("range", "bounds")]
    ss, vs = [ss[i] for i in keep], [vs[i] for i in keep]
    ctx.bounds.append("of these, the %d without a meaningless range or repetition" % len(ss))
    expect = {s: (-1 if a else at) for s, (a, at, _) in zip(ss, vs)}
    ctx.count("states", sum(1 for s in ss if expect[s] == -1 or expect[s] == len(s)))
    ctx.count("transitions", len(ss))
    short = [s for s in ss if len(s) <= 24]
    lng = [s for s in ss if len(s) > 24]
    n = max(JOBS * 4, len(short) // 700 + 1)
    chunks = [short[i::n] for i in range(n)] + [lng[i::JOBS * 4] for i in range(JOBS * 4)]
    chunks = [c for c in chunks if c]
    dir = ctx.subdir("c13")
    for rnd in range(12):
        res, diags = evaluate(dir, chunks)
        again = []
        for ch, r, d in zip(chunks, res, diags):
            if r is None:
                if len(ch) > 1:
                    again += [ch[:len(ch) // 2], ch[len(ch) // 2:]]
                else:
                    if looks_like_resource_failure(d):
                        raise Inconclusive("resources exhausted on %s: %s" % (cstr(ch[0]), first_error(d)))
                    what = "the parser does not compile on %s, which the grammar has %s: %s" % (cstr(ch[0]), show(expect[ch[0]]), first_error(d))
                    ctx.violation(what, save_replay(ctx.prop, "parse-%d" % len(ctx.violations), program(ch[0]), d, what))
                continue
            for s, v in zip(ch, r):
                ctx.count("traces_validated_against_impl", 1)
                if v == expect[s]:
                    if expect[s] == -1:
                        ctx.count("accepted", 1)
                    continue
                what = "%s is %s, the grammar has it %s" % (cstr(s), show(v), show(expect[s]))
                if len(ctx.violations) < 5:
                    ctx.violation(what, save_replay(ctx.prop, "parse-%d" % len(ctx.violations), program(s), "", what))
        if not again or ctx.violations:
            break
        chunks = again[:16]  # each failing unit contains a failing string: following a few of them is enough
    for s in ss[1000::max(1, len(ss) // 8)]:
        ctx.sample({"pattern": s.decode("latin-1"), "verdict": show(expect[s])})


# ---------------------------------------------------------------------------------------------------------------- C15
USES = ["R::match(s).matched()", "R::match_prefix(s).matched()", "R::search(s).matched()", "R::tokenizer(s).next().matched()", "R::searcher(s)().matched()",
        "R::tokenize(s).active()", "R::find_all(s).active()", "R::match(s.begin(), s.end()).matched()", "R::search(std::string{s}).matched()"]


def regex_of(p, flags=()):
    return "meta::regex<%s%s>" % (cstr(p), "".join(", meta::regex_flag::" + f for f in flags))


def uses(rtype, use=USES[0]):
    return "{ using R = %s; return %s; }" % (rtype, use)


def bad_programs(deep):
    """[(why it is meaningless, body of a function of std::string_view s)]"""
    out = []

    every = []

    def pat(why, p, use=USES[0], flags=()):
        every.append(p)
        out.append((why, uses(regex_of(p, flags), use)))
    # Every short pattern the model finds meaningless
    def meaningless(kind, alphabet, n, prefix="", suffix="", limit=None):
        import itertools
        ws = [prefix + "".join(t) + suffix for k in range(1, n + 1) for t in itertools.product(alphabet, repeat=k)]
        got = [w for w, v in zip(ws, refmodel.verdicts(ws)) if v[0] and v[2].startswith(kind)]
        for w in got:
            pat(kind, w)
        return len(got)
    meaningless("undefined backref", "a(\\)12", 4 + deep)
    meaningless("undefined backref", "12|0b", 2, "(a)\\")
    meaningless("bounds", "012,", 3 + deep, "a{", "}")
    meaningless("range", "abz-", 3, "[", "]")
    meaningless("range", "aZ-", 3, "[^", "]")
    meaningless("undefined", "ab_1", 2, "(?<a>b)(?<ab>b)\\k<", ">")
    # References
    for g in (0, 1, 2, 3, 9, 10, 11):
        groups = "".join("(%s)" % "abcdefghijkl"[i] for i in range(g))
        for n in sorted({g + 1, g + 2, 10 * (g or 1) + (1 if g != 1 else 0), 99, 100}):
            if n > g:
                pat("reference to group %d of %d" % (n, g), groups + "\\%d" % n)
    ctxs = ["%s", "a%s", "%sb", "a|%s", "%s|a", "(?:%s)*", "(?:a%s){2}", "(?:%sa)?", "(?>%s)", "(?=%s)", "(?!%s)", "(?<=%s)", "(?<!%s)", "(%s)", "(?<x>%s)", "%s*", "%s+?", "%s{2}", "%s{2,3}", "%s*+", "(?:a|(?:b|%sc))", "(?=a(?!%s))", "(?<=a(?<!b%s))", "(?:b(?>a|%s))++", "(?:%s){1,3}?"]
    for i, c in enumerate(ctxs):
        own = 1 if c in ("(%s)", "(?<x>%s)") else 0
        pat("undefined reference", "(a)" + c % ("\\%d" % (2 + own)), USES[i % 3])
        pat("undefined name", "(?<n>a)" + c % "\\k<m>", USES[i % 3])
        if deep:
            for u in USES:
                pat("undefined reference", "(a)" + c % ("\\%d" % (3 + own)), u)
                pat("undefined name", "(?<n>a)" + c % "\\k<nn>", u)
    # A body repeated zero times is never instantiated (known findings)
    for p in ["(a)\\2{0}", "(a)\\2{0,0}", "(a)(?:\\2){0}", "(?<n>a)\\k<m>{0}"]:
        pat("undefined reference in a repetition of zero times", p)
    for name, ref in [("n", "N"), ("nn", "n"), ("n", "nn"), ("n_1", "n1"), ("abc", "ab"), ("abc", "abcd"), ("abc", "abd"), ("abc", "bc"), ("_a", "a"), ("a1", "a2"), ("a10", "a1")]:
        pat("undefined name", "(?<%s>a)\\k<%s>" % (name, ref))
    pat("undefined name", "(a)\\k<a>")
    pat("undefined name", "\\k<a>(?<b>a)(?<c>a)")
    for u in USES:
        pat("undefined reference", "(a)\\2", u)
        pat("undefined name", "(?<n>a)\\k<m>", u)
        pat("bounds", "a{3,2}", u)
        pat("range", "[b-a]", u)
        pat("syntax", "(a", u)
    for fl in ("icase", "dotall", "multiline", "ungreedy", "unroll"):
        for p in ["(a)\\2", "(?<n>a)\\k<m>", "a{3,2}", "(?:ab){2,1}", "[b-a]", "a**"]:
            pat("flags", p, USES[0], (fl,))
    # Bounds
    for lo, hi in [(1, 0), (2, 0), (2, 1), (3, 1), (5, 4), (9, 8), (10, 9), (11, 10), (12, 2), (20, 3), (100, 99), (101, 100), (256, 255), (1000, 999), (21, 12), (65536, 1)]:
        for mode in ("", "?", "+"):
            pat("bounds", "a{%d,%d}%s" % (lo, hi, mode))
        pat("bounds", "(?:ab){%d,%d}b" % (lo, hi))
        out.append(("bounds", uses("decltype(meta::xpr::between<%d, %d>(meta::xpr::chr<'a'>))" % (lo, hi))))
    for c in ["(?:%s)", "(%s)", "(?=%s)", "(?<!%s)", "(?>%s)", "b|%s", "(?:%s)*", "(?<=b%s)", "[ab]%s", "(?:%sc){2}"]:
        pat("bounds", c % "a{2,1}")
        pat("bounds", c % "(?:a|b){4,3}")
    # Ranges
    def ch(c):
        return chr(c) if chr(c).isalnum() and c < 128 else "\\x%02x" % c
    cs = [0, 1, 31, ord("0"), ord("9"), ord("A"), ord("Z"), ord("a"), ord("b"), ord("z"), 127, 128, 129, 200, 254, 255]
    for i, x in enumerate(cs):
        for y in cs[:i] if deep else [cs[i - 1], cs[0], cs[i // 2]] if i else []:
            if y < x:
                pat("range", "[%s-%s]" % (ch(x), ch(y)))
    for c in ["[c%s]", "[^%s]", "[%sc]", "[\\d%s]", "[a-c%s]", "[^x%s-]", "a[%s]", "[%s]*", "(?=[%s])", "(?<=[%s])", "([%s])", "[c]|[%s]", "[-%s]", "[]|[%s]"]:
        pat("range", c % "z-y")
        pat("range", c % "b-\\x61")
        pat("range", c % "\\x62-a")
    out.append(("range", uses("std::remove_cvref_t<decltype(meta::xpr::range<'b', 'a'>)>")))
    out.append(("range", uses("std::remove_cvref_t<decltype(meta::xpr::range<'\\x80', '\\x7f'>)>")))
    # Groups the result does not have
    for g in range(0, 5):
        p = "".join("(?<n%d>a)?" % i if i % 2 else "(a)?" for i in range(g))
        for n in (g + 1, g + 2, 100):
            out.append(("group %d of %d" % (n, g), "{ using R = %s; auto r = R::match(s); return r.group<%d>().is_empty(); }" % (regex_of(p), n)))
            if n == g + 1:
                for t in ["auto r = R::match(s).as_memory_owner(); return r.group<%d>().is_empty();" % n, "return R::match(s).group<%d>().is_empty();" % n, "auto const r = R::match(s); return r.group<%d>().is_empty();" % n,
                          "auto const r = R::match(s); return std::move(r).get<%d>().is_empty();" % n, "return meta::get_group<%d>(R::match(s)).is_empty();" % n, "auto r = R::search(s); return r.get<%d>().is_empty();" % n, "return R::match(std::string{s}).group<%d>().is_empty();" % n]:
                    out.append(("group %d of %d" % (n, g), "{ using R = %s; %s }" % (regex_of(p), t)))
        for n in ("n0", "n", "n11", "m", "N1", "n5"):
            for t in ["auto r = R::match(s); return r.group<\"%s\">().is_empty();", "return meta::get_group_named<\"%s\">(R::match(s)).is_empty();", "return R::search(std::string{s}).group<\"%s\">().is_empty();"]:
                if g in (0, 2, 4) or deep:
                    out.append(("group named %s" % n, "{ using R = %s; %s }" % (regex_of(p), t % n)))
        out.append(("bindings", "{ using R = %s; auto [%s] = R::match(s); return m.is_empty(); }" % (regex_of(p), ", ".join(["m"] + ["x%d" % i for i in range(g + 1)]))))
        if g:
            out.append(("bindings", "{ using R = %s; auto [%s] = R::match(s); return m.is_empty(); }" % (regex_of(p), ", ".join(["m"] + ["x%d" % i for i in range(g - 1)]))))
    # Syntax errors
    import itertools
    ws = ["".join(t) for n in (1, 2) for t in itertools.product("a()[]{}*+?|\\^1", repeat=n)]
    for w, v in zip(ws, refmodel.verdicts(ws)):
        if not v[0]:
            pat("syntax", w, USES[len(w) % 3])
    for w in ["a{1", "a{1,", "a{1,2", "(?", "(?<", "(?<n", "(?<n>", "(?<n>a", "(?=a", "[a", "[a-", "\\x", "\\x1", "\\xg", "\\k", "\\k<", "\\k<n", "a***", "a{1}{2}", "(?#a)", "(?<1>a)", "(?<>a)", "a)", "(a))", "((a)", "a|*", "(|*)", "^*", "\\b+", "(?i)a", "a{1}{", "[[a"]:
        v = refmodel.verdicts([w])[0]
        if not v[0]:
            for u in USES[:3]:
                pat("syntax", w, u)
    for p, v in zip(every, refmodel.verdicts(every)):
        if v[0] and not v[2]:
            raise Inconclusive("the model finds %s meaningful" % p)
    return out


def good_programs(deep):
    """Bodies that have to compile: the meaningful neighbours of the meaningless ones, and every construct in every use."""
    import itertools
    out = []

    every = []

    def pat(p, use=USES[0], flags=()):
        every.append(p)
        out.append(uses(regex_of(p, flags), use))

    def meaningful(alphabet, n, prefix="", suffix=""):
        ws = [prefix + "".join(t) + suffix for k in range(0, n + 1) for t in itertools.product(alphabet, repeat=k)]
        for w, v in zip(ws, refmodel.verdicts(ws)):
            if v[0] and not v[2]:
                pat(w, USES[len(out) % len(USES)])
    meaningful("a(\\)12", 4 + deep)
    meaningful("012,", 3 + deep, "a{", "}")
    meaningful("abz-^", 3, "[", "]")
    meaningful("a|()*?", 4 + deep)
    meaningful("ab_1", 2, "(?<a>b)(?<ab>b)\\k<", ">")
    meaningful("bBAZdDwWsSRN^$.", 2, "\\", "*")
    for g in (1, 2, 3, 9, 10, 11):
        groups = "".join("(%s)" % "abcdefghijkl"[i] for i in range(g))
        for n in range(1, g + 1):
            pat(groups + "(?:\\%d)" % n)
            pat("\\%d" % n + groups)
    for c in ["%s", "(?:%s)*", "(?>%s)", "(?=%s)", "(?!%s)", "(?<=%s)", "(?<!%s)", "%s{2}", "%s{2,3}?", "%s*+", "(?=a(?!%s))", "(?<=a(?<!b%s))", "(?<=(?=%s))"]:
        for u in USES:
            pat("(a)" + c % "\\1", u)
            pat("(?<n>a)" + c % "\\k<n>", u, ("icase",))
            pat("a" + c % "(?:[a-b]{1,2})", u, ("unroll",))
            pat("a" + c % "(?:(?:a|b{2}){2})", u, ("ungreedy", "multiline"))
    cs = [0, 1, 31, 48, 65, 97, 127, 128, 129, 254, 255]
    for x, y in itertools.combinations_with_replacement(cs, 2):
        pat("[\\x%02x-\\x%02x]" % (x, y))
        pat("[^\\x%02x-\\x%02x]" % (x, y), USES[2], ("icase",))
    for lo, hi in [(0, 0), (0, 1), (1, 1), (2, 3), (9, 10), (10, 10), (10, 100), (99, 100), (100, 100), (2, 12), (3, 20), (255, 256), (999, 1000)]:
        for mode in ("", "?", "+"):
            pat("a{%d,%d}%s" % (lo, hi, mode))
        out.append(uses("decltype(meta::xpr::between<%d, %d>(meta::xpr::chr<'a'>))" % (lo, hi)))
    for g in range(0, 5):
        p = "".join("(?<n%d>a)?" % i if i % 2 else "(a)?" for i in range(g))
        for n in range(g + 1):
            for t in ["auto r = R::match(s); return r.group<%d>().is_empty();", "auto r = R::match(s).as_memory_owner(); return r.group<%d>().is_empty();", "return R::match(s).group<%d>().is_empty();", "auto const r = R::match(s); return r.group<%d>().is_empty();",
                      "auto const r = R::match(s); return std::move(r).get<%d>().is_empty();", "return meta::get_group<%d>(R::match(s)).is_empty();", "auto r = R::search(s); return r.get<%d>().is_empty();", "return R::match(std::string{s}).group<%d>().is_empty();"]:
                out.append("{ using R = %s; %s }" % (regex_of(p), t % n))
            if n % 2 == 0 and n:
                for t in ["auto r = R::match(s); return r.group<\"n%d\">().is_empty();", "return meta::get_group_named<\"n%d\">(R::match(s)).is_empty();", "return R::search(std::string{s}).group<\"n%d\">().is_empty();"]:
                    out.append("{ using R = %s; %s }" % (regex_of(p), t % (n - 1)))
        out.append("{ using R = %s; auto [%s] = R::match(s); return m.is_empty(); }" % (regex_of(p), ", ".join(["m"] + ["x%d" % i for i in range(g)])))
    for p, v in zip(every, refmodel.verdicts(every)):
        if not v[0] or v[2]:
            raise Inconclusive("the model does not find %s meaningful" % p)
    return out


def program_text(head, bodies):
    return head + "#include <string>\n#include <string_view>\n#include <utility>\n" + "".join("bool f%d(std::string_view s) %s\n" % (i, b) for i, b in enumerate(bodies))


def c15(ctx):
    dir = ctx.subdir("c15")
    pch = os.path.join(dir, "pch.hpp")
    with open(pch, "w") as f:
        f.write("#include <mregex.hpp>\n#include <string>\n#include <string_view>\n#include <utility>\n")
    run([CXX] + CXXFLAGS + ["-x", "c++-header", pch, "-o", pch + ".gch"])
    head = '#include "%s"\n' % pch

    def compile_bodies(k, bodies):
        src = os.path.join(dir, "p%06d.cpp" % k)
        with open(src, "w") as f:
            f.write(program_text(head, bodies))
        d = syntax_only(src)
        os.unlink(src)
        return d

    def replay(k, body, d, what):
        return save_replay(ctx.prop, "program-%d" % k, program_text("// g++ -std=c++20 -fsyntax-only -I/repo/include THIS_FILE\n#include <mregex.hpp>\n", [body]), d or "", what)
    good = good_programs(ctx.deep)
    seen = set()
    good = [g for g in good if not (g in seen or seen.add(g))]
    bad = bad_programs(ctx.deep)
    bad = [(w, b) for w, b in bad if not (b in seen or seen.add(b))]
    # Must compile
    n = max(JOBS * 2, len(good) // 40)
    chunks = [c for c in (good[i::n] for i in range(n)) if c]
    for ch, d in zip(chunks, pmap(lambda ic: compile_bodies(ic[0], ic[1]), list(enumerate(chunks)))):
        ctx.count("traces_validated_against_impl", len(ch))
        if d is None or len(ctx.violations) >= 3:
            continue
        alone = pmap(lambda ib: compile_bodies(500000 + ib[0], [ib[1]]), list(enumerate(ch)))
        if not any(alone):
            raise Inconclusive("programs compile one by one but not together: " + first_error(d))
        for b, e in zip(ch, alone):
            if e is not None and len(ctx.violations) < 3:
                if looks_like_resource_failure(e):
                    raise Inconclusive("resources exhausted on %s: %s" % (b, first_error(e)))
                what = "a meaningful program does not compile: %s: %s" % (b, first_error(e))
                ctx.violation(what, replay(len(ctx.violations), b, e, what))
    # Must not compile
    diags = pmap(lambda ib: compile_bodies(100000 + ib[0], [ib[1][1]]), list(enumerate(bad)))
    for (why, b), d in zip(bad, diags):
        ctx.count("traces_validated_against_impl", 1)
        what = "a meaningless program compiles (%s): %s" % (why, b)
        if d is None and (what in ctx.known or len([v for v in ctx.violations if v.what not in ctx.known]) < 5):
            ctx.violation(what, replay(len(ctx.violations), b, d, what))
        elif d is not None and looks_like_resource_failure(d):
            raise Inconclusive("resources exhausted on %s: %s" % (b, first_error(d)))
    ctx.count("states", len(good) + len(bad))
    ctx.count("transitions", len(good) + len(bad))
    ctx.count("programs_that_must_compile", len(good))
    ctx.count("programs_that_must_not_compile", len(bad))
    ctx.bounds += ["%d meaningless programs, each compiled alone: all patterns up to length %d over (a)\\12, all bounds a{..} of up to %d characters over 012, and all sets of up to 3 characters over abz- that the reference parser finds meaningless; references past the last group in 25 contexts and 9 uses; 16 decreasing bounds in 3 modes; decreasing ranges over 16 boundary bytes and 14 contexts; groups a result does not have in 10 kinds of access; rejected strings up to length 2" % (len(bad), 4 + ctx.deep, 3 + ctx.deep),
                   "%d meaningful programs: their neighbours" % len(good)]
    for w, b in bad[::max(1, len(bad) // 5)]:
        ctx.sample({"must_not_compile": b[:160], "why": w})
    for b in good[::max(1, len(good) // 4)]:
        ctx.sample({"must_compile": b[:160]})
