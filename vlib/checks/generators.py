"""C12: every sequence of operations on generators and ranges."""
import itertools

from .. import gen
from ..core import Explorer, ICASE, MULTILINE, DOTALL, UNGREEDY, UNROLL, cstr, words
from .matching import uniq


class GenExplorer(Explorer):
    driver = "gendriver.cpp"
    opnames = ["tokenizer", "searcher", "tokenize", "find_all"]

    def replay_text(self, c, op, inp, line):
        trace = line.split(" | ", 1)[1] if " | " in line else ""
        if "result " in trace or not trace.strip():
            trace = "for (int i = 0; i < sizeof text + 3; ++i) show(x0.next());" if op < 2 else "for (auto &r : x0) show(r);"
        return """// Replays the execution: g++ -std=c++20 -I/repo/include THIS_FILE && ./a.out   (expected outcome: see the .txt beside it)
#include <mregex.hpp>
#include <cstdio>
using R = %s;
static char const text[] = %s;
static auto make() { return R::%s(text + 0, text + sizeof text - 1); }
template<typename X> void show(X const &r)
{
    std::printf("matched=%%d", (int) r.matched());
    r.for_each_group([](auto const &g) { if (g.is_empty()) std::printf(" empty"); else std::printf(" [%%d,%%d)", int(g.begin() - text), int(g.end() - text)); });
    std::printf("\\n");
}
int main()
{
    auto x0 = make(), x1 = make();
%s    %s
%s}
""" % (c.type(), cstr(inp), self.opnames[op], "    auto i0 = x0.begin(), i1 = x1.begin();\n" if op >= 2 else "", trace,
            '    std::printf("ended: %d %d\\n", i0 == x0.end(), i1 == x1.end());\n' if op >= 2 else '    std::printf("active: %d %d\\n", x0.active(), x1.active());\n')


def patterns(deep):
    out = []
    out += [(p, 0) for p in gen.canon_ab(gen.texts(gen.upto(1 if not deep else 2, ["a", "b"], ["*", "+", "?", "*?", "+?", "{2}"], unary=[gen.cap])))]
    out += [(p, 0) for p in ["a|b", "ab|a", "a(b)?", "(a)|(b)", "(a)(b)?", "((a)|b)", "a*|b", "a*?b", "a*b?", "(?:ab)*", "(?:ab)+?", "[ab]", ".", "", "(?:)", "a?b?", "(?:a|b){2}", "(a|b){1,2}?", "(a+)(b*)", "(?:(a)|(b))+"]]
    # Results depend on what surrounds the current position
    out += [(p, 0) for p in ["^a", "a$", "^", "$", "\\Aa", "a\\Z", "^a|b", "a|^b", "b$|a", "\\ba", "\\Ba", "\\b", "a\\b", "\\B.", "(?<=a)b", "(?<!a)b", "(?<=a).", "(?<=^a)b|a", "(?<=(a))(b)|a", "(?=b).", "a(?=b)", "(?!a).", "a(?!b)|b", "(?=a)",
                             "(?<=a)", "(?<!^)b|a", "(?<=ab)a|.", "(?<=^.*)b|a"]]
    out += [(p, 0) for p in ["(a)\\1", "(.)\\1?", "(a|b)\\1*", "(?<n>a)?b\\k<n>", "(?:(a)|b\\1)", "(?>a*)b?", "(?>a|ab)", "a*+", "a++b?", "(?:a|b)*+"]]
    # Empty and non-empty matches at and after the current position, with any number of groups
    for x in ["(?=b)", "\\b", "$", "(?<=a)", "(?!a)", "^", "b*", "(?=ba)", "\\B", "(?<=ab)", "a", "ab|b", "a*b", "[ab]", "(?<=a)b", "b?$"]:
        out += [(t % x, 0) for t in ["(%s)", "((%s))", "(%s)(c)?", "(?:(?<n>%s))(?<m>c)?(?:d|(e))?", "(?=(.)?)(?:%s)(a)?", "(%s)(b)?()()()()()()()()"]]
        out.append(("(?:%s)\\n?" % x, MULTILINE))
    for fl in (MULTILINE, MULTILINE | DOTALL):
        out += [(p, fl) for p in ["^.", "^a", ".$", "^", "$", "^.*$", "a$", "\\n|^a", "^\\w*\\n?", ".*", "^(a)?\\n"]]
    out += [("a", ICASE), ("aB?", ICASE), ("a*", UNGREEDY), ("a+b?", UNGREEDY), ("a{2}b?", UNROLL), ("(?:a|b){1,2}", UNROLL), ("(a){2}", UNROLL)]
    return uniq(out)


def c12(ctx):
    def fill(ex, deep):
        ab = ex.family(words("ab", 5 if not deep else 7))
        lines = ex.family(uniq(words("ab\n", 4) + ["a\nb\na\n", "\n\n\n\n", "ab\nab\nab"]))
        case = ex.family(words("aAB", 4))
        for p, fl in patterns(deep):
            f = lines if fl & MULTILINE else case if fl & ICASE else ab
            ex.add(p, f, flags=fl, macro="VH_GEN")
        longs = ex.family(uniq([u * n + t for u in ("a", "ab", "aab", "abc") for n in (5, 20, 60) for t in ("", "c", "b")]))
        for p in ["a", "a|b", "ab", "a*b", "(a)(b)?", "[ab]", "(?<=a)b|a", "a+?", "c?[ab]", "\\w"]:
            ex.add(p, longs, macro="VH_GEN")
        vast = ex.family([u * n + t for u, n in (("a", 256), ("a", 257), ("ab", 300), ("a", 4097), ("ab", 2500), ("a\n", 130)) for t in ("", "c")])
        for p in ["a", "a|b", "[ab]", "(a)(b)?", "\\w", "(?<=a)b|a", "ab?", "^a|b", "a\\n?"]:
            ex.add(p, vast, macro="VH_GEN")
        raw = ex.family(words("a\0\xff", 4))
        for p in [".", "a", "[^a]", ".a?", "\\0", "\\xff*", "(a)|.", "\\W+"]:
            ex.add(p, raw, macro="VH_GEN")
        depth, dlen = (5, 4) if not deep else (6, 4)
        ex.driver_args = ["--depth", str(depth), "--dfs-length", str(dlen)]
        return ["%d patterns; all inputs over {a,b} up to length %d (and over line breaks and mixed case up to length 4), some up to length 5000" % (len(ex.cases), 5 if not deep else 7),
                "for every input up to length %d, every sequence of up to %d operations (advance, call, copy, move, assign, restart; pre- and post-increment, begin) on two live generators and two live ranges, each state observed through every accessor" % (dlen, depth),
                "9 ways of draining each generator and range to the end and beyond"]
    ctx.explore("space", fill, explorer=GenExplorer, header="impl_gen.hpp", per_tu=6, timeout=60)
