"""C18: the same outcome in a constant expression and at run time."""
import re

from .. import gen
from ..core import CXX, DOTALL, Explorer, ICASE, M, MULTILINE, P, S, UNGREEDY, UNROLL, cstr, words
from .iterators import needs_bidirectional
from .matching import uniq


class ConstantExplorer(Explorer):
    cxx_extra = ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000", "-fconstexpr-depth=4096", "-ftemplate-depth=4096"]

    def prelude(self):
        out = ["namespace vhf {"]
        for i, fam in enumerate(self.families):
            out.append("inline constexpr std::array<std::string_view, %d> fam%d{%s};" % (len(fam), i, ", ".join("std::string_view{%s, %d}" % (cstr(x), len(x)) for x in fam)))
        out.append("}")
        for i in range(len(self.families)):
            for k in range(8):
                out.append("#define VH_CX%dF%d(...) VH_CX(%du, vhf::fam%d, __VA_ARGS__)" % (k, i, k, i))
        return "\n".join(out) + "\n"

    def tu_text(self, cases):
        head, rest = super().tu_text(cases).split("\n", 1)
        return head + "\n" + self.prelude() + rest

    def replay_text(self, c, op, inp, line):
        return """// Replays the execution: g++ -std=c++20 -fconstexpr-ops-limit=4000000000 -I/repo/include THIS_FILE && ./a.out   (expected outcome: see the .txt beside it)
#include <mregex.hpp>
#include <cstdio>
#include <string_view>
#include <vector>
using R = %s;
static constexpr std::string_view text{%s, %d};
template<typename Result> constexpr long code(Result const &r)
{
    long h = r.matched();
    r.for_each_group([&](auto const &g) { h = h * 31 + (g.length() ? (g.begin() - text.data() + 1) * 1000 + static_cast<long>(g.length()) : 0); });
    return h;
}
static constexpr long run() { return code(R::%s(text.data(), text.data() + text.size())); }
static constexpr long all() { long h = 0; for (auto const &r : R::find_all(text)) h = h * 7 + code(r); for (auto const &r : R::tokenize(text)) h = h * 7 + code(r); return h; }
int main()
{
    constexpr long a = run(), b = all();
    long volatile x = run(), y = all();
    std::printf("compile time %%ld %%ld, run time %%ld %%ld\\n", a, b, x, y);
    return !(a == x && b == y);
}
""" % (c.type(), cstr(inp), len(inp), self.opnames[op])


def patterns(deep):
    out = [(p, 0) for p in gen.canon_ab(gen.texts(gen.upto(1 if not deep else 2, ["a", "b"], ["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{2,}", "{1,2}?", "*+", "?+", "{2}+"], unary=[gen.cap, gen.atomic] if hasattr(gen, "atomic") else [gen.cap])))]
    out += [(p, 0) for p in ["", "a|b|ab", "(a|b)*b", "(?:ab|a)(?:bc|c)?", "(a)|(b)", "((a)|b)+", "(?:a*)*", "(?:a|b)*?b", "[ab]{2,3}", "(?:ab){1,2}", "(?:ab)*+a?", "[^a]b?", "a[ab]b", ".{2}", ".*b", "(.)(.)", "(a*)(a|b)", "(?<n>a)(?<m>b)?",
                             "(a)\\1", "(a|b)\\1", "(.*)\\1", "(?<n>.)\\k<n>", "(?:(a)|b\\1)*", "(?>a*)b", "(?>a|ab)b?", "(?>(a)|b)+", "a*+b", "(?:a|b)++", "(a)*+b",
                             "(?=a)", "(?=ab)a", "(?!b).", "a(?!b)", "(?=(a))a", "(?<=a)b", "(?<!a)b", "(?<=a*)b", "(?<=(a))b", "(?<=ab|b)a", "(?<=(?=b).)", "(?<=^a)b", "(?=.*b)a", "(?<=(a)\\1)b", "(?!(a)b)a",
                             "^a", "a$", "^", "$", "\\Aa", "b\\Z", "\\ba", "a\\b", "\\Ba", "\\b", "\\B", "^a*$", "[]a|b", "[^]", "(?:)", "()", "a{0}b", "a{3}", "a{0,1}b"]]
    for p in ["^.", ".$", "^$", "^", "$", ".", "\\n^a", "a$\\n?", "\\Aa", "a\\Z", "(?<=^a)\\n", "[^a]", "\\R", "\\s", "\\N+", "\\w\\b"]:
        for fl in (0, MULTILINE, DOTALL, MULTILINE | DOTALL):
            if fl in (0, MULTILINE) or "." in p or deep:
                out.append((p, fl))
    for p in ["a", "aB", "[a-b]+", "[^A]", "(a)\\1", "(?<=A)b", "A{2}", "(?:Ab|a)*", "\\x41"]:
        out += [(p, ICASE), (p, ICASE | UNROLL)]
    for p in ["a*", "a+b?", "(?:a|b)*", "(a)??b", "a{1,2}", "a*+", "(?:ab)*?"]:
        out += [(p, UNGREEDY), (p, UNGREEDY | UNROLL)]
    for p in ["a{2}", "(?:ab){2}", "(?:a|b){2,3}", "a{2,}b", "(a){2}", "[ab]{3}", "a{2}+", "(?:a?){2}"]:
        out.append((p, UNROLL))
    if deep:
        for p in ["[\\x00-\\x7f]", "[\\x80-\\xff]", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", ".", "[^a-z]", "\\xff", "[^\\xff]"]:
            out += [(p, 0), (p, ICASE), (p, DOTALL)]
    return uniq(out)


def c18(ctx):
    def fill(ex, deep):
        ab = ex.family(words("ab", 4 if not deep else 6))
        long = ex.family(uniq(["a" * 12, "ab" * 6, "a" * 7 + "b", "b" + "a" * 9, "aabb" * 3] + (["ab" * 20, "a" * 40 + "b"] if deep else [])))
        lines = ex.family(words("ab\n", 3 if not deep else 4) + ["a\nb", "\n\na", "a\r\nb"])
        case = ex.family(words("aAb", 3 if not deep else 4) + ["AaB", "ABab"])
        byte = ex.family([bytes([c]) for c in range(0, 256, 1)])
        n = 0
        for i, (p, fl) in enumerate(patterns(deep)):
            fam = lines if re.search(r"\\[nRNsSZA]|\^|\$|\\[bBwW]", p.replace("[^", "[")) or fl & (MULTILINE | DOTALL) else case if fl & ICASE else ab
            if re.search(r"\\x[8f0]|\\[wWdD]", p) and len(p) < 13 and deep:
                fam = byte
            kinds = (0 if needs_bidirectional(p) else 1) | 6
            ops = M | P | S
            ex.add(p, fam, flags=fl, ops=ops, macro="VH_CX%dF%d" % (kinds, fam))
            n += 1
        for p in ["a*", "(?:ab)*", "(a|b)*", "a*b", "(a*)(b*)", "[ab]*?b", "(?:a|b)*+", "(a+)b?\\1", "(?<=a*)b", ".*", "(?:a?b?)*"]:
            ex.add(p, long, ops=M | S, macro="VH_CX%dF%d" % (4 if needs_bidirectional(p) else 5, long))
        return ["%d patterns with every construct and flag; all inputs over {a,b} up to length %d, over line breaks and mixed case up to length %d, 5 longer ones%s" % (n, 4 if not deep else 6, 3 if not deep else 4, ", all bytes" if deep else ""),
                "every execution evaluated by the compiler in a constant expression, with all constexpr accessors and forward, bidirectional and random-access iterators, and again at run time; generators and ranges likewise, beyond their end"]
    ctx.explore("space", fill, explorer=ConstantExplorer, header="impl_cx.hpp", per_tu=8, timeout=60, selfcheck=False)
