"""Parts of the explored spaces that several checks share: products of quantified bodies, long sequences and alternations, and the crossing
of a set of patterns with the flags, the iterator categories and unusual bytes."""
import re

from ..core import DOTALL, ICASE, M, MULTILINE, P, S, UNGREEDY, UNROLL, words


def uniq(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def needs_bidirectional(p):
    return bool(re.search(r"\\b|\\B|\(\?<[=!]", p))


# Expressions of every kind, ready to be quantified
BODIES = ["a", "[ab]", ".", "(?:ab)", "(?:a|ab)", "(?:ab|a)", "(?:a?)", "(?:a*)", "(?:a?b?)", "(?:a{2}b)", "(?:a*?b)", "(?:a+b?)", "(?>a|ab)", "(?>a*)", "(?:^a|b)", "(?:\\b|a)", "(?:a\\B)", "(?:(?=a)[ab])", "(?:(?!ab).)"]
CAPS = ["(a)", "(a|ab)", "(?:(a)|b)", "(?:(a)|(b))", "(?:(?=(a))[ab])", "(?:[ab](?<=(a)|b))", "((a)b?)", "(a?)", "(?:(a)b)", "(?:(a)(b)?)", "(?>(a)|(b))", "(?:b?(a)\\1?)", "(?:(a?)b?)"]
BASE = ["*", "+", "?", "{2}", "{2,}", "{1,2}", "{2,3}", "{2,4}", "{3}", "{0,2}", "{3,}", "{0,1}", "{1,}", "{0}", "{1}"]
GL = ["", "?"]
MODES = ["", "?", "+"]

BYTES = uniq(words("a\0\xff", 5) + words("a\0\x80\x7f\n", 3))
RAW = [".*a", "[^a]*a", "[^a]+?a", ".{2}a", "(?:.|a)*a", "(?:.a)*", ".*?a", "a.*", "[^]*", "\\W*a", ".a|..a", ".?a.?"]


def product(ex, fam, ops, bodies, quants, modes, contexts, flags=0):
    for b in bodies:
        for q in quants:
            for m in modes:
                for c in contexts:
                    ex.add(c.replace("%s", b + q + m), fam, flags=flags, ops=ops)


def cross(ex, pats, ops, flags=(ICASE, UNGREEDY, UNROLL, MULTILINE | DOTALL), steps=True):
    """Every pattern with every flag (over inputs on which the flag matters), and through iterators that only step."""
    fi = ex.family(uniq(words("abAB", 4) + words("ab", 6)))
    fl_ = ex.family(uniq(words("ab\n", 4) + words("ab", 6)))
    fa = ex.family(words("ab", 7))
    for p in uniq(pats):
        for f in flags:
            ex.add(p, fi if f & ICASE else fl_ if f & (MULTILINE | DOTALL) else fa, flags=f, ops=ops)
        if steps:
            ex.add(p, fa, ops=ops, macro="VH_CASE_B")
            if not needs_bidirectional(p):
                ex.add(p, fa, ops=ops, macro="VH_CASE_F")


def raw_bytes(ex, pats, ops):
    """Inputs with NUL and bytes that are negative as signed characters."""
    f = ex.family(BYTES)
    for p in pats:
        ex.add(p, f, ops=ops)
        ex.add(p, f, ops=ops, macro="VH_CASE_B")


CROSS_NOTE = "%d patterns also under icase, ungreedy, unroll and multiline+dotall (inputs over {a,b,A,B} and {a,b,\\n} up to length 4), and through forward and bidirectional iterators"

# Places in which an expression can stand: before and behind others, in loops, branches, lookarounds in both directions, atomic groups
CONTEXTS = ["a?%sb?", "(?:%s)*b", "(?:%s)+?a", "(?:%s){2}", "(?:b|%s)a", "(?:%s|b)a", "(?:a|%s|b)b", "(?=%s)[ab]*", "(?=%sb)a?b?", "(?!%s)[ab]", "(?!b%s)[ab]", "b?(?<=%s)a?", "[ab]*(?<=a%s)b?", "[ab]*?(?<=%sb)a?", "(?<=^%s)b",
            "[ab]*(?<!a%s)b", "[ab]*(?<!%sb)a?", "(?>%s)b", "(?:%s)?+a", "(?:%s)*+b", "((%s)b)?", "(?=(?<=%s)b).", "(?<=(?=%s)a)b?", "(?<=(?:%s|b)a)", "(?<=b(?:%s)*b)", "(?<=b(?:%s)+?)", "(?<=a(?>%s)b)", "(?:%s|(?<=%s)a)", "(?<=(?<=%s)b)a?"]
CONTEXT_NOTE = "%d expressions in each of %d contexts (loops, branches, lookarounds in both directions, atomic groups)"


def in_contexts(ex, fam, ops, exprs, flags=0, step=1, offset=0, macro=None):
    """Every expression in every context (or every step-th of the pairs)."""
    n = offset
    for x in uniq(exprs):
        whole = x if not re.search(r"\|", x) else "(?:%s)" % x
        for c in CONTEXTS:
            n += 1
            if n % step:
                continue
            if re.search(r"\\[1-9k]", x) and (c.startswith("((") or c.count("%s") > 1):
                continue
            if "(?<" in x and re.search(r"\(\?<\w+>", x) and c.count("%s") > 1:
                continue
            ex.add(c.replace("%s", whole), fam, flags=flags, ops=ops, macro=macro)
