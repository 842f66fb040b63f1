"""C11: the same results through every category of iterator and every kind of range, with every iterator step monitored."""
import itertools
import re

from .. import gen
from ..core import DOTALL, ICASE, M, MULTILINE, P, S, UNGREEDY, UNROLL, near_words, words
from .matching import uniq

REPLAY_HEAD = ""


def needs_bidirectional(p):
    return bool(re.search(r"\\b|\\B|\(\?<[=!]", p))


def patterns(deep):
    qs = ["*", "+", "?", "*?", "+?", "{2}", "{1,2}", "{2,}", "{2,}?", "*+", "{1,2}+", "{2}+"]
    bodies = ["a", "(?:ab)", "(a)", "(?:a|ab)", "."] + (["[ab]", "(?:a|b)", "(?:ab?)", "(a|ab)"] if deep else [])
    out = [(b, 0) for b in ["a", "ab", "aba", "abab", "a|b", "ab|a", "a|ab|abb", "[ab]a", "", ".", "..", "(a)(b)", "a[^a]b"]]
    for b in bodies:
        for q in qs:
            out.append((b + q, 0))
            if b != "(a)" or deep:
                out.append((b + q + "b", 0))
            if q[0] == "{" or deep:
                out += [("a?" + b + q + "ab", UNROLL)]
            if deep and b in ("a", "(?:ab)", "(?:a|ab)", "."):
                out.append(("a" + b + q + "[ab]", 0))
    for q in ["{3}", "{4}", "{0,3}", "{3,}", "{1,4}?", "{0,4}+", "{8}"]:
        for b in ["a", "(?:ab)", "(?:a|ab)"] + (["(?:aba)", "(?:[ab]b?)", "(?:a\\n?)"] if deep else []):
            out += [(b + q + "b?", 0), (b + q + "b?", UNROLL)]
            if deep:
                out.append(("(?=" + b + q + ")a*", 0))
    looks = ["a", "ab", "a*b", "a|ba", "(a)b?", "[ab]{2}", "^a", "b$", ".", "(?:ab)+", "\\Bb"]
    for k in ["=", "!", "<=", "<!"]:
        for x in looks:
            out += [("(?:[ab](?%s%s))+" % (k, x), 0)]
            if deep:
                out += [("(?%s%s)" % (k, x), 0), ("[ab]*(?%s%s)[ab]?" % (k, x), 0)]
    for x, y in itertools.product(["<=", "<!", "=", "!"], repeat=2):
        out += [("b(?%sa(?%sb)b?)" % (x, y), 0), ("(?%s(?%sa)b?)b?" % (x, y), 0)]
    for p in ["^a", "a$", "^", "$", "^$", "\\Aa", "a\\Z", "\\ba", "a\\b", "\\Ba", "a\\B", "\\b", "\\B", "\\b\\w+\\b", "^\\w*$", "(?:^a|b$)+", "\\n^a", "a$\\n", "[^a]^", "$.", "^.|.$", ".*$", "^.*", "\\Z", "\\A"]:
        out += [(p, 0), (p, MULTILINE)] + ([(p, MULTILINE | DOTALL)] if deep else [])
    for p in ["(a)\\1", "(ab)\\1", "(.*)\\1", "(a|b)\\1*", "([ab]*)b\\1", "(?:(a)|b\\1)*", "(a)?\\1b", "(?<n>[ab]+)\\k<n>", "(.)(.)\\2\\1", "(a+)\\1$", "(?=(.*))\\1", "(?<=(.)\\1)b", "(.)(?<=\\1)", "(ab)(?<=\\1)"]:
        out += [(p, 0), (p, ICASE)]
    for p in ["(?>a*)b", "(?>a|ab)b", "(?>a*?)b", "(?>(a)|b)*", "a(?>ab|a)b", "(?>[ab]*)", "(?>a?b)+a", "(?:a*+b)*", "(?>a(?>b?)a)*"]:
        out += [(p, 0), (p, UNGREEDY)]
    for p in ["aB", "[a-b]+", "A*b", "(?:Ab|a)*", "\\x61b", "[^A]+"]:
        out += [(p, ICASE), (p, ICASE | UNROLL)]
    for p in ["\\w", "\\W+", "\\d?a", "\\s", "\\R", "[\\n\\r]*", "\\N*", "[^\\n]+", "[\\x00-\\x7f]+", "[\\x80-\\xff]", "[^\\xff]", "\\xff"]:
        out.append((p, 0))
    if deep:
        out += [(t, 0) for t in gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], ["*", "+?", "{2}", "{1,2}", "*+"], unary=[gen.cap])))]
        out += [(t, UNROLL) for t in gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], ["{2}", "{1,2}", "{3,}"])))]
    return uniq(out)


AB = words("ab", 6)
LINES = uniq(words("ab\n", 4) + words("a\r\n", 3) + words("a_ \n", 3) + ["ab\nab\nab", "\n\n\n\n"])
LONG = uniq(near_words("a", 14, "b") + near_words("ab", 12, "ab"))
BYTES = uniq([bytes([c]) for c in range(256)] + [b"a" + bytes([c]) for c in (0, 9, 10, 13, 127, 128, 200, 255)] + [b"", b"\xff\xff", b"\x80a"])


def c11(ex, deep):
    fab = ex.family(uniq(AB + LONG))
    fln = ex.family(LINES)
    fic = ex.family(words("abAB", 4))
    fby = ex.family(BYTES)
    pats = patterns(deep)

    def fam(p, fl):
        if fl & ICASE:
            return fic
        if "\\x" in p or re.search(r"\\[wWdsRN]", p) and "\\b" not in p:
            return fby
        if re.search(r"\^|\$|\\[AZbBn]", p.replace("[^", "")):
            return fln
        return fab
    for i, (p, fl) in enumerate(pats):
        bidi = needs_bidirectional(p)
        gens = i % 4 == 0 or deep
        macro = {(False, True): "VH_I15", (True, True): "VH_I14", (False, False): "VH_I7", (True, False): "VH_I6"}[(bidi, gens)]
        ex.add(p, fam(p, fl), flags=fl, ops=M | P | S if deep else M | S if gens else (M | P, M | S, P | S)[i % 3], macro=macro)
    # Every count: fixed and bounded repetitions, sequences, captures of n characters, on inputs around n, with both ends monitored
    counts = list(range(2, 18)) + [24, 31, 32, 33, 48, 63, 64, 65] + ([100, 127, 128, 129, 200, 255, 256, 257] if deep else [])
    for n in counts:
        near = uniq([u * k + t for k in sorted({0, 1, n // 2, n - 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1}) if k >= 0 for u in "a" for t in ("", "b", "ba")])
        f = ex.family(near)
        for p, fl in [("a{%d}" % n, 0), ("a{%d}" % n, UNROLL), ("[ab]{%d}b" % n, 0), ("a{%d,}b?" % n, 0), ("(?:a|b){1,%d}b" % n, 0), ("a{%d}+b?" % n, 0), ("a{1,%d}?b" % n, 0), ("(?:a|ba){%d}" % n if n < 34 else "a{%d}" % n, 0), ("a" * n, 0), ("b?" + "a" * n, 0), ("(?=%s)a" % ("a" * n), 0),
                      ("(a{%d})b?\\1" % n, 0), ("(a{1,%d})\\1" % n if n < 34 else "(a{%d})\\1+" % n, 0), ("(?<=a{%d})b" % n, 0), ("b?(?<!%s)." % ("a" * n), 0), ("(a{%d}).*(?<=\\1b?)" % n, 0), ("b?(?:%s|a)b" % ("a" * n), 0)]:
            ex.add(p, f, flags=fl, ops=M if "?<" not in p and n % 2 else S, macro="VH_I2" if needs_bidirectional(p) else "VH_I3")
    fnul = ex.family(uniq(words("a\0", 4) + words("ab\0\xff", 3) + ["ab\0ab", "\0\0ab", "a" * 20 + "\0" + "a" * 20]))
    for p in ["a", "a|b", "[^b]", ".", "a*", "(a)(b)?", "\\0", "[^a]a", "ab?", "a$", "(.)\\1", "a{2}"] + (["\\ba", "(?<=\\0)a", "(?<!a)."] if deep else ["(?<=\\0)a"]):
        ex.add(p, fnul, ops=M | P | S if deep else S, macro="VH_R0" if needs_bidirectional(p) else "VH_R1")
    some = pats if deep else [x for i, x in enumerate(pats) if i % 18 == 0 or "\\xff" in x[0]]
    for p, fl in some:
        ex.add(p, fam(p, fl), flags=fl, ops=M | P | S, macro="VH_R0" if needs_bidirectional(p) else "VH_R1")
    return ["%d patterns with every construct, through forward (computed values), bidirectional, random-access iterators whose every dereference, step, comparison and difference is checked, through pointers next to inaccessible pages, and through generators over them" % len(pats),
            "17 patterns for each of %d counts up to %d (repetitions, sequences, captures of n characters) through monitored forward and bidirectional iterators, on inputs of every length around n and 2n" % (len(counts), counts[-1]),
            "%d patterns through 17 kinds of ranges, value categories and sub-ranges, matched and iterated, with and without NUL characters" % (len(some) + 13),
            "all inputs over {a,b} up to length 6, all near-periodic ones up to length 14; over line breaks and word characters up to length 4; all bytes"]
