"""Spaces of the checks that compare the library with the reference machine on (pattern, operation, input) triples: C01 - C10, C14."""
import itertools

from .. import gen
from ..core import (DOTALL, ICASE, M, MULTILINE, P, S, UNGREEDY, UNROLL, near_words, words)
from .spaces import BASE, BODIES, CAPS, CONTEXT_NOTE, CONTEXTS, CROSS_NOTE, GL, MODES, RAW, cross, in_contexts, product, raw_bytes

Q3 = ["*", "+", "?"]
Q6 = ["*", "+", "?", "*?", "+?", "??"]
QB = ["{2}", "{1,2}", "{2,}", "{0,2}"]
Q12 = Q6 + ["{2}", "{1,2}", "{2,}", "{2}?", "{1,2}?", "{2,}?"]
PQ = ["*+", "++", "?+", "{2}+", "{1,2}+", "{2,}+"]
LENGTHS = list(range(0, 36)) + [63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]


def uniq(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


AB8 = words("ab", 8)
AB7 = words("ab", 7)
AB6 = words("ab", 6)
ABC5 = words("abc", 5)
STD = uniq(AB8 + ABC5)


def stretched(unit, tails=("",), lengths=LENGTHS, heads=("",)):
    return uniq(h + unit * n + t for n in lengths for h in heads for t in tails)


def deviations(w, devs="ab~"):
    """w, w with one character replaced, dropped or inserted, and all prefixes of w."""
    out = [w]
    for i in range(len(w)):
        out.append(w[:i])
        out.append(w[:i] + w[i + 1:])
        for d in devs:
            out.append(w[:i] + d + w[i + 1:])
    for d in devs:
        out += [w + d, d + w]
    return uniq(out)


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"



def mixed_words(n, turn=0):
    """n different words over {a,b}, many of them prefixes or suffixes of others, in an order that is neither sorted nor by length."""
    pool = ["ab", "a", "abb", "b", "ba", "aab", "aba", "bb", "aa", "abab", "bab", "baa", "abba", "bba", "aaab", "babb"]
    pool = pool[turn:] + pool[:turn]
    return pool[:n]


def sequence(n, turn=0):
    """n elements of every kind in a row."""
    pool = ["a", "[ab]", "b?", "(?:a|ab)", "b", "a*", ".", "(?:ab)?", "a??", "(?:b|ba)", "[^c]", "b*?", "(?:a)", "a{1,2}"]
    return [pool[(turn + i) % len(pool)] for i in range(n)]


# ---------------------------------------------------------------------------------------------------------------- C01
def c01(ex, deep):
    fam = ex.family(STD)
    pats = gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], Q12)))
    pats += gen.canon_ab(gen.texts(gen.upto(3, ["a", "b"], Q3 if not deep else Q6)))
    if deep:
        pats += gen.canon_ab(gen.texts(gen.upto(3, ["a", "b"], Q12)))
    # Two quantified elements under a third quantifier, and the same behind a first alternative
    qs = ["*", "+", "?", "*?", "+?", "{2}", "{1,2}"]
    for q1, q2, q3 in itertools.product(qs, qs, qs if deep else ["*", "+?", "?", "{2}", "{1,2}"]):
        pats.append("(?:a%sb%s)%s" % (q1, q2, q3))
    for q1, q2, q3 in itertools.product(Q3, Q3, ["*", "+", "{2,}", "{1,2}?"]):
        pats.append("(?:a%s|ab%s)%sb" % (q1, q2, q3))
        pats.append("(?:(?:a|ab)%s(?:ba|a)%s)%s" % (q1, q2, q3))
    # Empty elements, sets, wildcards
    pats += gen.texts(gen.upto(2, ["a", "(?:)", "[ab]", "."], ["*", "+?", "{2}"]))
    for p in uniq(pats):
        ex.add(p, fam, ops=M)

    for n in list(range(1, 25)) + [32, 40, 48, 64]:
        w = "".join(LETTERS[(i * 7) % 23] for i in range(n))
        ex.add(w, ex.family(deviations(w)), ops=M)
        # Sequences that mix trivially matchable elements with others
        w2 = "".join("[%s]" % c if i % 3 == 1 else "%s?" % c if i % 5 == 4 else c for i, c in enumerate(w))
        ex.add(w2, ex.family(uniq(deviations(w) + ["".join(c for i, c in enumerate(w) if not (i % 3 != 1 and i % 5 == 4))])), ops=M)
    for n in range(2, 25):
        alts = LETTERS[:n]
        ex.add("|".join(alts), ex.family(uniq(list(LETTERS[:28]) + ["", "aa", "ab"])), ops=M)
        ws = ["a" * i + "b" for i in range(n)]
        ex.add("|".join(ws), ex.family(uniq(sum((deviations(w) for w in ws), []))), ops=M)
        ex.add("(?:" + "|".join(ws[:12]) + ")*", ex.family(AB7), ops=M)
        ex.add("(?:" * n + "a" + ")" * n + "b", fam, ops=M)
        ex.add("(?:" * min(n, 4) + "a" + ")*" * min(n, 4) + "b", ex.family(AB6), ops=M)
        if n <= 12:
            ex.add("a?" * n + "b", ex.family(stretched("a", ("", "b", "ab"), range(0, n + 3))), ops=M)
        if n <= 16:
            ex.add("".join("(?:%s|%s)" % ("ab", "a") for _ in range(n)), ex.family(near_words("ab", n + 2, "ab")), ops=M)
    long_tails = ("", "b", "c", "ab", "ba")
    for p in ["a*", "a+", "a{2,}", "[ab]*", "[ab]+b", ".*", ".*b", ".*?b", "a*b", "a*?b", "[^b]*b", "\\w*", "\\w+\\w", "a*a", ".*.", "(?:a)*b?"]:
        ex.add(p, ex.family(stretched("a", long_tails)), ops=M)
        ex.add(p, ex.family(stretched("ab", long_tails)), ops=M)
        ex.add(p, ex.family(stretched("a", ("", "b"), [4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537])), ops=M)
    for p in ["(?:ab)*", "(?:a|b)*", "(?:a|b)*?b", "(?:ab|ba)*", "(?:ab?)*c", "(?:a|ab)*c", "(?:ab+c?)*", "(?:a*b)*", "(?:a+b+)*"]:
        ex.add(p, ex.family(stretched("ab", ("", "a", "b", "c", "cab"))), ops=M)
    # Loops over sequences and alternations of many elements, any of which can be empty
    nullable = ["a?", "b*", "(?:)", "(?=a|b|c)", "b{0,2}", "(?:a|b?)", "\\B", "c??", "(a?)", "(?!c)"]
    f5 = ex.family(uniq(AB6 + words("abc", 4)))
    for n in range(2, 9 if not deep else 13):
        for k in range(len(nullable) if n < 5 or deep else 3):
            seq = "".join(nullable[(k + i * (1 + k % 3)) % len(nullable)] for i in range(n))
            for q in ["*", "+", "{2,}", "*?", "{2}", "{1,3}"] if n < 7 else ["*", "+"]:
                ex.add("(?:%s)%s" % (seq, q), f5, ops=M)
            ex.add("(?:%s)*b" % seq, f5, ops=M)
        for i in range(n):
            alts = ["a" * (1 + j % 2) + "b" * (j % 3) for j in range(n)]
            alts[i] = "c?"
            for q in ["*", "+", "{2,}", "{2}"]:
                ex.add("(?:%s)%sb?" % ("|".join(alts), q), f5, ops=M)
            els = ["[ab]", "a?", "b", "(?:a|b)"] * 4
            els[i] = "(?:a|ab)*"
            ex.add("".join(els[:n]), f5, ops=M)
            ex.add("(?:%s)*" % "".join(els[:n]), f5, ops=M)
    # Unbounded loops over every pair of elements that can match nothing
    empties = ["(?:)", "a?", "a*", "(a?)", "(?=a)", "(?!a)", "(?<=a)", "(?<!ab)", "^", "$", "\\b", "\\B", "\\A", "\\Z", "(?>a?)", "a{0,2}", "a??", "b*+", "(?:a?){2}", "(?:(b)|a?)", "[]?", "(?:b|a*)", "(?:(?=b)|a)", "\\1"]
    f6 = ex.family(uniq(AB6 + words("abc", 3)))
    for i, x in enumerate(empties):
        for j, y in enumerate(empties):
            if "\\1" in x + y and "(a?)" not in x + y and "(b)" not in x + y:
                y = y + "(b)?"
            q = ["*", "+", "{2,}", "*?", "+?", "{2,}?", "*+", "++"]
            ex.add("(?:%s%s)%s%s" % (x, y, q[(i + 3 * j) % 8], "b" if (i + j) % 3 else ""), f6, ops=M)
            ex.add("(?:%s|%s)%s%s" % (x, y, q[(3 * i + j) % 8], "b?" if (i + j) % 3 else ""), f6, ops=M)
            if deep:
                for k in q:
                    ex.add("(?:%s%sb?)%s[ab]*" % (x, y, k), f6, ops=M)
    product(ex, fam, M, CAPS, ["*", "+", "{2}", "{1,2}", "{2,}"], GL, ["%s", "b?%sa"])
    core = [c.replace("%s", b + q) for b in BODIES for q in ["*", "{1,2}", "+?"] for c in ("%sb?",)]
    cross(ex, core, M)
    product(ex, fam, M, BODIES, BASE, GL, ["%s", "a?%sb"])
    inner = ["a*", "a*?", "a?b", "ab|a", "a|ab", "a*|b", "(?:ab)*", "(?:a|b)+?", "a{1,2}", "b|a*|ab", "(a)|b", "a+b?", "[ab]*?b", "^a|b", "\\b|a", "(?=a)|b", "(?:a?b?)*", "(?:a|b?)+", "a??b*", "a{2,}?"]
    in_contexts(ex, f6, M | S, inner)
    raw_bytes(ex, RAW, M)
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core), "%d bodies x %d quantifiers x greedy/lazy x 2 contexts" % (len(BODIES), len(BASE)), "loops over sequences of up to 8 nullable elements and alternations of up to 8 branches with an empty one, unbounded loops over every pair of 24 elements that can match nothing",
            "inputs with NUL and high bytes up to length 5",
            "every tree of at most 2 operators over {a,b}, concatenation, alternation and 12 greedy/lazy quantifiers; at most 3 operators with %s" %
            ("12 quantifiers" if deep else "3 quantifiers"),
            "all inputs over {a,b} up to length 8 and {a,b,c} up to length 5",
            "sequences and alternations of up to 64 and 24 elements, nesting to depth 24, inputs up to 65537 characters"]


# ---------------------------------------------------------------------------------------------------------------- C02
def c02(ex, deep):
    fam = ex.family(STD)
    ops = P | S
    pats = gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], Q12)))
    pats += gen.canon_ab(gen.texts(gen.upto(3, ["a", "b"], ["*", "+?"] if not deep else Q6)))
    ws = ["a", "b", "ab", "ba", "aab", "aba"]
    for x, y in itertools.permutations(ws, 2):
        a = x + "|" + y
        pats += [a, "(?:%s)b" % a, "(?:%s)+" % a, "(?:%s)*?b" % a, "(?:%s){1,2}?a" % a, "a(?:%s)" % a]
    for x, y, z in itertools.permutations(["a", "ab", "b", "ba", "abb"] if not deep else ws, 3):
        a = "|".join((x, y, z))
        pats += [a, "(?:%s)+b" % a]
    qs = Q12 + ["{0,2}", "{0,2}?"]
    for q1, q2 in itertools.product(qs, qs):
        pats += ["a%sb%s" % (q1, q2), "[ab]%sa%s" % (q1, q2)]
        if deep:
            pats += [".%sb%s." % (q1, q2), "(?:a%s|b)%s" % (q1, q2), "a%sa%s" % (q1, q2)]
    for q1, q2, q3 in itertools.product(["*", "*?", "?", "??", "{1,2}?"], repeat=3):
        pats.append("a%sb%sa%s" % (q1, q2, q3))
    pats += gen.texts(gen.upto(2, ["a", "(?:)", "."], ["*?", "+", "??"]))
    for p in uniq(pats):
        ex.add(p, fam, ops=ops)
    # Matches at every position of long inputs, several candidates, none at all
    far = uniq(["c" * n + t + "c" * k + u for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]
                for t in ("", "ab", "aab", "b") for k in (0, 1, 3) for u in ("", "ab", "a")])
    for p in ["ab", "a*b", "a+b?", "a??b", "a+?", "a*?", "b|ab", "ab|b", "(?:ab)*?c", "[ab]+", "a.*b", "a.*?b", "a[^b]*b", "(?:a|b){2}", "(?:a|b){2,}?", "$", "a?$", "(?=a)", "(?<=a)b",
              "a{2}b", "c*ab", "c*?ab", "c{3}a", ".{2}b", "(?:c|a)+b", "(?:c+|a)b"]:
        ex.add(p, ex.family(far), ops=ops)
    for n in range(2, 17):
        alts = [("a" * i) for i in range(1, n + 1)]
        ins = ex.family(stretched("a", ("", "b"), range(0, n + 3), ("", "b")))
        ex.add("|".join(alts), ins, ops=ops)
        ex.add("|".join(reversed(alts)), ins, ops=ops)
        ex.add("|".join(alts[::2] + alts[1::2]) + "b", ins, ops=ops)
        ex.add("b?(?:" + "|".join(reversed(alts)) + ")+?", ins, ops=ops)
    # Every number of branches and of elements
    for n in range(2, 17):
        for turn in (0, 5, 11):
            alt = "|".join(mixed_words(n, turn))
            ex.add(alt, fam, ops=ops)
            ex.add("(?:%s)+?b" % alt, fam, ops=P)
            ex.add("a(?:%s)b" % alt, fam, ops=S)
            if n <= 14:
                ex.add("".join(sequence(n, turn)), ex.family(uniq(AB8 + near_words("ab", n + 2, "abc"))), ops=ops)
    product(ex, fam, P, BODIES + CAPS, BASE, GL, ["%s", "%sb"])
    product(ex, fam, S, BODIES + CAPS, BASE, GL, ["b%s", "(?:%s|b)a"])
    core = [c.replace("%s", b + q) for b in BODIES + CAPS[:6] for q in ["*", "{1,2}?", "+?"] for c in ("%sb",)]
    core += ["a|ab|b", "(?:b|ab|a)b", "aab|ab|b", "abb?|b", "b", "ab", "[ab]b", "b$", "^b", "(?=b)", "(?<=a)b", "\\bb", "b\\b"]
    cross(ex, core, P | S)
    raw_bytes(ex, RAW + ["a", "\\xff", "\\0", "\\xffa", "[\\x80-\\xff]a", "[^\\0]a", "a|\\0", "a$", "(?<=a)."], S)
    # Branches of every kind, in every order
    kinds = ["a", "ab", "b", "a*", "b*?", "(?:)", "^a", "\\Ab", "b$", "\\ba", "(?=a)", "(?<=a)b", "(?!b)", "(?>a*)", "a{2}", "(b)", "a?b", "[ab]b", "$", "\\Bb"]
    f6 = ex.family(uniq(AB6 + words("abc", 4)))
    n = 0
    for x, y in itertools.permutations(kinds, 2):
        n += 1
        ex.add("%s|%s" % (x, y), f6, ops=S)
        ex.add(("(?:%s|%s)c" if n % 2 else "b?(?:%s|%s)b") % (x, y), f6, ops=ops)
    for x, y, z in itertools.permutations(kinds, 3):
        n += 1
        if deep or n % 7 == 0:
            ex.add(("%s|%s|%s", "(?:%s|%s|%s)c", "(?:%s|%s|%s)*?c", "a(?:%s|%s|%s)b")[n // 7 % 4] % (x, y, z), f6, ops=ops)
    inner = ["a*", "a*?", "ab|a", "a|ab", "a|b|ab", "(?:ab|a)*", "(?:a|b)+?", "a{1,2}?", "a?", "b|a*", "(a)|b", "[ab]*?", "^a|b", "a{1,2}", "a??b", "(?:a|ab){1,2}"]
    in_contexts(ex, f6, ops, inner)
    vast = ex.family(["c" * n + t for n in (1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000) for t in ("", "ab", "aab", "abcab")])
    for p in ["ab", "a+b", "[ab]+", "a|b", "b$", "(?<=a)b", "\\Bb", "a(?=b)", "$", "ab|cab", "[^c]", "a??b"]:
        ex.add(p, vast, ops=S)
        ex.add(p, vast, ops=S, macro="VH_CASE_B")
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core), "%d bodies x %d quantifiers x greedy/lazy in 4 contexts; matches starting at positions up to 70000" % (len(BODIES + CAPS), len(BASE)), "inputs with NUL and high bytes up to length 5",
            "every tree of at most 2 operators over {a,b} with 12 greedy/lazy quantifiers and of at most 3 operators with %d" % (2 if not deep else 6),
            "every ordered pair and triple of overlapping words as alternatives in 6 contexts, alternations and sequences of every number of parts up to 16; every pair of 14 quantifiers in a sequence",
            "all inputs over {a,b} up to length 8 and {a,b,c} up to length 5; matches starting at positions up to 300"]


# ---------------------------------------------------------------------------------------------------------------- C03
def number_text(n):
    return "g%d" % n


def name_groups(p):
    """Gives every plain capturing group of p a name; returns (pattern, [(name, number)])."""
    out = []
    names = []
    i = 0
    while i < len(p):
        if p[i] == "\\":
            out.append(p[i:i + 2])
            i += 2
            continue
        if p[i] == "(" and not p.startswith("(?", i):
            n = "%sg%d" % ("_" if len(names) % 2 else "", len(names) + 1)
            names.append((n, len(names) + 1))
            out.append("(?<%s>" % n)
        else:
            out.append(p[i])
        i += 1
    return "".join(out), names


def add_named(ex, p, fam, ops, flags=0):
    q, names = name_groups(p)
    ex.add(q, fam, flags=flags, ops=ops, macro="VH_CASE_N", extra="".join(', ::vh::NG<"%s", %d>' % (n, k) for n, k in names))


def c03(ex, deep):
    fam = ex.family(uniq(AB7 + words("abc", 4)))
    ops = M | P | S
    cap = lambda e: gen.cap(e)
    es = gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], ["*", "+", "?", "*?", "??"], unary=[cap])))
    es += [t for t in gen.canon_ab(gen.texts(gen.exprs(3, ["a", "b"], ["*", "??"] if not deep else ["*", "??", "+", "{2}"], unary=[cap]))) if "(" in t.replace("(?", "")]
    pats = list(es)
    # Groups that take part in an attempt that is abandoned later
    bodies = ["(a)", "(a)(b)", "(a)|b", "(a)|(b)", "((a)b)", "((a)|b)", "(a*)", "(a)?", "(ab|a)", "(a(b)?)"]
    for x in bodies:
        g = "(?:%s)" % x
        for q in ["*", "+", "*?", "+?", "??", "{2}", "{1,2}", "{0,2}?", "*+", "++", "{2}+", "{1,2}+"]:
            pats += [g + q, g + q + "b"]
        for t in ["(?=%s)", "(?!%s)", "(?<=%s)", "(?<!%s)", "(?>%s)"]:
            l = t % x
            pats += [l + "a*", "(?:%sab|a.)" % l, "[ab]*?%sb?" % l, "(?:%sb|b)+" % l, "(?:[ab]%s)*" % l]
        pats += ["%sc|%s" % (g, g), "%sa|[ab]*" % g, "(?:%sc)?[ab]*" % g, "(?:%sc|ab)*" % g, "(?:(?:%sc)?b)*a*" % g, "(?:%sb|(a))*" % g, "(%s)*c|." % g]
    for q1, q2 in itertools.product(["*", "+", "?", "*?", "{2}", "*+"], repeat=2):
        pats += ["((a)%s(b)%s)*" % (q1, q2), "(?:(a)%s|(b)%s)+" % (q1, q2), "((a%s)b)%s" % (q1, q2), "(a%s)(b%s)(a)?" % (q1, q2)]
    pats = uniq(pats)
    for p in pats:
        ex.add(p, fam, ops=ops)
    for p in ["(a)", "(a)(b)", "(a)|(b)", "(?:(a)|(b))*", "((a)|b)+", "(a(b(a)))", "(?=(a))(.)", "(?<=(a)(b))(a)", "(?>(a)|b)(b)", "((a)*)(b)?", "(a)(?:(b)|(a))",
              "(?!(a))(b)", "(a){2}(b)*+"]:
        add_named(ex, p, fam, ops)
    # Many groups, every layout
    for n in list(range(2, 21)) + ([32] if deep else []):
        L = LETTERS[:n]
        ins = [L, L[:-1], L + "z", "".join(reversed(L))] + list(L) + [L[i:] for i in range(n)] + [L[i:i + 2] for i in range(n)] + [c + c for c in L]
        f = ex.family(uniq(ins + [""]))
        add_named(ex, "".join("(%s)" % c for c in L), f, ops)
        add_named(ex, "|".join("(%s)" % c for c in L), f, ops)
        add_named(ex, "(?:" + "|".join("(%s)" % c for c in L) + ")*", f, ops)
        add_named(ex, "".join("(%s)?" % c for c in L), f, M | P)
        add_named(ex, "".join("(%s" % c for c in L) + ")" * n, f, M | S)
        add_named(ex, "".join("(%s" % c for c in L) + "|z)" * n, ex.family(uniq([L[:i] + "z" for i in range(n + 1)] + [L])), M | P)
        add_named(ex, "".join("(?=(%s))." % c for c in L), f, M | P)
        add_named(ex, "".join("(?<=^%s(%s))" % (L[:i], c) if i == n - 1 else "(?<x%d>%s)" % (i, c) if False else "(?:%s)" % c for i, c in enumerate(L)), f, M | P)
        add_named(ex, "(?<=" + "".join("(%s)" % c for c in L) + ")(z)", ex.family(uniq([L + "z", L, "a" + L + "zz", L[1:] + "z"])), S)
        add_named(ex, "(?>" + "".join("(%s)" % c for c in L) + ")(z)?", ex.family(uniq([L + "z", L, "a" + L + "zz", L[1:] + "z"])), M | S)
    # A group at every position of a sequence or alternation of n elements
    inside = ["(a)", "((a)b?)", "(a)?", "(?:(a)|(b))", "(?=(a)).", "(a)*", "(?:(a)b?){2}", "(?<=(b))a", "(?>(a)|b)"]
    fseq = {}
    for n in range(2, 11 if not deep else 15):
        base = "".join("ab"[(i * i // 2) % 2] for i in range(n))
        fseq[n] = ex.family(uniq(sum((deviations(v, "ab") for v in (base, base[:n // 2] + "a" + base[n // 2 + 1:], "a" * n, "ab" * n)), [])))
        for i in range(n):
            for x in inside:
                els = [c if j % 4 else "(%s)" % c for j, c in enumerate(base)]
                els[i] = x
                ex.add("".join(els), fseq[n], ops=M | S)
        for i in range(min(n, 7)):
            for x in ["(a)b", "(a)|b", "(?=(a))a", "(b(a)?)"]:
                els = ["%sb" % ("a" * (j + 1)) if j % 3 else "(b)%s" % ("a" * j) for j in range(min(n, 7))]
                els[i] = x
                ex.add("|".join(els), fam, ops=M | S)
    product(ex, fam, M | P, CAPS, BASE, MODES, ["%s", "%sb?"])
    product(ex, fam, S, CAPS, BASE, MODES, ["b(?:%s|a)"])
    core = [c.replace("%s", b + q) for b in CAPS for q in ["", "*", "{1,2}?", "{2}+"] for c in ("%sb", "(b)?%s", "(?=%s)[ab](b)?", "b(?<=%s)", "(?:(b)%sa|ba)")]
    core = [p for p in uniq(core) if not ("\\1" in p and "(b)" in p)]
    cross(ex, core if deep else core[::2], P | S)
    f5 = ex.family(uniq(words("ab", 5) + words("abc", 3)))
    inner = ["(a)", "(a*)", "(a)|(b)", "(a)?", "(a)*", "(ab|a)", "((a)b?)", "(?:(a)|b)+", "(a)(b)", "(?<x>a)(?<y>b)?", "(?=(a)).", "(?<=(a))b", "(?>(a)|(b))", "(a)*+", "(?:(a)|(b))*?", "(?!(a))b", "(a?)*", "(a)\\1?", "(^a|b)", "((a)|(b))(a)?"]
    in_contexts(ex, f5, P | S, inner, step=1 if deep else 2)
    vast = ex.family(["c" * n + t for n in (255, 256, 4096, 65535, 65536, 65537) for t in ("", "ab", "aab", "abcab")])
    for p in ["(a)(b)", "(c*)(a)", "(c+)(?:(a)|b)", "(c*)(b)?", "(?<=(c))(a+)", "(.*)(b)", "(?=(.*b))(c)", "(a)?(b)"]:
        ex.add(p, vast, ops=P | (0 if "*" in p or "+)" in p else S))
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core if deep else core[::2]), "9 kinds of groups at every position of sequences of up to 10 and alternations of up to 7 elements; %d bodies with groups x %d quantifiers x 3 modes in 3 contexts" % (len(CAPS), len(BASE)),
            "captures at positions up to 65537",
            "every tree of at most 2 operators over {a,b}, capturing groups, concatenation, alternation and 5 quantifiers, of 3 operators with %d" % (2 if not deep else 4),
            "10 group layouts under 12 quantifiers, in 5 kinds of lookaround/atomic groups and in abandoned alternatives",
            "up to 20 groups in sequence, alternation, loop, nesting, lookahead, lookbehind and atomic groups, unnamed and named",
            "all inputs over {a,b} up to length 7 and {a,b,c} up to length 4, matched and unmatched"]


# ---------------------------------------------------------------------------------------------------------------- C04
def c04(ex, deep):
    fam = ex.family(uniq(AB8 + words("abc", 5)))
    ops = M | P | S
    groups = ["(a)", "(a*)", "(a+?)", "(a|b)", "(ab|a)", "([ab]+)", "(.)", "(a?)", "(.*)", "(b*?)", "((a)b?)", "(?:(a)|b)", "(a)?", "(a)*", "(?:(a)b)*", "(aba)"]
    refs = ["\\1", "\\1*", "\\1+", "\\1?", "\\1{2}", "\\1{0,2}", "\\1*?", "\\1+?", "\\1*+", "\\1{2,}", "(?:\\1b)*", "(?:\\1|b)*", "(?:a|\\1)+?"]
    pats = []
    for g in groups:
        for r in refs:
            pats += [g + r, g + "b" + r]
        for r in ["\\1", "\\1+", "\\1?", "\\1*?"]:
            pats += ["(?:%s%s)*" % (g, r), "(?:%s|b)%s" % (g, r), r + g, "(?:%s%s|%s)" % (g, r + "c", "[ab]*"), "(?=%s)%s" % (g, r), "(?=%s).*?%s$" % (g, r),
                     "(?<=%s)%s" % (g, r), "(?>%s)%sb" % (g, r), "(?!%sc)%s" % (g, r), "%s(?=%s)" % (g, r), "%s(?!%s)." % (g, r), "%s.(?<=%s)" % (g, r),
                     "%s.(?<!%s)" % (g, r), "%s(?>%sb|)" .replace("|)", "|a)") % (g, r)]
    pats += ["(a\\1)", "(a|b\\1)+", "(?:\\1a|(b))+", "(?:(a)|b\\1)*", "(?:(a)|\\1b)*", "(?:(a|b)\\1)*", "(?:(a*)\\1b)*", "(\\1a|b)*", "((a)\\2)\\1", "(?:(a)|(b))*\\1\\2",
             "(?:\\2(a)|(b))*", "(a)(?:\\1(b)|\\2)*", "(a*)b\\1", "(a*?)b\\1", "(a+)b*\\1$", "(?<=(a))b\\1", "(?<=(a)\\1)b", "(?<=\\1(a))b", "(?<=\\1(a)b)b?", "(a)(?<=\\1)", "(ab)(?<=\\1)",
             "(a)b(?<=\\1b)", "([ab])(?<!\\1\\1).", "(?<=(.)\\1)b", "(?<=\\1(.))b", "(?<=\\1([ab]{2}))c"]
    for x, y in itertools.product(["a", "b", "a*", "[ab]", "ab|a", "b+?"], repeat=2):
        for r in ["\\1\\2", "\\2\\1", "\\2", "\\1"]:
            pats.append("(%s)(%s)%s" % (x, y, r))
            if deep:
                pats += ["((%s)%s)%s" % (x, y, r), "(?:(%s)|(%s))+%s" % (x, y, r), "(%s)(%s)%s(?:%s)?" % (x, y, r, r)]
    pats = uniq(p for p in pats)
    for p in pats:
        if p.count("(") - p.count("(?") >= max([int(c) for i, c in enumerate(p) if c.isdigit() and p[i - 1] == "\\"] or [0]):
            ex.add(p, fam, ops=ops)
    # Named
    for names in (["n"], ["n", "nn"], ["nn", "n"], ["a1", "a2"], ["name", "name_2", "Name"], ["_", "__", "_1"], ["abcdefghijklmnop", "abcdefghijklmnoq"], ["x", "y", "z", "w"]):
        k = len(names)
        L = "abcd"[:k]
        f = ex.family(uniq(words(L if k > 1 else "ab", 5 if k < 4 else 4) + [L + c for c in L] + [L + c + d for c in L for d in L] + [L + L, L + L[::-1], "bac" + "cab"]))
        for ref in names:
            ex.add("".join("(?<%s>%s)" % (n, c) for n, c in zip(names, L)) + "\\k<%s>" % ref, f, ops=ops)
            ex.add("(?:" + "|".join("(?<%s>%s)" % (n, c) for n, c in zip(names, L)) + ")*\\k<%s>" % ref, f, ops=ops)
            ex.add("".join("(?<%s>%s+)" % (n, c) for n, c in zip(names, L)) + "\\k<%s>" % ref + "\\%d" % k, f, ops=ops)
        ex.add("".join("(?<%s>[%s])" % (n, L) for n in names) + "".join("\\k<%s>" % n for n in reversed(names)), ex.family(uniq(words(L, 4) + [w + v for w in words(L, k, k) for v in words(L, k, k)])), ops=ops)
    for k in range(5, 17):
        names = [("g%d" % (i + 1), "name%c" % (97 + i), "n" * (i + 1), "_%s_" % LETTERS[i])[k % 4] for i in range(k)]
        L = LETTERS[:k]
        f = ex.family(uniq([L + c for c in L] + [L, L + L, L + L[::-1]] + [c + d for c in L for d in L]))
        for r in (range(k) if k in (9, 11, 12) or deep else (0, k // 2, k - 1)):
            ex.add("".join("(?<%s>%s)" % (n, c) for n, c in zip(names, L)) + "\\k<%s>" % names[r], f, ops=M | P)
            ex.add("".join("(?<%s>%s)" % (n, c) if i % 2 else "(%s)" % c for i, (n, c) in enumerate(zip(names, L))) + "\\k<%s>" % names[r | 1 if (r | 1) < k else 1], f, ops=M | P)
            ex.add("(?:" + "|".join("(?<%s>%s)" % (n, c) for n, c in zip(names, L)) + ")\\k<%s>" % names[r], f, ops=M | P)
    ex.add("(a)(?<n>b)\\1\\k<n>\\2", fam, ops=ops)
    ex.add("(?<n>a)(b)\\1\\k<n>\\2", fam, ops=ops)
    # Which group a number means, up to two digits
    for n in list(range(2, 14)) + [20, 24]:
        L = LETTERS[:n]
        for k in (range(1, n + 1) if n in (5, 11, 12) or deep else (1, n - 1, n)):
            f = ex.family(uniq([L + c for c in L] + [L, L + "0", L + "1", L + L[k - 1] + "0", L + L[k - 1] * 2] + [L + str(d) for d in range(10)] + [L + "a" + str(d) for d in range(10)]))
            ex.add("".join("(%s)" % c for c in L) + "\\%d" % k, f, ops=M | P)
            if n in (11, 12):
                ex.add("".join("(%s)" % c for c in L) + "(?:\\%d)0" % k, f, ops=M | P)
                ex.add("".join("(%s)" % c for c in L) + "\\%d[0-9]" % k, f, ops=M | P)
                ex.add("(?:" + "|".join("(%s)" % c for c in L) + ")\\%d" % k, ex.family(uniq([c + d for c in L for d in L] + list(L))), ops=M | P)
    for n in (99, 100, 101, 112):
        # One letter of each group differs from its neighbours and from the groups with the same leading digits
        L = "".join(LETTERS[i % 61] for i in range(n))
        for k in uniq([1, 9, 10, 11, 99, n] + ([100, 110] if deep else [])):
            if k <= n:
                f = ex.family(uniq([L + c for c in uniq(L[j - 1] for j in range(1, n + 1))] + [L] + [L + c + str(d) for c in uniq((L[k // 10 - 1], L[k // 100 - 1], L[0])) for d in list(range(10)) + ["00", "01", "10", "11", "12"]]))
                ex.add("".join("(%s)" % c for c in L) + "\\%d" % k, f, ops=M)
    # Length and position of a mismatch
    for n in list(range(1, 21)) + [31, 32, 33, 64]:
        w = "".join("ab"[(i * i // 2 + i) % 2] for i in range(n))
        ins = uniq([w + "-" + v for v in deviations(w, "abA-")] + [w + "-" + w + "b", w[1:] + "-" + w, w + w])
        f = ex.family(ins)
        for p in ["(.*)-\\1", "([ab]+)-\\1b?", "(.*?)-\\1"]:
            ex.add(p, f, ops=M | P)
        ex.add("(.*)-\\1", f, flags=ICASE, ops=M)
        ex.add("([ab]*)-[abA]*(?<=-\\1)", f, ops=M)
    allpairs = ex.family([bytes([x, y]) for x in range(256) for y in range(256)])
    for fl in (DOTALL, DOTALL | ICASE):
        ex.add("(.)\\1", allpairs, flags=fl, ops=M)
        ex.add("(?<n>.)\\k<n>", allpairs, flags=fl, ops=M)
        ex.add(".(?<=\\1(.)).|..(?<=(.)\\2)", allpairs, flags=fl, ops=M)
    fic = ex.family(words("abAB", 4) + words("aA", 8))
    for p in ["(a)\\1", "(ab)\\1", "([ab]+)\\1", "(a|b)\\1*", "(?:(a)|b\\1)+", "(.)(.)\\2\\1", "(?<=(.)\\1)a", "(?<n>a)b?\\k<n>", "(A+)\\1", "(a*)B\\1"]:
        for fl in (0, ICASE):
            ex.add(p, fic, flags=fl, ops=ops)
    crossed = []
    for g in ["(a)", "(ab)", "(a|b)", "([ab]+)", "(ab?)", "(.)", "(a)?", "(?:(a)|b)", "(b*?)", "((a)b?)"]:
        for r in ["\\1", "\\1*", "\\1{2}", "\\1+?", "(?:\\1|b)", "\\1?+"]:
            crossed += [g + r, g + "(?=%s)" % r, g + ".{0,2}(?<=%s)" % r, g + ".*(?<!%s)" % r, "(?:%s%s)*" % (g, r), "(?<=%s%s)b" % (r, g), "(?<=%s.?%s)" % (g, r)] if r in ("\\1", "\\1*") or deep else [g + r, g + ".{0,2}(?<=%s)" % r]
    cross(ex, crossed if deep else crossed[::2] + [p for p in crossed if p.startswith("(ab)")], ops if deep else S)
    inner = ["(a)\\1", "(a*)\\1", "(a|b)\\1?", "(ab?)\\1*", "(a)?\\1b", "\\1(a)", "(a|b\\1)+", "(?:(a)|\\1b)*", "([ab]+?)\\1", "(.)(.)\\2\\1?", "(?<n>a|b)\\k<n>", "(a)(?=\\1)", "(a)b(?<=\\1b)", "(b*)a\\1", "(?>(a*)\\1)", "(a)\\1++", "(ab)\\1{0,2}"]
    in_contexts(ex, ex.family(uniq(AB6 + words("abc", 3))), P | S, inner, step=1 if deep else 2)
    in_contexts(ex, ex.family(words("abAB", 4)), S, ["(a)\\1", "(ab?)\\1", "(?<n>[ab]+)\\k<n>", "\\1(ab)"], flags=ICASE)
    fi = ex.family(words("abAB", 5))
    for p in ["(ab)(?<=\\1)", "(ab).*(?<=\\1)", "(?<=\\1(ab))b", "(?<=(ab)\\1)", "(?<=\\1([ab]{2}))", "([ab]+)(?<=\\1)b", "(?<=(a)(b)\\2\\1)", "(a.)b?(?<=\\1)", "(?<n>ab).(?<=\\k<n>)", "(?<=\\k<n>(?<n>ab))", "(ab)(?=\\1)", "(ab)(?!\\1).", "(?=(ab)).(?<=\\1.)",
              "(?:(ab)|\\1)+", "(ab)\\1", "(aB)\\1", "(AB)\\1+", "([a-b]{2})\\1", "(?>(ab)\\1)", "(ab)\\1?+a", "(ab)\\1{1,2}", "(?<x>.)(?<y>.)\\k<y>\\k<x>"]:
        ex.add(p, fi, flags=ICASE, ops=ops)
        ex.add(p, fi, ops=ops)
        ex.add(p, fi, flags=ICASE, ops=ops, macro="VH_CASE_B")
    for n in (100, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537):
        w = "".join("ab"[(i * i // 2 + i // 7) % 2] for i in range(n))
        for flip in (lambda w: w,):
            f = ex.family([w + "-" + w, w + "-" + w[:-1] + "c", w + "-" + w[:-1], w + "-c" + w[1:], w + "-" + w[:n // 2] + "c" + w[n // 2 + 1:], w + "-" + w + "c", w[1:] + "-" + w, w + "-" + w[:-1] + w[-1].upper(), w + "-" + w.upper()])
            for fl in (0, ICASE):
                ex.add("([ab]*)-\\1", f, flags=fl, ops=M | P)
                ex.add("([abAB]*)-[abcAB]*(?<=-\\1)", f, flags=fl, ops=P)
                ex.add("([ab]*)-\\1", f, flags=fl, ops=M | P, macro="VH_CASE_B")
    raw_bytes(ex, ["(.)\\1", "(.*)\\1", "(a.)\\1", "([^a]+)a\\1", "(.).(?<=\\1)", "(.)\\1*"], M | S)
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(crossed if deep else crossed[::2]), "captures up to 65537 characters, mismatch at the start, middle and end",
            "16 kinds of groups x 13 kinds of references in 16 contexts (loops, alternatives, lookarounds, atomic groups, forward and self references)",
            "all inputs over {a,b} up to length 8 and {a,b,c} up to length 5", "group numbers up to 112, up to 16 named groups, every mismatch position in captures up to length 64, all 65536 byte pairs with and without icase"]


# ---------------------------------------------------------------------------------------------------------------- C05
def c05(ex, deep):
    ops = M | P
    top = 4 if not deep else 6
    bounds = ["{%d}" % m for m in range(top + 1)] + ["{%d,}" % m for m in range(top + 1)] + ["{%d,%d}" % (m, n) for m in range(top + 1) for n in range(m, top + 1)]
    bounds += ["*", "+", "?"]
    fam_ab = ex.family(uniq(AB8 + near_words("a", 14, "b") + near_words("ab", 18, "abc")))
    bodies = ["a", "ab", "[ab]", "a|b", "(a)", "a|ab", "ab?"] + (["a?b?", "(a|ab)", ".", "(a)(b)", "a*b", "(?=a)."] if deep else [])
    for b in bounds:
        for mode in ["", "?", "+"]:
            for x in bodies:
                g = x if x in ("a", "[ab]", "(a)", ".", "(a|ab)") else "(?:%s)" % x
                for fl in ((0, UNROLL) if x in ("a", "ab", "a|b", "a|ab") or deep else (0,)):
                    ex.add(g + b + mode, fam_ab, flags=fl, ops=ops)
            ex.add("a" + b + mode + "ab?", fam_ab, ops=ops)
            ex.add("(?:a|ab)" + b + mode + "b", fam_ab, ops=ops)
            ex.add("(?<=^%s)c" % ("(?:ab)" + b + mode), ex.family(uniq("ab" * i + t for i in range(12) for t in ("c", "bc", "ac"))), ops=S)
            if deep:
                ex.add("(?:a?)" + b + mode + "b", fam_ab, ops=ops)
                ex.add("(?<=^%s)c" % ("a" + b + mode), ex.family(uniq("a" * i + t for i in range(16) for t in ("c", "bc"))), ops=S)
                ex.add("(?:a%s){2}" % (b + mode), fam_ab, ops=ops)
    # Every window of bounds over single characters and words, every number of repetitions around them
    fam_a = ex.family(stretched("a", ("", "b", "ab", "ba"), range(18)))
    fam_w = ex.family(stretched("ab", ("", "a", "c", "aab"), range(12)))
    for lo in range(10 if not deep else 14):
        for hi in list(range(lo + 1, lo + 7)) + [None]:
            b = "{%d,}" % lo if hi is None else "{%d,%d}" % (lo, hi)
            for mode in ["", "?", "+"]:
                ex.add("a" + b + mode + "b?", fam_a, ops=ops)
                ex.add("[ab]" + b + mode + "a", fam_a, ops=ops)
                if lo <= 5 or deep:
                    ex.add("(?:ab)" + b + mode + "a?", fam_w, ops=ops)
                    ex.add("(?:ab|a)" + b + mode + "b", fam_w, ops=ops)
    # Large and oddly written bounds
    pairs = [(7, 7), (8, 8), (9, 9), (10, 10), (11, 13), (15, 17), (16, 16), (20, 21), (31, 33), (32, 32), (64, 64), (99, 100), (100, 101), (127, 129), (128, 128), (0, 10), (1, 12), (9, 10), (0, 64),
             (0, 100), (2, 30), (8, None), (10, None), (16, None), (32, None), (100, None), (255, 256), (256, 300), (0, 257), (300, 512), (0, 600), (513, 513), (999, 1001), (0, 1234), (1024, 1025), (1200, None),
             (3, 4096), (4097, 4097)]
    if deep:
        pairs += [(200, 200), (255, 257), (256, 256), (0, 255), (0, 256), (250, None), (123, 145)]
    for lo, hi in pairs:
        b = "{%d}" % lo if lo == hi else "{%d,}" % lo if hi is None else "{%d,%d}" % (lo, hi)
        near = uniq(n for base in (lo, hi or lo) for n in range(max(0, base - 2), base + 3)) + [0, 1, 2, 5, 2 * (hi or lo) + 1]
        for mode in ["", "?", "+"]:
            f1 = ex.family(stretched("a", ("", "b", "ba"), near))
            f2 = ex.family(stretched("ab", ("", "a", "b", "c"), near))
            for fl in (0, UNROLL) if lo <= 600 else (0,):
                ex.add("a" + b + mode, f1, flags=fl, ops=ops)
                if hi != None and hi > 600:
                    continue
                if lo <= 64 and (fl == 0 or lo <= 16):
                    ex.add("(?:ab)" + b + mode, f2, flags=fl, ops=ops)
            ex.add("[ab]" + b + mode + "b", f1, ops=ops)
            if (hi or lo) <= 33:
                ex.add("(?:a|ab)" + b + mode, f2, ops=ops)
                ex.add("(ab?)" + b + mode, f2, ops=ops)
    # Every number up to 130 (and on through the digits) as every kind of bound
    for n in list(range(5, 131)) + [n * 10 + d for n in (13, 19, 20, 29, 98) for d in range(0, 10, 3)]:
        f1 = ex.family(stretched("a", ("", "b"), [0, n - 1, n, n + 1, n + 3]))
        for k, b in enumerate(["{%d}", "{%d,}", "{0,%d}"]):
            ex.add("a" + b % n + MODES[(n + k) % 3], f1, ops=M | P)
        ex.add("a{%d,%d}%s" % (n, n + 1 + n % 3, MODES[n % 3]), f1, ops=M | P)
        if n <= 40:
            f2 = ex.family(stretched("ab", ("", "a"), [0, n - 1, n, n + 1]))
            ex.add("(?:ab){%d}%s" % (n, MODES[(n + 1) % 3]), f2, ops=M | P)
            ex.add("(?:ab|a){1,%d}%sb?" % (n, MODES[n % 3]), f2, ops=M | P)
    for b in ["{00}", "{01}", "{007}", "{1,01}", "{01,}", "{0,010}", "{0003,0005}", "{010}"]:
        ex.add("a" + b, ex.family(stretched("a", ("", "b"), range(14))), ops=ops)
    # Nested bounds
    for b1, b2 in itertools.product(["{2}", "{1,2}", "{0,2}", "{2,}", "{0}", "?", "*"], repeat=2):
        for m1 in ("", "?", "+"):
            ex.add("(?:a%s%s)%s" % (b1, m1, b2), fam_ab, ops=ops)
            if deep:
                ex.add("(?:a%s%sb)%s" % (b1, m1, b2), fam_ab, ops=ops)
    product(ex, ex.family(AB7), ops, BODIES + CAPS, BASE + ["{0,3}", "{1,3}", "{4}"], MODES, ["%s", "%sb"] if deep else ["%sb?"])
    core = [b + q + m + t for b in BODIES[:8] + CAPS[:4] for q in ["*", "+", "?", "{2}", "{2,3}", "{2,}", "{0,2}"] for m in MODES for t in ("b?",)]
    cross(ex, core if deep else core[::3], M | P)
    inner = [b + q + m for b in ("a", "(?:ab)", "(?:a|ab)", "(a)") for q in ("{2}", "{1,2}", "{2,}", "*", "?", "{0,2}", "{3}") for m in MODES]
    in_contexts(ex, ex.family(AB6), P | S, inner, step=1 if deep else 3)
    raw_bytes(ex, [b + q + m for b in (".", "[^a]", "(?:.a?)") for q in ("*", "{2}", "{1,2}", "{2,}") for m in MODES], M | P)
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core if deep else core[::3]), "%d bodies x %d quantifiers x 3 modes" % (len(BODIES + CAPS), len(BASE) + 3),
            "every bound {m}, {m,}, {m,n} with m,n <= %d, and *, +, ? x 3 modes x %d bodies, with and without unroll, in sequences and lookbehinds" % (top, len(bodies)),
            "bounds up to %d with every number of repetitions around them, every bound up to 130" % 4097, "all inputs over {a,b} up to length 8"]


# ---------------------------------------------------------------------------------------------------------------- C06
def c06(ex, deep):
    fam = ex.family(uniq(AB8 + words("abc", 5)))
    ops = M | P | S
    inner = ["a", "a*", "a+", "a?", "a*?", "a+?", "a??", "a|ab", "ab|a", "a|b", "ab", "(?:ab)*", "(?:a|ab)*", "(?:ab|a)+", "[ab]*", "[ab]+?", "a{1,2}", "a{1,2}?", "a*b?", "a?b*", "a*b*", "(?:ab?)*", "(a)*", "(a|ab)",
             "a*|b", "b|a*", "a*+", "a(?>a*)", "(?=a).*", "(?:a+b)*", "aa|a", "a|aa|aab", ".*", ".*?", "(?<=a)b*"]
    tails = ["", "a", "b", "ab", "b*", "a?b", "$", "[ab]", "(?:a|b)b", "a*"]
    pats = []
    for x in inner:
        for t in tails:
            pats.append("(?>%s)%s" % (x, t))
        pats += ["(?:(?>%s)b|[ab])*" % x, "a*(?>%s)b" % x, "(?>%s|b)a" % x, "(?>(?>%s)b)" % x, "(?:(?>%s)|a)b" % x, "(?>%s)*b" % x, "(?>%s){2}" % x, "(?=(?>%s)b)." % x, "(?<=(?>%s))b" % x, "(?<=(?>%s)b)a" % x]
    bodies = ["a", "[ab]", ".", "(?:ab)", "(?:a|b)", "(?:a|ab)", "(?:ab|a)", "(?:ab?)", "(?:a+b)", "(?:aa|a)", "(?:a??b)", "(?:a*b)", "(a)", "(a|ab)", "(?:a?)", "(?:(a)|(b))"]
    qs = PQ + ["{0,2}+", "{3}+", "{0}+", "{1}+", "{0,1}+", "{1,}+", "{3,4}+"]
    for x in bodies:
        for q in qs:
            for t in (tails[:6] if not deep else tails):
                pats.append(x + q + t)
        for q in ["*+", "++", "?+", "{1,2}+"]:
            pats += ["(?:%s%sb|[ab])+" % (x, q), "a*?%s%sb" % (x, q), "(?:b%s%s)*" % (x, q), "(?<=%s%s)b" % (x, q), "(?:%s%s){2}b?" % (x, q), "(?!%s%sb)." % (x, q)]
    if deep:
        pats += gen.canon_ab(gen.texts(gen.upto(3, ["a", "b"], ["*", "?", "*+", "?+"], unary=[gen.atomic])))
    else:
        pats += gen.canon_ab(gen.texts(gen.upto(2, ["a", "b"], ["*", "?", "*+", "{1,2}+"], unary=[gen.atomic])))
    for p in uniq(pats):
        ex.add(p, fam, ops=ops if deep else M | S)
    for fl in (UNGREEDY, UNROLL):
        for x in bodies[:10]:
            for q in ["*+", "++", "?+", "{1,2}+", "{2,}+"]:
                ex.add(x + q + "b", fam, flags=fl, ops=M | P)
    lf = ex.family(stretched("a", ("", "b", "ab", "c")) + stretched("ab", ("", "b", "a", "c")))
    for p in ["a*+", "a*+b", "a*+a", "[ab]*+", "[ab]++c", "(?>a*)b", "(?>a*)ab", "(?:ab)*+", "(?:ab)*+a", "(?>(?:ab)*)a?", "(?:a|b)*+c", "(?>(?:a|b)+)c", "(?:ab?)++c?", "a{3,}+", "a{5,9}+a", ".*+c"]:
        ex.add(p, lf, ops=M | P)
    product(ex, ex.family(AB7), P | S, BODIES + CAPS, BASE, ["+"], ["%sb", "a?%sa"])
    for q in ["*", "+?", "{1,2}", "{2}"]:
        product(ex, ex.family(AB7), P | S, ["(?>%s)" % (b + q) for b in BODIES + CAPS], [""], [""], ["%sb", "(?:%s|a)a"])
    core = [c.replace("%s", b) for b in [x + q for x in BODIES[:8] + CAPS[:3] for q in ("*+", "{1,2}+")] + ["(?>%s)" % x for x in ("a*", "a|ab", "ab|a", "a*?", "(a)|b", "[ab]+", "a?b", "a{1,2}", "ab", "[ab]b")] for c in ("%sb", "(?:%s|b)a")]
    cross(ex, core, P | S)
    inner = ["a*+", "a++", "a?+", "a{1,2}+", "a{2,}+", "[ab]*+", "(?:ab)*+", "(?:a|ab)*+", "(?:ab|a)++", "(?:a|ab)?+", "(?:ab|a){2}+", "(?:ab|a){1,2}+", "(?:a*b)*+", "(?>a*)", "(?>a|ab)", "(?>ab|a)", "(?>a*?)", "(?>a?b?)", "(?>a*|b)", "(?>(a)|b)*", "(a)*+",
             "(a|ab)?+", "(?>a+b?)", "(?>[ab]+?b)", "(?>a{1,2})", "b*+a", "(?>(?>a)b?)", "(?:a?){2}+", "(?:[ab]b?)*+"]
    in_contexts(ex, ex.family(uniq(AB6 + words("abc", 4))), P | S, inner)
    # Every number of branches, elements and repetitions
    for n in range(2, 15):
        for turn in (0, 5, 11):
            alt = "|".join(mixed_words(n, turn))
            for p in ["(?>%s)b" % alt, "(?:%s)*+a" % alt, "(?:(?>%s)a|[ab])*?b" % alt, "(?:%s){2}+b?" % alt]:
                ex.add(p, fam, ops=P | S if n < 8 else P)
            seq = "".join(sequence(n, turn))
            fs = ex.family(uniq(AB7 + near_words("ab", n + 2, "abc")))
            for p in ["(?>%s)b" % seq, "(?>a*%s|a)[ab]" % seq, "(?:%s)?+b" % seq]:
                ex.add(p, fs, ops=P | S if n < 8 else P)
        atoms = [c + q for c, q in zip("abab" * 4, ["*+", "?+", "++", "{1,2}+", "{0,3}+"] * 4)][:n]
        ex.add("".join(atoms), fam, ops=M | P)
        ex.add("".join("(?>%s)" % a[:-1] for a in atoms) + "b?", fam, ops=M | P)
        ex.add("(?>a" * n + "b?" + ")" * n + "b", ex.family(stretched("a", ("", "b", "bb"), range(n + 3))), ops=M | S)
        ex.add("(?>a?" * n + "b?" + ")" * n + "a?b", ex.family(stretched("a", ("", "b", "bb"), range(n + 3))), ops=M | S)
    for n in list(range(3, 41)) + [48, 63, 64, 65, 100, 128]:
        near = uniq([0, 1, n - 1, n, n + 1, n + 2, 2 * n])
        fa, fw = ex.family(stretched("a", ("", "b", "ab"), near)), ex.family(stretched("ab", ("", "a", "b", "c"), near))
        for k, b in enumerate(["{%d}+", "{%d,}+", "{0,%d}+", "{2,%d}+"]):
            ex.add("a" + b % n + "a", fa, ops=M | P)
            ex.add("a" + b % n + "b", fa, ops=M | P)
            if n <= 34 and (n + k) % 2 == 0 or deep:
                ex.add("(?:ab|a)" + b % n + "b", fw, ops=P)
                ex.add("(?:ab?)" + b % n + "a?", fw, ops=P)
        ex.add("(?>a{1,%d})a" % n, fa, ops=M | P)
        ex.add("(?>a{1,%d}?)b" % n, fa, ops=M | P)
    raw_bytes(ex, [".*+", ".*+a", "(?>.*)a", "[^a]*+a", "(?>.a?)a", ".{2}+a", "(?>a|.)a"], P | S)
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core), "%d bodies under %d possessive quantifiers and in atomic groups in 2 contexts" % (len(BODIES + CAPS), len(BASE)),
            "%d atomic bodies in %d contexts, %d possessive bodies under %d possessive quantifiers in %d contexts, every tree of at most %d operators over {a,b}, atomic groups, concatenation, alternation and 4 quantifiers" %
            (len(inner), len(tails) + 10, len(bodies), len(qs), 12, 3 if deep else 2),
            "alternations and sequences of up to 14 parts in atomic groups and possessive loops, nesting to depth 14, possessive bounds up to 40 and at 48 - 128",
            "all inputs over {a,b} up to length 8 and {a,b,c} up to length 5; inputs up to 2050 characters for loops"]


# ---------------------------------------------------------------------------------------------------------------- C07
KINDS = ["=", "!", "<=", "<!"]


def c07(ex, deep):
    fam = ex.family(uniq(AB7 + words("abc", 4)))
    ops = M | S
    inner = gen.canon_ab(gen.texts(gen.upto(1, ["a", "b"], ["*", "+?", "?", "{2}", "{1,2}?", "*+"])))
    inner += ["ab|b", "b|ab", "a*b", "ba*", "(?:ab)+", "(?:a|bb)*", "(a)b", "(a|ab)(b?)", "(?:a|ab)(?:b|ba)", "ab*a", "a{2}b", "a.b", "[^a]b", "^a", "a$", "^", "$", "\\b", "\\Aa", "b\\Z", "a\\B", "^a*b$", "(?>a*)b", "(?>ab|a)b", "a++b", "a{1,2}+b",
              "(a)\\1", "\\1(a)", "a??b", "(?:a?b)*", "", "[]", "[^]", "abab", "(?:ab|ba){2}", "(?:a*b)+?a", "(?:a|b)*c", "(?:(a)|(b))*"]
    pats = []
    ctx = ["%s", "%sa", "a%s", ".%s.", "a*%sb*", "(?:a%s|b)*", "(?:%s[ab])+"] + (["[ab]*?%sb", "(?:%s)?a", "a%s{2}b", "(?:b|%sa)c", "c%sc?"] if deep else ["[ab]*?%sb", "%s?a"])
    for k in KINDS:
        for x in inner:
            l = "(?%s%s)" % (k, x)
            for c in ctx:
                pats.append(c % l)
    for k1, k2 in itertools.product(KINDS, repeat=2):
        for x in ["a", "ab", "a*b", "^a", "b$"] + (["a|bb", "(a)b?", "\\b"] if deep else []):
            i = "(?%s%s)" % (k2, x)
            for t in ["(?%s%%s)", "(?%sb%%s)", "(?%s%%sb)", "(?%sa%%sb)", "(?%s%%s|b)", "(?%s(?:%%sa)*b)", "(?%s(?:[ab]%%s){2})"]:
                pats += ["[ab]*?%sb?" % (t % k1 % i), "a%s.?" % (t % k1 % i)]
    for k1, k2, k3 in itertools.product(KINDS, repeat=3):
        pats += ["[ab]*?(?%sa(?%sb(?%sa)))b?" % (k1, k2, k3), "(?%s(?%s(?%sa)b)a)[ab]+" % (k1, k2, k3), ".(?%s(?%s[ab](?%sb)a)|b).?" % (k1, k2, k3), "[ab]*(?%sa(?%sb|(?%sa)))$" % (k1, k2, k3)]
        if deep:
            pats += ["[ab]*?(?%s[ab](?%s(?%sab)b))b?" % (k1, k2, k3), ".+(?%s(?%sa|(?%sb)a)b)" % (k1, k2, k3)]
    for p in uniq(pats):
        if not p.startswith("?"):
            ex.add(p, fam, ops=ops)
    # Multiline and anchored contents, far contexts
    fn = ex.family(words("ab\n", 5))
    for k in KINDS:
        for x in ["^a", "a$", "^", "$", "^b*", "\\na", "^a|b$", "a\\Z", "\\Aa", "(?:^|a)b"]:
            for fl in (0, MULTILINE):
                ex.add(".(?%s%s)[^]" % (k, x), fn, flags=fl, ops=S)
                ex.add("(?%s%s)[^]" % (k, x), fn, flags=fl, ops=S)
    for n in list(range(1, 18)) + [31, 32, 33, 64]:
        w = "".join("ab"[(i * i // 3) % 2] for i in range(n))
        f = ex.family(uniq([v + "c" for v in deviations(w, "ab")] + ["c" + v for v in deviations(w, "ab")] + [w + "c" + w]))
        for k in KINDS:
            ex.add(("(?%s%s)c" if "<" in k else "c(?%s%s)") % (k, w), f, ops=S)
        f2 = ex.family(uniq("a" * i + m + "a" * j for i in range(0, n + 2) for m in ("b", "bb", "") for j in (0, 1, n)))
        if n <= 17:
            for k in KINDS:
                ex.add("(?%sa{%d})b" % (k, n), f2, ops=S)
                ex.add("b(?%sa{%d,}b?)" % (k, n), f2, ops=S)
                ex.add("(?%s^a*)b" % k, f2, ops=S)
                ex.add("b(?%s.*$)" % k, f2, ops=S)
    nested = ["(?%s%s)" % (k, x) for k in KINDS for x in ("a", "ab", "a*b", "b|ab", "^a", "b$", "(a)b?", "[ab]{2}", "a\\b", "(?:ab)+", "(?:)", "a*+b", "(?>a|ab)b", "a(?=b)", "(?<=a)b", "(?!a).", "b(?<!b)")]
    in_contexts(ex, ex.family(uniq(AB6 + words("abc", 3))), S, nested, step=1 if deep else 2)
    # Every number of elements, branches and groups in a lookaround
    for n in range(2, 17):
        fs = ex.family(uniq([x + y for x in near_words("ab", n + 1, "ab") for y in ("", "c")] + words("ab", 5)))
        fw = ex.family(uniq(words("ab", 6) + [x + "c" for x in words("ab", 5)]))
        base = ("ab" * 9)[:n]
        fb = ex.family(uniq([v + "c" for v in deviations(base, "ab")] + ["c" + v for v in deviations(base, "ab")]))
        for k in KINDS:
            at = "(?%s%s)c" if "<" in k else "(?%s%s)[ab]"
            for turn in (0, 5, 11) if n < 8 or deep else (n % 12,):
                ex.add(at % (k, "".join(sequence(n, turn))), fs, ops=S)
                if turn != 5:
                    ex.add(at % (k, "|".join(mixed_words(n, turn))), fw, ops=S)
                    ex.add(at % (k, "(?:%s)a?b" % "|".join(mixed_words(n, turn))), fw, ops=S)
            at = "(?%s%s)c" if "<" in k else "c(?%s%s)"
            ex.add(at % (k, "".join("(%s)" % c for c in base)), fb, ops=S)
            ex.add(at % (k, "".join("(?:%s)" % c for c in base)), fb, ops=S)
            ex.add(at % (k, "".join("(?:%s|c)" % c if i % 2 else "[%s]" % c for i, c in enumerate(base))), fb, ops=S)
            ex.add(at % (k, "".join("(" + c for c in base) + ")" * n), fb, ops=S)
            ex.add(at % (k, "".join("(?:%s" % c for c in base) + "b?)" * n), fb, ops=S)
            ex.add("".join("(?%s[ab]%s)" % (k, "" if i % 3 else "|c") for i in range(n)) + ".", fw, ops=S)
            ex.add("".join("(?%s%s)." % (k, "a" if i % 2 else "[ab]") for i in range(n)), fb, ops=S)
    for n in (20, 24, 31, 32, 33, 40, 48, 64):
        base = "".join("ab"[(i * i // 3 + i // 5) % 2] for i in range(n))
        fb = ex.family(uniq([v + "c" for v in deviations(base, "ab")] + ["c" + v for v in deviations(base, "ab")]))
        for k in KINDS:
            at = "(?%s%s)c" if "<" in k else "c(?%s%s)"
            ex.add(at % (k, "".join("(?:%s)" % c if i % 3 else "(?:%s|c)" % c for i, c in enumerate(base))), fb, ops=S)
            ex.add(at % (k, "".join("[%s]" % c if i % 2 else "%s" % c for i, c in enumerate(base))), fb, ops=S)
    qs = ["*", "+", "{2}", "{1,2}", "{2,}", "{0,2}", "?"]
    for k in KINDS:
        product(ex, fam, S, BODIES + CAPS, qs if deep else ["*", "{2}", "{1,2}"], MODES if deep else ["", "?"], ["b?(?%s%%s).?" % k, "(?%sb%%sa).?" % k])
    core = [c % (k, x) for k in KINDS for x in ["a", "ab", "a*b", "b|ab", "(a)b?", "a{2}", "[ab]b", "^a", "b$", "a\\b", "(?:ab)+", "a(?=b)", "(?<=a)b", "(?!a).", "(?>a|ab)b", "."] for c in ["(?%s%s).?", "[ab](?%s%s)b?", "(?:[ab](?%s%s))+"]]
    cross(ex, core if deep else core[::2], S)
    raw_bytes(ex, [c % (k, x) for k in KINDS for x in [".", "a.", "[^a]", "\\xff", "\\0a", ".*a"] for c in ["(?%s%s).?"]], S)
    for n in (64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4096):
        f = ex.family(uniq(x + y for x in ("a" * n, "b" + "a" * n, "a" * n + "b", "a" * (n - 1), "b" + "a" * (n - 1), "a" * (n // 2) + "b" + "a" * (n - n // 2), "a" * (2 * n)) for y in ("c", "c" + "a" * n, "ca", "c" + "a" * (n - 1) + "b", "c" + "a" * n + "b")))
        for k in KINDS:
            for x in ["^a*", "ba*", "a*b", "b?a+$", "^[ab]+", "(?:aa)*b", "[^c]*b", "b[^c]*", "a{%d}" % n if n <= 300 else "a{9}", "^.*"]:
                ex.add(("c(?%s%sc)" if "<" in k and n > 300 else "(?%s%s)c" if "<" in k else "c(?%s%s)") % (k, x), f, ops=S)
    return [CONTEXT_NOTE % (len(nested), len(CONTEXTS)), CROSS_NOTE % len(core if deep else core[::2]), "%d quantified bodies in 4 lookarounds in 2 contexts; contexts of up to 8192 characters" % (len(BODIES + CAPS) * 6),
            "%d expressions in 4 lookarounds in %d contexts; nestings of depth 2 (16 kinds x 7 shapes) and 3 (64 kinds x %d shapes)" % (len(inner), len(ctx), 5 if deep else 3),
            "lookarounds over sequences, alternations, groups and nestings of every number of parts up to 16, sequences up to 64",
            "all inputs over {a,b} up to length 7, {a,b,c} up to length 4 and {a,b,newline} up to length 5; contexts up to 64 characters long"]


# ---------------------------------------------------------------------------------------------------------------- C08
def c08(ex, deep):
    ops = M | P | S
    A = ["^", "$", "\\A", "\\Z", "\\b", "\\B"]
    ml = ex.family(words("a\n\r", 5) + words("a \n_", 4))
    wb = ex.family(words("a -_", 5) + words("a0Z.\n", 4))
    for fl in (0, MULTILINE):
        pats = []
        for x in A:
            pats += [x, "a" + x, x + "a", "[^]" + x, x + "[^]", "[^]" + x + "[^]", "(?:a|%s)+" % x, "(?:%sa)*" % x, "(?:%s)?a" % x, "(?=%s)[^]" % x, "(?!%s)[^]" % x, "[^](?<=%s)" % x, "[^](?<!%s)[^]" % x, "(?<=%s[^])[^]" % x,
                     "(?<=[^]%s)[^]" % x, "(?<!%s[^])[^]" % x, "(?<=a%sa)" % x, "(?=[^]%s)[^]" % x, "(%s)[^]" % x, "(?>%s[^]|a)" % x, "[^]*%s" % x, "[^]*?%s" % x, "[^]*?%s[^]$" % x, "(?:[^]%s){2}" % x, "(?:%s){2}a" % x, "(?:%s)*+a" % x,
                     "[^]+?%sa" % x, "a*%s" % x, "(?<=(?=%s)[^])[^]" % x, "(?<=(?<=%s[^])[^])" % x, "[^]*%s\\Z" % x, "(?:%s|[^])*" % x]
            for y in A:
                pats += [x + y, x + "[^]" + y, x + "[^]*" + y, x + "a" + y, "(?:%s|%s)a" % (x, y), "[^]%s%s[^]" % (x, y), "%s[^]+?%s" % (x, y), "(?:%s[^]%s)+" % (x, y)]
                if deep:
                    for z in A:
                        pats += [x + "[^]" + y + "[^]" + z, x + "[^]*" + y + "[^]*" + z, "(?<=%s[^]%s)%s" % (x, y, z)]
        for p in uniq(pats):
            two = any(b in p for b in ("\\b", "\\B"))
            ex.add(p, wb if two else ml, flags=fl, ops=ops if not two or fl == 0 else S)
    # Both neighbours of a position range over all bytes
    pairs = ex.family([bytes([x, y]) for x in range(256) for y in range(256)])
    ones = ex.family([b""] + [bytes([x]) for x in range(256)] + [b"\n" + bytes([x]) + b"\n" for x in range(256)] + [b"a" + bytes([x]) + b"a" for x in range(256)])
    for x in A:
        for fl in (0, MULTILINE) if x in ("^", "$", "\\A", "\\Z") else (0, ICASE):
            ex.add("[^]%s[^]" % x, pairs, flags=fl, ops=M)
            ex.add("[^](?<=%s)[^]" % x, pairs, flags=fl, ops=M)
            ex.add("(?<=[^]%s[^])" % x, pairs, flags=fl, ops=S)
            for p in ["%s[^]" % x, "[^]%s" % x, x, "%s[^]*?%s" % (x, x)]:
                ex.add(p, ones, flags=fl, ops=ops)
    # Anchors deep inside long inputs
    far = ex.family(uniq(("a" * n + s + "b" * k) for n in list(range(0, 20)) + [63, 64, 65, 255, 256, 257] for s in ("", "\n", "\r", "\r\n", " ") for k in (0, 1, 5)))
    for fl in (0, MULTILINE):
        for p in ["^b", "a$", "^b*$", "\\bb", "a\\b", "\\Bb", "\\Ab", "a\\Z", "a+$", "^a*$", "$[^]b", "[\\r\\n]^b", "(?<=^)b", "(?=$)\\s"]:
            ex.add(p, far, flags=fl, ops=S)
    inner = [t % x for x in A for t in ("%s", "%sa", "a%s", "(?:%s|a)")]
    in_contexts(ex, ex.family(uniq(AB6 + words("ab ", 4))), S, inner)
    in_contexts(ex, ex.family(words("ab\n", 5)), S, [x for x in inner if "b" not in x.lower()], flags=MULTILINE)
    # An anchor at every place of a longer sequence, in many branches, many anchors in a row
    for n in range(2, 13):
        base = "ab\n \na_b\n\nab-a"[:n]
        fpos = ex.family(uniq(deviations(base, "a\n ") + ["b" + base, base + "\n", base * 2, "\n" + base]))
        for fl in (0, MULTILINE):
            for x in A:
                for i in range(n + 1):
                    if deep or n < 6 or i in (0, 1, n // 2, n - 1, n):
                        els = [c.replace("\n", "\\n") for c in base]
                        ex.add("".join(els[:i]) + x + "".join(els[i:]), fpos, flags=fl, ops=M | S)
                        ex.add("[^]{%d}%s[^]{%d}" % (i, x, n - i), fpos, flags=fl, ops=M)
                ex.add("|".join(["[^]{%d}%s" % (j, x) for j in range(n, 0, -1)]), ml, flags=fl, ops=P)
                ex.add("|".join(["%s[^]{%d}%s" % (x, j, x) for j in range(n)]), ml, flags=fl, ops=S)
                ex.add(x * n + "[^]", ml, flags=fl, ops=S)
                ex.add("(?:" * n + x + ")" * n + "[^]", ml, flags=fl, ops=S)
                ex.add("[^]" + "(?:%s)" % "|".join((A * 3)[A.index(x):][:n]) + "[^]", wb, flags=fl, ops=S)
    core = [c % x for x in A for c in ["%sa", "b%s", "(?:[ab]%s)+", "(?<=%sa)b", "(?=b%s).", "(?:%s|a)b", "[ab]*%s", "(?:%s[ab])*?b", "(%s)?a", "(?>a*)%s"]]
    cross(ex, core, S)
    fm = ex.family(words("aB\n \r", 4))
    for x in A:
        for fl in (ICASE, MULTILINE | ICASE, MULTILINE | DOTALL | UNGREEDY | UNROLL, 31):
            for c in ["%s.", ".%s", "(?:.%s)+", "(?<=%s.)b", "(?=a%s).", "%sb"]:
                ex.add(c % x, fm, flags=fl, ops=S)
        for fl in (0, MULTILINE):
            for c in ["%s.", ".%s", "(?:[^]%s)+", "(?<=%s.)b", "%s", "[^]*?%s.$"]:
                ex.add(c % x, fm, flags=fl, ops=S, macro="VH_CASE_B")
                if "b" not in x.lower() and "<" not in c:
                    ex.add(c % x, fm, flags=fl, ops=S, macro="VH_CASE_F")
    return [CONTEXT_NOTE % (len(inner), len(CONTEXTS)), CROSS_NOTE % len(core),
            "6 anchors x 32 contexts and 36 pairs of anchors x 8 contexts%s, with and without multiline" % (", 216 triples" if deep else ""),
            "an anchor at every place of sequences of up to 12 elements, in up to 12 branches, up to 12 anchors in a row",
            "all inputs over {a,\\n,\\r} up to length 5, {a,space,\\n,_} up to length 4, {a,space,-,_} up to length 5; all 65536 byte pairs around a position; positions up to 257"]


# ---------------------------------------------------------------------------------------------------------------- C09
META = b"\\^$.|?*+()[]{}"


def hx(c, upper=False):
    return ("\\x%02X" if upper else "\\x%02x") % c


def setchr(c):
    """The byte c written so that it stands for itself inside a set."""
    return hx(c)


def c09(ex, deep):
    one = ex.family([b""] + [bytes([x]) for x in range(256)])
    two = ex.family([b""] + [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in b"aA\n\x80" for y in range(256)])
    ops = M
    elems = []   # element texts, as latin-1 strings
    for c in range(1, 256):
        if c not in META:
            elems.append(chr(c))
        elems.append(hx(c, c % 2 == 0) if c % 3 else "\\x%x%X" % (c >> 4, c & 15))
    elems += ["\\x00", "\\0"]
    for c in range(1, 256):
        ch = chr(c)
        if ch in "123456789kx" or ch in "bBAZ":
            continue
        elems.append("\\" + ch)
    for e in elems:
        ex.add(e.encode("latin-1"), one, ops=ops)
    for e in elems:
        if deep or (e[-1].isalpha() or len(e) == 4 and 0x3e <= int(e[2:], 16) <= 0x7e or e[-1] in "@[`{"):
            ex.add(e.encode("latin-1"), one, flags=ICASE, ops=ops)
    classes = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N", "."]
    for e in classes:
        for fl in (0, ICASE, DOTALL, ICASE | DOTALL, MULTILINE):
            ex.add(e, two, flags=fl, ops=ops)
            if e != ".":
                ex.add("[%s]" % e, one, flags=fl, ops=ops)
                ex.add("[^%s]" % e, one, flags=fl, ops=ops)
    for e in ("[]", "[^]", "[^]?", "[]?", "[.]", "[^.]", "[$^]", "[a^]", "[-a]", "[a-]", "[^-a]", "[^a-]", "[a\\-z]", "[\\]]", "[^\\]]", "[[]", "[\\b]", "[^\\b]", "[(]", "[)|*+?{}]", "[\\12]", "[^\\12]", "[\\k]", "[\\B]", "[\\A\\Z]", "[a-c-e]",
              "[a-ce-g]", "[a-cb-f]", "[\\d-]", "[-\\d]", "[\\d-a]", "[\\w.]", "[\\s\\d]", "[^\\s\\d]", "[\\D\\d]", "[^\\D\\d]", "[\\d\\w\\s]", "[^\\W_]", "[+--]", "[--/]", "[!-/]", "[\\n-\\r]", "[\\t-\\x20]", "[\\0-\\x1f]", "[\\x00-\\x7f]", "[\\x80-\\xff]",
              "[^\\x80-\\xff]", "[\\x7f-\\x80]", "[\\x00-\\xff]", "[^\\x00-\\xff]", "[0-9a-fA-F]", "[^0-9a-fA-F]", "[a-zA-Z]", "[A-z]", "[Z-a]", "[0-z]", "[a-a]", "[Y-b]", "[\\e\\a]", "[\\v\\f\\t]", "[\\R]", "[^\\R]", "[\\N]", "[^\\N]", "[\\R\\N]", "[ab\\d]", "[^ab\\d]",
              "[abcdefghijklmnop]", "[^abcdefghijklmnop]", "[acegikmoqsuwy]", "[a-cA]", "[aA]", "[^aA]", "[K]", "[k\\xe9]", "[\\xe0-\\xff]", "[^\\xe0]"):
        for fl in (0, ICASE):
            ex.add(e, one, flags=fl, ops=ops)
    # Every single-byte set, plain and negated
    for c in range(256):
        for neg in ("", "^"):
            for fl in ((0, ICASE) if 0x3f <= c <= 0x7b and (deep or c % 2 == 0 or chr(c) in "AZaz@[`{") else (0,)):
                if deep or c % 4 == (1 if neg else 3) or 0x40 <= c <= 0x7b:
                    ex.add("[%s%s]" % (neg, setchr(c)), one, flags=fl, ops=ops)
    edge = [0, 1, 0x1f, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x42, 0x4d, 0x59, 0x5a, 0x5b, 0x60, 0x61, 0x62, 0x6d, 0x79, 0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x81, 0xc1, 0xe1, 0xfe, 0xff]
    if not deep:
        edge = [0, 0x30, 0x39, 0x40, 0x41, 0x4d, 0x5a, 0x5b, 0x60, 0x61, 0x6d, 0x7a, 0x7b, 0x7f, 0x80, 0xe1, 0xff]
    for i, lo in enumerate(edge):
        for hi in edge[i:]:
            for neg in ("", "^"):
                for fl in (0, ICASE):
                    if neg == "" or fl == 0 or deep or (lo + hi) % 2 == 0:
                        ex.add("[%s%s-%s]" % (neg, setchr(lo), setchr(hi)), one, flags=fl, ops=ops)
    for e in classes + ["a", "K", "\\n", "\\x80", "[^a]", "[a-c]", "[\\x7f-\\x81]", "[^]", "[\\d_-]", "[B-y]", "[^M-m]", "\\0", "[acegik]", "[^acegik]"]:
        for fl in range(32) if deep else (0, 1, 2, 4, 8, 16, 31):
            ex.add(e, one, flags=fl, ops=M | S)
            ex.add(e, one, flags=fl, ops=M | S, macro="VH_CASE_B")
            ex.add(e, one, flags=fl, ops=M | S, macro="VH_CASE_F")
    # Every number of members of a set
    letters = list("kAzq5Mb-c_X0tYe9GfwoJh2Rv!l")
    ranges = ["b-d", "F-K", "2-4", "x-y", "Q-S", "\\x80-\\x8f", "!-$", "m-p", "U-V", "7-8", "\\xe0-\\xf1", "\\n-\\r", "h-i", "A-B", "\\x00-\\x05", "\\xfa-\\xff", ":-@", "\\[-`"]
    others = ["\\d", "x", "\\s", "b-d", "\\W", "Q", "F-K", "\\x80", "_", "\\n", "z", "\\w", "m-p", "\\D", "\\S", "!", "\\R", "A"]
    few_others = [o for o in others if o not in ("\\W", "\\D", "\\S", "\\w", "\\N")]
    for n in range(2, 28):
        for pool in (letters, ranges, others, few_others, sum(([x, y] for x, y in zip(letters, ranges)), [])):
            for turn in (0, 7) if deep or n < 12 else (n % 7,):
                ms = (pool[turn:] + pool[:turn])[:n]
                if len(pool) < n:
                    continue
                ms = [m for m in ms if m != "-"] + [m for m in ms if m == "-"]
                for neg in ("", "^"):
                    for fl in (0, ICASE):
                        ex.add("[%s%s]" % (neg, "".join(ms)), one, flags=fl, ops=ops)
    # The same elements as parts of larger patterns
    amb = ex.family([b"x" + bytes([c]) + b"y" for c in range(256)] + [b"x" + bytes([c, c]) + b"y" for c in range(256)] + [b"xy", b"x"])
    for e in classes + ["a", "K", "\\n", "\\x80", "\\xe1", "[^a]", "[a-c]", "[\\x7f-\\x81]", "[^\\n]", "[^]", "[]", "[\\d_-]", "[B-y]", "[^M-m]", "[a\\xff]", "[^\\xfe-\\xff]", "\\0", "[\\0a]"]:
        for fl in (0, ICASE, DOTALL):
            for c in ["x%sy", "x%s*y", "x%s{2}y", "x(%s)y", "x(?=%s)[^]y", "x[^](?<=%s)y", "x(?!%s)[^]y", "x(?:%s|q)+y", "x%s*+y", "x%s??y"]:
                if fl != DOTALL or e in (".", "\\N", "[^\\n]"):
                    ex.add(c % e, amb, flags=fl, ops=ops)
    return ["every literal byte, every escape, every hexadecimal escape, single-byte sets and ranges between %d boundary bytes (plain, negated, with and without icase), classes under every relevant flag" % len(edge),
            "sets of every number of members up to 27 (letters, ranges, classes, mixed), plain and negated, with and without icase", "all 256 one-byte inputs and the empty input for every element; the elements also inside sequences, loops, lookarounds and groups with all 256 bytes"]


# ---------------------------------------------------------------------------------------------------------------- C10
ALLFLAGS = ["icase", "dotall", "multiline", "ungreedy", "unroll"]


def c10(ex, deep):
    ops = M | P | S
    f1 = ex.family(uniq(words("aAb\n", 4) + words("ab", 6) + words("a\n", 6)))
    pats = ["a*", "a+b?", "a{1,2}?", "a??b", "(?:a|b)*?", ".", ".*b", "^a", "a$", "^.+$", "(a)\\1", "[a-b]+", "[^a]*", "(?<=a)b", "(?<=^a)b", "(?=A).", "a*+b", "(?>a*)b", "\\b.", "(?:ab){2}", "(?:ab|a){2,}", "(a*)(a*)", "\\Aa\\Z", "[^\\n]+",
            "(?:a|b){1,3}+", "\\N*", "(?<n>b)\\k<n>", "(?<=.)$", "(?:^.)*", "a{0}b?", "A{2}", "(?!.).", "((a+)(b*))*", "\\w{2}", "a{3}|b{2}", "(?:.|\\n){2}"]
    subsets = range(32) if deep else [0, 1, 2, 4, 8, 16, 3, 5, 6, 9, 12, 17, 18, 20, 24, 7, 11, 14, 19, 25, 28, 15, 23, 29, 30, 31]
    for p in pats:
        for fl in subsets:
            ex.add(p, f1, flags=fl, ops=ops if fl in (0, 31, 8, 16, 24) else S | M)
        for fl in (0, 1, 2, 4, 8, 16, 24, 31) if not deep else subsets:
            ex.add(p, f1, flags=fl, ops=S | M, macro="VH_CASE_B")
    # Every flag on every byte
    byte = ex.family([bytes([x]) for x in range(256)] + [b"a" + bytes([x]) for x in range(256)])
    for p in [".", "[^a]", "a?.", "^.$", "[a-z]", "\\w", "\\W", "\\s", "\\N", "\\R", "[A-Z\\d]", "k", "[^k-m]", "\\x4b", "(.)\\1?", "a\\b.?", "[\\x40-\\x5b]", "\\xe1", "[\\xe0-\\xff]"]:
        for fl in range(32) if deep else (0, 1, 2, 4, 8, 16, 3, 5, 6, 24, 31):
            ex.add(p, byte, flags=fl, ops=S | M)
    # Order, repetition and how flags are attached do not matter
    def typ(p, names):
        from ..core import cstr
        return "meta::regex<%s%s>" % (cstr(p), "".join(", F::" + n for n in names))
    from ..core import FLAG_BITS, cstr
    small = ["a*.", "^.$", "(a)\\1|b{2}?"]
    for p in small:
        for r in range(2, 6):
            for perm in itertools.permutations(ALLFLAGS, r) if deep or r < 3 else [c[::-1] for c in itertools.combinations(ALLFLAGS, r)]:
                ex.add(p, f1, flags=sum(FLAG_BITS[n] for n in perm), ops=S | M, ctype=typ(p, perm))
        for n1 in ALLFLAGS:
            ex.add(p, f1, flags=FLAG_BITS[n1], ops=S | M, ctype=typ(p, [n1, n1]))
            ex.add(p, f1, flags=FLAG_BITS[n1], ops=S | M, ctype="meta::regex<%s>::add_flags<F::%s>" % (cstr(p), n1))
            ex.add(p, f1, flags=0, ops=S | M, ctype="%s::clear_flags" % typ(p, [n1]))
            ex.add(p, f1, flags=FLAG_BITS[n1], ops=S | M, ctype="decltype(meta::xpr::add_flags<F::%s>(meta::regex<%s>{}))" % (n1, cstr(p)))
            for n2 in ALLFLAGS:
                ex.add(p, f1, flags=FLAG_BITS[n1] | FLAG_BITS[n2], ops=S | M, ctype="%s::add_flags<F::%s>" % (typ(p, [n1]), n2))
                if deep:
                    ex.add(p, f1, flags=FLAG_BITS[n2], ops=S | M, ctype="%s::clear_flags::add_flags<F::%s>" % (typ(p, [n1]), n2))
                    for n3 in ALLFLAGS:
                        ex.add(p, f1, flags=FLAG_BITS[n1] | FLAG_BITS[n2] | FLAG_BITS[n3], ops=S | M, ctype="%s::add_flags<F::%s>::add_flags<F::%s>" % (typ(p, [n1]), n2, n3))
        ex.add(p, f1, flags=31, ops=S | M, ctype="meta::regex<%s>::add_flags<%s>" % (cstr(p), ", ".join("F::" + n for n in ALLFLAGS)))
        ex.add(p, f1, flags=0, ops=S | M, ctype="%s::clear_flags" % typ(p, ALLFLAGS))
        ex.add(p, f1, flags=0, ops=S | M, ctype="decltype(meta::xpr::clear_flags(%s{}))" % typ(p, ALLFLAGS))
        ex.add(p, f1, flags=ICASE, ops=S | M, ctype="%s::clear_flags::add_flags<F::icase>" % typ(p, ["dotall", "ungreedy"]))
    # Every set of flags added to every set of flags
    few = ex.family(uniq(words("aA\n", 3) + ["aab", "\naA", "ab\na"]))
    for x, y in itertools.product(range(32), repeat=2):
        n1, n2 = ([n for n in ALLFLAGS if FLAG_BITS[n] & z] for z in (x, y))
        how = (x + 3 * y) % 5
        if how == 4 and y:
            t = "decltype(meta::xpr::add_flags<%s>(%s{}))" % (", ".join("F::" + n for n in n2), typ("^a*.", n1))
        elif how == 3:
            t = "%s::clear_flags::add_flags<%s>" % (typ("^a*.", n1), ", ".join("F::" + n for n in n2))
        elif how == 2:
            t = "%s::add_flags<%s>" % (typ("^a*.", n1[::-1]), ", ".join("F::" + n for n in n2[::-1]))
        else:
            t = "%s::add_flags<%s>" % (typ("^a*.", n1), ", ".join("F::" + n for n in n2))
        ex.add("^a*.", few, flags=y if how == 3 else x | y, ops=P | S, ctype=t)
    # unroll changes nothing, ungreedy exchanges greedy and lazy
    fam = ex.family(AB8)
    for q, body in itertools.product(["*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,3}"], ["a", "(?:ab)", "(?:a|b)", "(a)", "[ab]", "(?:a|ab)", "(?:a?b)"]):
        for m in ("", "?", "+"):
            for fl in (UNROLL, UNGREEDY, UNROLL | UNGREEDY) if deep or m != "+" else (UNROLL, UNGREEDY):
                ex.add("%s%s%sb?" % (body, q, m), fam, flags=fl, ops=M | P)
            ex.add("%s%s%sb?" % (body, q, m), fam, flags=UNROLL, ops=M | P, macro="VH_CASE_B")
            if deep or "(" not in body or m:
                ex.add("%s%s%sb?" % (body, q, m), fam, flags=UNROLL, ops=M | P, macro="VH_CASE_F")
    product(ex, fam, M | P, BODIES[::2] + CAPS[::2], BASE[3:], MODES, ["%sb"], UNROLL)
    product(ex, fam, P, BODIES[1::2] + CAPS[1::2], BASE[:10], MODES, ["%sb"], UNGREEDY)
    product(ex, ex.family(words("abAB", 4)), P, BODIES[1::3] + CAPS[::3], BASE[:10], MODES, ["%sb"], ICASE | UNROLL | UNGREEDY)
    for n in (5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33, 64, 100):
        f = ex.family(stretched("a", ("", "b"), [0, 1, n - 2, n - 1, n, n + 1, n + 2, 2 * n]) + stretched("ab", ("", "a", "c"), [0, 1, n - 1, n, n + 1]))
        for b in ["{%d}", "{%d,}", "{2,%d}", "{0,%d}"]:
            for m in MODES:
                for x in ["a", "(?:ab)", "(?:a|b)"] if n <= 33 else ["a"]:
                    for mac in (None, "VH_CASE_B"):
                        if mac is None or x != "(?:a|b)" or deep:
                            ex.add(x + b % n + m, f, flags=UNROLL, ops=M | P, macro=mac)
    return ["%d patterns x %d of 32 flag subsets; flag lists in %s orders, repeated, added and cleared in every way" % (len(pats), len(subsets), "all" if deep else "both"),
            "all inputs over {a,A,b,\\n} up to length 4, {a,b} up to length 6 or 8, {a,\\n} up to length 6"]


# ---------------------------------------------------------------------------------------------------------------- C14
def c14(ex, deep):
    from .. import refmodel
    ops = M | S
    done = set()
    fam = ex.family(uniq(words("ab", 6) + words("ab{|1,}", 3)))
    fam2 = ex.family(uniq(words("ab-]^", 4) + [bytes([c]).decode("latin-1") for c in range(256)]))
    fam3 = ex.family(uniq(words("ab{|", 4) + words("a{1,}", 4) + words("a1", 6)))
    fam4 = ex.family(uniq(words("a\\bd1", 4) + words("a \n", 4)))

    fset0 = ex.family([chr(c) for c in range(256)])

    def space(alphabet, n, f, limit=None):
        acc = refmodel.accepted(alphabet, n)
        for p in acc:
            if p not in done:
                done.add(p)
                ex.add(p, f, ops=ops)
        return len(acc)
    n = 0 if not deep else 1
    counts = {}
    for alphabet, k, f in [("ab|*+?()", 4 + n, fam), ("a{}1,|", 4 + n, fam3), ("[]^-ab", 4 + n, fam2), ("\\dab1(|)", 3 + n, fam4), ("(?:=!<>a|", 3 + n, fam), ("a.^$\\b|", 3 + n, fam4), ("{a|}*", 5 + n, fam3), ("a*?+|", 6 + n, fam),
                           ("[\\]d-a", 3 + n, fam2), ("a|*()", 6 + n, fam), ("a|*{", 6 + n, fam3)]:
        counts[alphabet] = (k, space(alphabet, k, f))
    # Precedence and scope with longer operands
    for x, y, z in itertools.product(["a", "ab", "a*", "(?:a|b)", "[ab]", "a{2}", "(a)", "{a".replace("{a", "a{"), "^a", "a$"], repeat=3):
        if not deep and (len(x) + len(y) + len(z)) % 2:
            continue
        ex.add("%s|%s%s" % (x, y, z), fam, ops=ops)
        if deep:
            ex.add("%s%s|%s" % (x, y, z), fam, ops=ops)
            ex.add("(?:%s|%s)%s" % (x, y, z), fam, ops=ops)
    for q in Q12 + PQ:
        for x in ["ab", "a|b", "(?:ab)", "a(?:b)", "[ab]b", "a\\x62", "\\x61\\x62", "a\\.", "(a)(b)", "a{b", "ab{", "(?:a)(?:b)", "ab|ba", "\\w\\d", "a\\\\", "[]b]".replace("[]b]", "[\\]b]"), "(?:a|b)b", "((?:a))", "\\(a", "a\\)", "[(]b", "a.", "b\\N", "(b)\\1"]:
            ex.add(x + q, fam, ops=ops)
            ex.add(x + q + "a", fam, ops=ops)
            ex.add("b" + x + q + "|a", fam, ops=ops)
    # Every number of branches, elements, members of sets and levels of nesting
    for n in range(2, 13 if not deep else 25):
        grow = [("ab" * 13)[:i + 1] for i in range(n)]
        fg = ex.family(uniq([("ab" * 14)[:k] + t for k in range(n + 2) for t in ("", "a", "b", "c")] + ["b" + ("ab" * 14)[:k] for k in (1, n)]))
        for alt in [grow, grow[::-1], grow[1:] + grow[:1], grow[-1:] + grow[:-1], [g + "c" for g in grow[:-1]] + ["a"], ["%s?" % g for g in grow], ["(%s)" % g for g in grow], ["^%s$" % g for g in grow], ["[ab]{%d}" % (i + 1) for i in range(n)], ["a", "b"] * (n // 2) + ["c"] * (n % 2)]:
            for t in ["%s", "(?:%s)[abc]?", "(%s)+?c", "b?(?=%s)[ab]*", "(?>%s)b?"]:
                if (deep or n < 7 or t == "%s") and not (n > 5 and t == "(%s)+?c"):
                    ex.add(t.replace("%s", "|".join(alt)), fg, ops=P | S if t == "%s" else P)
        members = ["a", "b-c", "\\d", "x", "_", "A-C", "\\s", "-", "y-z", ".", "|", "(", "*", "+", "$", "?", ")", "{", "}", ",", "e", "f", "g-h", "!", "#"]
        for ms in (members[:n], members[n:] + members[:n], members[:n][::-1] if members[:n][-1] != "-" else members[:n]):
            for t in ("[%s]", "[^%s]", "a[%s]*"):
                ex.add(t % "".join(ms), fset0 if t[0] == "[" else fam2, ops=M)
        els = ["a", "b?", "(a)?", "[ab]", "(?:a|b)", "a*", "(?=[ab]|$)", "b{1,2}", ".?", "(?:ab)?", "b??", "(?>a?)"]
        for r in range(3):
            seq = (els[r * 3:] + els + els)[:n]
            ex.add("".join(seq), fg, ops=P)
            ex.add("|".join(seq), fg, ops=P)
            ex.add("".join("(?:" + e for e in seq) + ")" * n, fg, ops=P)
            ex.add("".join("(" + e for e in seq) + ")*" * n if n < 6 else "".join("(" + e for e in seq) + ")" * n, fg, ops=P)
            ex.add("".join("(?:b|" + e for e in seq) + ")" * n, fg, ops=P)
    # Every character, plain and escaped, in every place a character can stand
    places = ["[%]", "[a%]", "[a-c%]", "[^%]", "[a-c-%]", "[\\d%]", "[\\d-%]", "[!-%]", "[%-~]", "[-%]", "[^a-c%b]", "[a-c%-~]", "[\\x20-%]", "[^%-~]"]
    outside = ["%", "a%", "a|%", "(%)", "(?:a|%)", "a*%", "a{2}%", "[a]%", "a{%", "a{1%", "a{1,%", "{%", "(?=%)[^]", "%*", "%{2}", "^%", "\\x61%", "\\0%", "(a)\\1%", "\\%%"]
    chars = [chr(c) for c in range(1, 256) if deep or 32 <= c < 127 or c in (1, 8, 9, 10, 13, 27, 127, 128, 255)]
    singles = [chr(c) for c in range(256)]
    fset = ex.family(singles)
    fout = ex.family(uniq(singles + ["a" + c for c in singles] + ["aa" + c for c in "ab1,{}\\"] + ["{a", "{1", "a{1", "a{1,", "aa1", "ab", "ba"]))
    cand = []
    for t, f in [(t, fset) for t in places] + [(t, fout) for t in outside]:
        for c in chars:
            cand += [(t.replace("%", x), f) for x in (c, "\\" + c) if deep or len(x) == 2 or not c.isalnum() or c in "abdknxAZ01"]
    cand = [(p, f) for p, f in cand if p not in done]
    for (p, f), (acc, at, sem) in zip(cand, refmodel.verdicts([p.encode("latin-1") for p, f in cand])):
        if acc and not sem and p not in done:
            done.add(p)
            ex.add(p, f, ops=M if f == fset else ops)
    return ["every accepted string over " + "; ".join("%s up to length %d (%d)" % (a, k, c) for a, (k, c) in counts.items()),
            "alternations, sequences, sets and nestings of every number of parts up to %d" % (12 if not deep else 24),
            "every character, plain and escaped, in %d places in and outside sets, over all bytes" % len(places + outside),
            "18 quantifiers after 24 operands in 3 contexts; all triples of operands around |", "all inputs over {a,b} up to length 6 and special-character alphabets up to length 4"]
