"""C16: expressions built with the C++ API against the equivalent pattern."""
import itertools

from ..core import DOTALL, FLAG_BITS, ICASE, M, MULTILINE, P, S, UNGREEDY, UNROLL, cstr, near_words, words
from .matching import uniq

ATOM, SEQ, ALT = 0, 1, 2
LET = "abcdefghijklmnopqrstuvwxyz"
MODES = {"": None, "?": "meta::match_mode::lazy", "+": "meta::match_mode::possessive"}


class E:
    """A C++ expression, the equivalent pattern, and the pattern's precedence. neg: the pattern of its negation, if it has one."""
    __slots__ = ("cpp", "pat", "lvl", "neg", "caps")

    def __init__(self, cpp, pat, lvl=ATOM, neg=None, caps=0):
        self.cpp, self.pat, self.lvl, self.neg, self.caps = cpp, pat, lvl, neg, caps

    def atom(self):
        return self.pat if self.lvl == ATOM else "(?:" + self.pat + ")"

    def part(self):
        return self.pat if self.lvl < ALT else "(?:" + self.pat + ")"


def esc(c):
    return c if c.isalnum() or c in "_ -,:;=!<>/&%#@~'\"" else "\\x%02x" % ord(c)


def chars(c):
    lit = {"\n": "\\n", "\r": "\\r", "\\": "\\\\", "'": "\\'"}.get(c, c)
    return E("xpr::chr<'%s'>" % lit, esc(c), neg="[^%s]" % (esc(c) if c not in "-^]" else "\\x%02x" % ord(c)))


def string(s):
    return E("xpr::str<%s>" % cstr(s), "".join(esc(c) for c in s), SEQ)


def embedded(p, lvl=ALT, caps=0, neg=None):
    return E("xpr::regex<%s>" % cstr(p), p, lvl, neg, caps)


def cat(*es, op=None):
    cpp = "(" + " >> ".join(e.cpp for e in es) + ")" if op else "xpr::concat(" + ", ".join(e.cpp for e in es) + ")"
    if len(es) == 1:
        return E(cpp, es[0].pat, es[0].lvl, es[0].neg, es[0].caps)
    return E(cpp, "".join(e.part() for e in es), SEQ, None, sum(e.caps for e in es))


def alt(*es, op=None):
    cpp = "(" + " | ".join(e.cpp for e in es) + ")" if op else "xpr::either(" + ", ".join(e.cpp for e in es) + ")"
    if len(es) == 1:
        return E(cpp, es[0].pat, es[0].lvl, es[0].neg, es[0].caps)
    return E(cpp, "|".join(e.pat for e in es), ALT, None, sum(e.caps for e in es))


def args(es):
    return ", ".join(e.cpp for e in es), (es[0] if len(es) == 1 else E("", "".join(e.part() for e in es), SEQ)), sum(e.caps for e in es)


def rep(fn, tmpl, q, *es, mode=""):
    """fn<tmpl[, mode]>(es...) meaning (es...)q"""
    a, body, caps = args(es)
    t = [x for x in (tmpl, MODES[mode]) if x]
    return E("xpr::%s%s(%s)" % (fn, "<%s>" % ", ".join(t) if t else "", a), body.atom() + q + mode, SEQ, None, caps)


def star(e):
    return E("(*%s)" % e.cpp, e.atom() + "*", SEQ, None, e.caps)


def plus(e):
    return E("(+%s)" % e.cpp, e.atom() + "+", SEQ, None, e.caps)


def neg(e, op=False):
    return E("(!%s)" % e.cpp if op else "xpr::negate(%s)" % e.cpp, e.neg, ATOM, e.pat if e.lvl == ATOM else "(?:" + e.pat + ")")


def atomic(*es):
    a, body, caps = args(es)
    return E("xpr::atomic(%s)" % a, "(?>" + body.pat + ")", ATOM, None, caps)


def ahead(*es):
    a, body, caps = args(es)
    return E("xpr::ahead(%s)" % a, "(?=" + body.pat + ")", ATOM, "(?!" + body.pat + ")", caps)


def behind(*es):
    a, body, caps = args(es)
    return E("xpr::behind(%s)" % a, "(?<=" + body.pat + ")", ATOM, "(?<!" + body.pat + ")", caps)


def capture(n, *es, name=None):
    a, body, caps = args(es)
    return E("xpr::capture<%d%s>(%s)" % (n, ', "%s"' % name if name else "", a), "(" + ("?<%s>" % name if name else "") + body.pat + ")", ATOM, None, caps + 1)


def quantified(*es, deep=False):
    """Every quantifying function applied to the operands."""
    out = []
    for mode in MODES:
        out += [rep("zero_or_more", "", "*", *es, mode=mode), rep("one_or_more", "", "+", *es, mode=mode), rep("maybe", "", "?", *es, mode=mode)]
        for n in (0, 1, 2, 3):
            out += [rep("at_least", "%d" % n, "{%d,}" % n, *es, mode=mode), rep("exactly", "%d" % n, "{%d}" % n, *es, mode=mode)]
        for lo, hi in [(0, 0), (0, 1), (0, 2), (1, 2), (1, 3), (2, 4), (2, 2)]:
            out.append(rep("between", "%d, %d" % (lo, hi), "{%d,%d}" % (lo, hi), *es, mode=mode))
    return out


TERMINALS = [E("xpr::empty", "(?:)"), E("xpr::nothing", "[]", neg="[^]"), E("xpr::begin_line", "^", neg="(?!^)"), E("xpr::end_line", "$", neg="(?!$)"),
             E("xpr::begin_input", "\\A", neg="(?!\\A)"), E("xpr::end_input", "\\Z", neg="(?!\\Z)"), E("xpr::word_boundary", "\\b", neg="\\B"), E("xpr::whitespace", "\\s", neg="\\S"),
             E("xpr::wildcard", ".", neg="[\\n\\r]"), E("xpr::lower", "[a-z]", neg="[^a-z]"), E("xpr::upper", "[A-Z]", neg="[^A-Z]"), E("xpr::digit", "\\d", neg="\\D"), E("xpr::word", "\\w", neg="\\W"),
             E("xpr::linebreak", "\\R", neg="\\N")]
A, B = chars("a"), chars("b")


def ctype(e, flags, how):
    names = [f for f, b in FLAG_BITS.items() if flags & b]
    base = "std::remove_cvref_t<decltype(%s)>" % e.cpp
    if how == 0:
        return base if not names else "%s::add_flags<%s>" % (base, ", ".join("meta::regex_flag::" + n for n in names))
    if how == 1:
        return "decltype(xpr::add_flags<%s>(%s))" % (", ".join("meta::regex_flag::" + n for n in names), e.cpp)
    # flags added one by one, after other flags were cleared
    t = "xpr::clear_flags(xpr::add_flags<meta::regex_flag::icase, meta::regex_flag::dotall>(%s))" % e.cpp
    for n in names:
        t = "xpr::add_flags<meta::regex_flag::%s>(%s)" % (n, t)
    return "decltype(%s)" % t


def c16(ex, deep):
    ab = ex.family(uniq(words("ab", 6) + words("abc", 3)))
    ab7 = ex.family(uniq(words("ab", 7)))
    byt = ex.family(uniq([bytes([c]) for c in range(256)] + [b"", b"ab", b"a b", b"\n\n", b"a\n"]))
    lines = ex.family(uniq(words("ab\n", 4) + words("a \n", 3)))
    case = ex.family(words("abAB", 4))
    n = [0]

    def put(e, fam, flags=0, ops=M | S, how=0):
        n[0] += 1
        ex.add(e.pat, fam, flags=flags, ops=ops, ctype=ctype(e, flags, how))
    # Terminals, all bytes
    elems = TERMINALS + [chars(c) for c in "aZ09_.*+?()[]{}|^$\\/- \n'\""] + [E("xpr::range<'%s', '%s'>" % (x, y), "[%s-%s]" % (x, y), neg="[^%s-%s]" % (x, y)) for x, y in ["az", "AZ", "af", "aa", "Yb", "09", "!~"]]
    elems += [E("xpr::range<'\\x01', '\\x7f'>", "[\\x01-\\x7f]", neg="[^\\x01-\\x7f]"), E("xpr::range<'\\x80', '\\xff'>", "[\\x80-\\xff]", neg="[^\\x80-\\xff]"),
              E("xpr::chr<'\\xff'>", "\\xff", neg="[^\\xff]"), E("xpr::chr<'\\x80'>", "\\x80", neg="[^\\x80]"), E("xpr::chr<'\\0'>", "\\x00", neg="[^\\x00]")]
    for e in elems:
        for fl in (0, ICASE, DOTALL):
            put(e, byt, fl, M | P | S)
            if e.neg and not (fl & DOTALL and e.cpp == "xpr::wildcard"):
                put(neg(e), byt, fl, M)
                put(neg(e, True), byt, fl, S)
        if e in TERMINALS[2:7]:
            for x in ([e, neg(e)] if e.neg else [e]):
                for fl in (0, MULTILINE):
                    for y in [cat(x, A), cat(A, x), star(cat(E("xpr::wildcard", "."), x)), cat(maybe_any(), x), alt(x, A)]:
                        put(y, lines, fl | DOTALL, M | P | S)
    for s in ["ab", "a", "aab", "a.b", "(a)", "[a]*", "a|b", "\\d", "a{2}", "^a$", "abababababab"]:
        e = string(s)
        put(e, ex.family(uniq([s, s + "a", s[:-1], "x" + s, s.upper(), s + s, "", "ab", "aab", "a", "b"])), 0, M | P | S)
        put(e, ex.family(uniq([s, s + "a", s[:-1], "x" + s, s.upper(), s + s, ""])), ICASE, M | P | S)
        put(rep("exactly", "2", "{2}", e), ex.family([s, s * 2, s * 3, s + s[:-1]]))
        put(cat(e, e, op=True), ex.family([s, s * 2, s * 3, s + s[:-1]]))
    # Every quantifying function and mode on every kind of operand
    operands = [(A,), (string("ab"),), (alt(A, string("ab")),), (A, B), (embedded("a|ab"),), (capture(1, A),)] + ([(E("xpr::range<'a', 'b'>", "[a-b]"),), (maybe(A), B), (alt(A, B, op=True), A)] if deep else [])
    for es in operands:
        for q in quantified(*es):
            put(q, ab7)
            put(cat(q, B), ab7, ops=P | S if not deep else 7)
            if deep:
                put(behind(q), ab7, ops=S)
                put(atomic(q, A), ab7)
    # All compositions of two and three operators
    base = [A, B, string("ab"), embedded("a|ab")]
    lvl1 = []
    for x, y in itertools.product(base, repeat=2):
        lvl1 += [cat(x, y, op=True), alt(x, y, op=True)]
    for x in base:
        lvl1 += [star(x), plus(x), rep("maybe", "", "?", x), rep("maybe", "", "?", x, mode="?"), rep("zero_or_more", "", "*", x, mode="?"), rep("one_or_more", "", "+", x, mode="+"), rep("exactly", "2", "{2}", x),
                 atomic(x), ahead(x), behind(x), neg(ahead(x)), neg(behind(x), True), cat(x), alt(x)]
    small = [A, string("ab")]
    for e in lvl1:
        put(e, ab, ops=M | P | S)
        for x in small if not deep else base:
            put(cat(e, x), ab)
            put(cat(x, e, op=True), ab)
            put(alt(e, x, op=True), ab, ops=M | P)
            put(alt(x, e), ab, ops=P)
        put(star(e), ab)
        put(rep("between", "1, 2", "{1,2}", e, mode="?"), ab, ops=P | S)
        if deep:
            put(plus(e), ab)
            put(atomic(e), ab)
            put(ahead(e), ab, ops=S)
            put(behind(e), ab, ops=S)
            put(neg(behind(e)), ab, ops=S)
            put(capture(1, e), ab)
    if deep:
        for x, y in itertools.product(lvl1[::3], repeat=2):
            put(cat(x, y), ab)
            put(alt(x, y), ab, ops=P)
    # Arities, associativity and flattening
    xs = [A, string("ab"), B, alt(A, B), star(A), embedded("b|ba"), atomic(alt(A, string("ab"))), E("xpr::wildcard", ".")]
    for k in range(1, 7):
        for off in range(len(xs)):
            es = [xs[(off + i) % len(xs)] for i in range(k)]
            for op in (None, True):
                put(cat(*es, op=op), ab)
                put(alt(*es, op=op), ab, ops=P)
            for f in (atomic, ahead, behind):
                put(f(*es), ab, ops=S)
            put(capture(1, *es), ab)
            put(rep("one_or_more", "", "+", *es), ab)
            if k >= 3:
                put(cat(es[0], cat(*es[1:])), ab)
                put(cat(cat(*es[:-1], op=True), es[-1], op=True), ab)
                put(alt(es[0], alt(*es[1:])), ab, ops=P)
                put(alt(alt(*es[:2], op=True), alt(*es[2:], op=True), op=True), ab, ops=P)
                put(cat(cat(*es[:2]), cat(*es[2:]), op=True), ab)
                put(alt(cat(*es[:2]), cat(*es[2:])), ab, ops=P)
                put(cat(alt(*es[:2]), alt(*es[2:])), ab)
    for k in (8, 10, 12, 16, 17, 24):
        es = [chars(LET[i]) for i in range(k)]
        w = LET[:k]
        f = ex.family(uniq(near_words(w, k, "a~", k) + [w[:-1], w + "a", "", w[1:], w + w, "~" + w] + list(LET[:k + 2])))
        for op in (None, True):
            put(cat(*es, op=op), f, ops=7)
            put(alt(*es, op=op), f, ops=7)
            put(cat(*[maybe(e) for e in es], op=op), f, ops=M | P)
            put(alt(*[string(LET[i:i + 2]) for i in range(k)], op=op), f, ops=7)
        put(string(w), f, ops=7)
        put(cat(string(w[:k // 2]), string(w[k // 2:])), f, ops=7)
        put(atomic(*es), f)
        put(ahead(*es), f, ops=S)
        put(behind(*es), f, ops=S)
        put(capture(1, *es), f)
        put(rep("exactly", "2", "{2}", *es), f)
        put(neg(alt(*es)) if alt(*es).neg else E("(!%s)" % ("xpr::regex<%s>" % cstr("[" + w + "]")), "[^" + w + "]"), f)
    # Long strings, names and embedded patterns
    for k in (25, 30, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257):
        w = "".join(LET[(i * i + i // 7) % len(LET)] for i in range(k))
        at = sorted({0, 1, k // 2, k - 2, k - 1} | {x for x in (15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255) if x < k})
        f = ex.family(uniq([w[:i] + "~" + w[i + 1:] for i in at] + [w[:i] for i in at] + [w, w + "a", "", w[1:], w + w, "~" + w]))
        put(string(w), f, ops=7)
        put(embedded(w, SEQ), f, ops=7)
        if k in (33, 65, 129, 257):
            put(capture(1, string(w), name=w), f, ops=7)
            put(cat(capture(1, chars(w[0]), name=w), E("xpr::group_named<%s>" % cstr(w), "\\k<%s>" % w)), f, ops=7)
            put(alt(string(w[:-1] + "~"), string(w), op=True), f, ops=7)
            put(rep("maybe", "", "?", string(w)), f, ops=7)
    # Larger counts
    for c in [4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 99, 100, 101] + [127, 128, 255, 256, 257, 300]:
        f = ex.family(uniq(u * i + t for u in ("a", "ab") for i in (0, 1, 2, c // 10, c - 2, c - 1, c, c + 1, c + 2, 2 * c) for t in ("", "b", "c")))
        for es in [(A,), (A, B)] if c < 34 else [(A,)]:
            for mode in MODES:
                put(rep("at_least", "%d" % c, "{%d,}" % c, *es, mode=mode), f, ops=M | P)
                put(rep("exactly", "%d" % c, "{%d}" % c, *es, mode=mode), f, ops=M | P)
                for lo, hi in [(0, c), (1, c), (c - 2, c), (c - 1, c + 1), (c, c)]:
                    put(rep("between", "%d, %d" % (lo, hi), "{%d,%d}" % (lo, hi), *es, mode=mode), f, ops=M | P)
            put(rep("exactly", "%d" % c, "{%d}" % c, *es), f, UNROLL, M | P)
    # Every byte as a character, alone and in a string
    for c in range(256):
        if c % 2 == 0 or deep or 0x3f <= c <= 0x7b:
            x = E("xpr::chr<'\\x%02x'>" % c, "\\x%02x" % c, neg="[^\\x%02x]" % c)
            put(x, byt)
            if 0x3f <= c <= 0x7b or deep:
                put(x, byt, ICASE)
        if (c % 2 or deep) and c:
            put(neg(E("xpr::chr<'\\x%02x'>" % c, "\\x%02x" % c, neg="[^\\x%02x]" % c)), byt)
            put(E('xpr::str<"a\\%03o">' % c, "a\\x%02x" % c, SEQ), ex.family([b"a" + bytes([d]) for d in range(256)] + [b"a", b"aa"]), ops=M)
    # Negations of sets, and of embedded ones
    for x in ["ab", "a-c", "\\d", "^a", "a-cx-z", "\\dab", "^\\w", "\\s\\d", "\\x80-\\xff", "^\\x00-\\x7f", "A-Z"]:
        pos, ngt = "[" + x + "]", "[" + x[1:] + "]" if x[0] == "^" else "[^" + x + "]"
        e = embedded(pos, ATOM, neg=ngt)
        for fl in (0, ICASE):
            put(e, byt, fl)
            put(neg(e), byt, fl)
            put(neg(e, True), byt, fl, S)
            put(neg(neg(e), True), byt, fl)
            put(star(neg(e)), byt, fl)
    # The same through iterators that only step
    for e in [star(alt(A, string("ab"))), cat(A, rep("between", "1, 2", "{1,2}", B), A), cat(capture(1, alt(A, B)), E("xpr::group<1>", "\\1")), ahead(string("ab")), cat(behind(A), B), atomic(alt(A, string("ab"))), rep("exactly", "3", "{3}", alt(A, B)), string("aba"), neg(A),
              rep("at_least", "2", "{2,}", string("ab"), mode="?"), rep("one_or_more", "", "+", A, mode="+"), cat(E("xpr::word_boundary", "\\b"), A), cat(E("xpr::begin_line", "^"), A), cat(A, E("xpr::end_line", "$"))]:
        for fl in (0, ICASE, UNROLL, UNGREEDY, MULTILINE):
            n[0] += 1
            ex.add(e.pat, case if fl & ICASE else lines, flags=fl, ops=7, ctype=ctype(e, fl, 0), macro="VH_CASE_B")
    # Groups and references
    g = E("xpr::group<1>", "\\1")
    g2 = E("xpr::group<2>", "\\2")
    gn = E('xpr::group_named<"n">', "\\k<n>")
    for x in [A, alt(A, B), star(A), alt(string("ab"), A), E("xpr::wildcard", "."), embedded("[ab]+?")]:
        for y in [g, star(g), alt(g, B), cat(B, g), rep("maybe", "", "?", g, mode="?"), ahead(g), neg(ahead(g)), behind(g), atomic(g)]:
            put(cat(capture(1, x), y), ab7)
            put(star(cat(capture(1, x), y)), ab7, ops=M)
        put(cat(capture(1, x, name="n"), gn), ab7, ops=M | P | S)
        put(cat(capture(1, x), capture(2, B, name="n"), gn, g), ab7, ops=M | P | S)
        put(cat(capture(1, capture(2, x), B), g2, g), ab7, ops=M | P | S)
        put(alt(capture(1, x), capture(2, cat(B, rep("maybe", "", "?", g)))), ab7, ops=M | P | S)
        put(cat(ahead(capture(1, x)), g), ab7)
        put(cat(behind(capture(1, x)), g), ab7, ops=S)
        put(cat(embedded("(a|b)(b)?", SEQ, 2), capture(3, x), E("xpr::group<3>", "\\3"), g), ab7)
        put(cat(capture(1, x), embedded("a|b*", ALT), E("xpr::maybe(xpr::group<1>)", "\\1?", SEQ)), ab7)
    for k in (3, 5, 9, 12):
        es = [capture(i + 1, chars("abcdefghijkl"[i]), name="g%d" % i if i % 2 else None) for i in range(k)]
        w = "abcdefghijkl"[:k]
        f = ex.family(uniq([w, w[:-1], w + w[-1], w + w[0], "x" + w] + list(w) + [w[i:] for i in range(k)]))
        put(cat(*es), f, ops=7)
        put(alt(*es), f, ops=7)
        put(star(alt(*es, op=True)), f, ops=7)
        put(cat(*es, *[E("xpr::maybe(xpr::group<%d>)" % (i + 1), "\\%d?" % (i + 1), SEQ) for i in range(k)]), f, ops=7)
    # Flags, however given
    for e in [star(alt(A, chars("B"))), cat(string("aB"), rep("maybe", "", "?", A)), cat(capture(1, embedded("[a-b]+")), g), star(E("xpr::range<'a', 'b'>", "[a-b]")), cat(star(E("xpr::wildcard", ".")), B),
              rep("exactly", "2", "{2}", alt(A, chars("B"))), rep("between", "1, 3", "{1,3}", A, mode="?"), atomic(star(A)), neg(chars("a"))]:
        for fl in (0, ICASE, ICASE | UNGREEDY, UNROLL, UNROLL | ICASE, DOTALL | MULTILINE, UNGREEDY):
            for how in ((0, 1, 2) if fl else (0, 2)):
                put(e, case, fl, M | P | S, how)
    return ["%d expressions: every terminal and character with its negation on all 256 bytes; every quantifying function in every mode on %d operand lists; all compositions of 4 operands with 2 operators and, with selected third operators, of 3; arities 1-6 in 8 rotations with both associativities, up to 24 in 12 forms; counts up to 300; captures and references up to group 12; flags given in 3 ways" % (n[0], len(operands)),
            "all inputs over {a,b} up to length 6 or 7"]


def maybe(*es):
    return rep("maybe", "", "?", *es)


def maybe_any():
    return rep("maybe", "", "?", E("xpr::wildcard", "."))
