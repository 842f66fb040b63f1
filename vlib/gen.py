"""Enumeration of pattern syntax trees in order of size.

A tree is a pair (text, level): level 0 = atom (may be quantified as is), 1 = sequence or quantified element, 2 = alternation.
"""
import itertools

ATOM, SEQ, ALT = 0, 1, 2


def grp(e):
    return e[0] if e[1] == ATOM else "(?:" + e[0] + ")"


def quant(e, q):
    return (grp(e) + q, SEQ)


def cat(*es):
    return ("".join("(?:" + e[0] + ")" if e[1] == ALT else e[0] for e in es), SEQ)


def alt(*es):
    return ("|".join(e[0] for e in es), ALT)


def cap(e, name=None):
    return ("(" + ("?<%s>" % name if name else "") + e[0] + ")", ATOM)


def atomic(e):
    return ("(?>" + e[0] + ")", ATOM)


def look(e, kind):
    return ("(?" + kind + e[0] + ")", ATOM)


def exprs(size, atoms, quants, unary=(), with_cat=True, with_alt=True, memo=None):
    """All trees with exactly `size` operators. `unary` is a list of functions tree -> tree."""
    if memo is None:
        memo = {}
    if size in memo:
        return memo[size]
    if size == 0:
        out = [(a, ATOM) for a in atoms]
    else:
        out = []
        for e in exprs(size - 1, atoms, quants, unary, with_cat, with_alt, memo):
            for q in quants:
                out.append(quant(e, q))
            for u in unary:
                out.append(u(e))
        for i in range(size):
            ls = exprs(i, atoms, quants, unary, with_cat, with_alt, memo)
            rs = exprs(size - 1 - i, atoms, quants, unary, with_cat, with_alt, memo)
            for l, r in itertools.product(ls, rs):
                if with_cat:
                    out.append(cat(l, r))
                if with_alt:
                    out.append(alt(l, r))
    memo[size] = out
    return out


def upto(size, *a, **k):
    memo = {}
    out = []
    for n in range(size + 1):
        out += exprs(n, *a, memo=memo, **k)
    return out


def texts(es):
    seen = set()
    out = []
    for e in es:
        if e[0] not in seen:
            seen.add(e[0])
            out.append(e[0])
    return out


def canon_ab(ts):
    """Keeps one of each pair of patterns that differ by swapping the letters a and b."""
    tr = str.maketrans("ab", "ba")
    seen = set()
    out = []
    for t in ts:
        if t.translate(tr) in seen:
            continue
        seen.add(t)
        out.append(t)
    return out
