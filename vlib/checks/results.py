"""C17: every accessor of every kind of result in every value category, and every short history of copies, moves and conversions."""
from ..core import DOTALL, Explorer, ICASE, M, MULTILINE, P, S, words
from .matching import uniq


class ResultExplorer(Explorer):
    """Built with the address sanitizer: reading a dangling view is a crash."""
    cxx_extra = ["-fsanitize=address"]
    env = {"ASAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:detect_leaks=0:use_sigaltstack=0:detect_stack_use_after_return=0:quarantine_size_mb=8"}

    def replay_text(self, c, op, inp, line):
        from ..core import harness_replay
        return harness_replay(self.header, c, op, inp)


# pattern, flags, names of its groups
PATTERNS = [
    ("a", 0, []), ("", 0, []), ("a*", 0, []), ("ab|b", 0, []), ("(?:a|b)+", 0, []),
    ("(a)", 0, []), ("(a)b?", 0, []), ("(?<x>a)", 0, [("x", 1)]), ("(?<name>a*)b", 0, [("name", 1)]),
    ("(a)|(b)", 0, []), ("(a)(b)", 0, []), ("(a)?(b)?", 0, []), ("(?<x>a)|(?<y>b)", 0, [("x", 1), ("y", 2)]), ("((a)b)", 0, []), ("(?<x>(a)|b)+", 0, [("x", 1)]),
    ("(a)(?<x>b)(a)", 0, [("x", 2)]), ("(?<a>a)(?<b>b?)(?<c>a|b)", 0, [("a", 1), ("b", 2), ("c", 3)]), ("(a+)(b+)(a*)", 0, []), ("(?<a>a)(?<aa>a)?(?<aaa>b)?", 0, [("a", 1), ("aa", 2), ("aaa", 3)]),
    ("(?=(a))(?<y>.)", 0, [("y", 2)]), ("(?<=(a))(b)", 0, []), ("(a|b)\\1", 0, []),
    ("(?<n>[ab])\\k<n>", 0, [("n", 1)]), ("(a)(b)?(a)?(b)?", 0, []), ("(?<w>.)(?<x>.)?(?<y>.)?(?<z>.)?(?<v>.)?", 0, [("w", 1), ("x", 2), ("y", 3), ("z", 4), ("v", 5)]),
    ("(a*)(b?)(a?)(b?)(a?)(b?)(a?)(b?)", 0, []), ("(?<all>.*)", 0, [("all", 1)]), ("([^b]*)(b.?)?", 0, []),
    ("(a)(?<g2>b)?(a)?(?<g4>b)?(?<g5>a)?(b)?(?<g7>a*)(?<g8>b)?(?<g9>a)?(?<g10>b)?(a)?", 0, [("g2", 2), ("g4", 4), ("g5", 5), ("g7", 7), ("g8", 8), ("g9", 9), ("g10", 10)]),
    ("(?<a_rather_long_name_of_a_group>a)(?<a_rather_long_name_of_a_groups>b)?(?<a_rather_long_name_of_a_grouq>a)?", 0, [("a_rather_long_name_of_a_group", 1), ("a_rather_long_name_of_a_groups", 2), ("a_rather_long_name_of_a_grouq", 3)]),
    ("(.)(.)(.)", DOTALL, []), ("(?<a_1>A)(b)", ICASE, [("a_1", 1)]), ("^(a)$", MULTILINE, []),
]
MORE = [
    ("(a)(b)(a)(b)", 0, []), ("(((a)))", 0, []), ("((a)|(b))*", 0, []), ("(?<p>a)(?<q>\\k<p>)", 0, [("p", 1), ("q", 2)]), ("(?>(a*))(b)", 0, []), ("(a)*+(b)", 0, []), ("()", 0, []), ("(a|())(b)", 0, []),
    ("(?<x1>a)(?<x2>b)|(?<x3>b)(?<x4>a)", 0, [("x1", 1), ("x2", 2), ("x3", 3), ("x4", 4)]), ("(?!(a))(b)", 0, []), ("(?<A>a)(?<a>b)", 0, [("A", 1), ("a", 2)]),
]


def extra(names):
    return "".join(', ::vh::Nm<"%s", %d>' % (n, k) for n, k in names)


def c17(ctx):
    def fill(ex, deep):
        # Short and long contents (strings keep short ones in place), NUL and high bytes
        far = ["a" * n + t for n in (14, 15, 16, 17, 40) for t in ("", "b", "ba")] + ["b" * 20, "ab" * 9, "a" * 300 + "b"]
        raw = ["\0", "a\0", "\0a", "a\0b", "\xff", "a\xffb", "b\0a"]
        ab = ex.family(uniq(words("ab", 3 if not deep else 5) + far + raw))
        one = ex.family(uniq(words("aAbB\n", 2) + ["\0\0\0", "a\0\xff", "\na\n", "\0\xffa\0"]))
        short = ex.family(uniq(words("ab", 2 if not deep else 3) + ["a" * 20, "a" * 20 + "b", "a\0b"]))
        pats = PATTERNS + (MORE if deep else [])
        for p, fl, names in pats:
            ex.add(p, one if fl else ab, flags=fl, ops=M | P | S if deep else (M | S if not fl else P | S), macro="VH_RES", extra=extra(names))
        hist = [x for x in pats if not x[1]]
        if not deep:
            hist = [x for x in hist if x[0] in ("a*", "(a)b?", "(?<x>a)|(?<y>b)", "(a)?(b)?", "(?<name>a*)b", "(a)(?<x>b)(a)")]
        for p, fl, names in hist:
            ex.add(p, short, flags=fl, ops=S if not deep else M | S, macro="VH_HIST4", extra=extra(names))
        return ["%d patterns with 1 to 11 groups, named and unnamed; all inputs over {a,b} up to length %d (or over aAbB and line breaks up to length 2); match, match_prefix, search" % (len(pats), 3 if not deep else 5),
                "for every such execution: views of pointers, strings, string_views, deques and lists and owning results of temporaries, moved strings and conversions, each read through every accessor in all four value categories, built with the address sanitizer",
                "%d of the patterns: every history of up to 4 of 13 operations (copy, move, convert, optional, swap, change text, overwrite the input, match again) on two owning results and two views, every state read through every accessor" % len(hist)]
    ctx.explore("space", fill, explorer=ResultExplorer, header="impl_result.hpp", per_tu=1, timeout=60, selfcheck=False)
