"""Which function decides which property."""
from . import constant, expressions, generators, iterators, matching, parsing, purity, results

ASSUMPTIONS = [
    "g++ 13 compiles the instantiated library as it would compile a user's program",
    "the reference machine (model/ref.hpp) states the documented dialect; it is cross-checked against a denotational semantics on every execution of the pure fragment",
]


def simple(fill, **kw):
    return lambda ctx: ctx.explore("space", fill, **kw)


CHECKS = {
    "C01": simple(matching.c01),
    "C02": simple(matching.c02),
    "C03": simple(matching.c03),
    "C04": simple(matching.c04),
    "C05": simple(matching.c05),
    "C06": simple(matching.c06),
    "C07": simple(matching.c07),
    "C08": simple(matching.c08),
    "C09": simple(matching.c09),
    "C10": simple(matching.c10),
    "C11": simple(iterators.c11, header="impl_iters.hpp", per_tu=12),
    "C12": generators.c12,
    "C13": parsing.c13,
    "C14": simple(matching.c14),
    "C15": parsing.c15,
    "C16": simple(expressions.c16, per_tu=25),
    "C17": results.c17,
    "C18": constant.c18,
    "C19": purity.c19,
}
