// Shared between the generated units and the driver that explores generators and ranges.
#ifndef VERIF_GENCASES_HPP
#define VERIF_GENCASES_HPP

#include "cases.hpp"

namespace vh
{
    enum Kind { TOKENIZER = 0, SEARCHER = 1, TOKENIZE = 2, FIND_ALL = 3 };

    // Two live objects of the same kind over the same input
    struct System
    {
        virtual ~System() = default;
        virtual System *clone() const = 0;
        // Performs an operation; operations that yield a result store it
        virtual void apply(int op, Obs &out) = 0;
        // Generators: active(). Ranges: the number of views of "not at the end" that hold (5 or 0 expected)
        virtual int live(int slot) = 0;
        // Ranges: the current result, seen in several ways
        virtual void current(int slot, int way, Obs &out) = 0;
    };

    // Generator operations and range operations; the texts are for replays
    enum GenOp { NEXT0, CALL0, NEXT1, COPY01, COPY10, MOVE01, FRESH1, GEN_OPS };
    enum RangeOp { PRE0, POST0, PRE1, BEGIN0, RCOPY01, RCOPY10, RFRESH1, RANGE_OPS };

    // Drains the object in one of several linear ways, appending every observation
    using DrainFn = int (*)(int kind, int way, char const *b, char const *e, Obs *out, int limit);
    using MakeFn = System *(*)(int kind, char const *b, char const *e);

    struct GenCase
    {
        MakeFn make;
        DrainFn drain;
    };

    inline constexpr int DRAIN_WAYS = 9;
}
#endif
