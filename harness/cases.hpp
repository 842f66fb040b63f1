// Shared between the generated translation units (which include the library) and the driver (which does not).
#ifndef VERIF_CASES_HPP
#define VERIF_CASES_HPP

#include <cstddef>

namespace vh
{
    inline constexpr int MAXG = 128;

    struct Obs
    {
        bool matched;
        bool bool_conv;      // static_cast<bool>(result)
        long length;         // result.length()
        int groups;          // number of groups including the implicit one
        int s[MAXG], e[MAXG]; // offsets from the beginning of the input; -1 for a singular capture
        long len[MAXG];
        char const *name[MAXG]; // group names
        int name_len[MAXG];
        char const *problem; // set by a harness that noticed an inconsistency between accessors
    };

    using RunFn = void (*)(int op, char const *begin, char const *end, Obs &out);

    struct Case
    {
        int id;
        int family;
        unsigned flags;
        unsigned ops; // bit mask over operations
        char const *pattern;
        std::size_t length;
        RunFn run;
    };

    struct CaseList
    {
        Case const *cases;
        std::size_t count;
        CaseList *next;
    };

    void register_cases(CaseList *list);

    // States, transitions and comparisons a harness covers on its own
    inline unsigned long extra_states = 0, extra_transitions = 0, extra_checks = 0;

    struct Registrar
    {
        CaseList list;
        Registrar(Case const *cases, std::size_t count) : list{cases, count, nullptr} { register_cases(&list); }
    };

    enum Op { MATCH = 0, PREFIX = 1, SEARCH = 2 };
}
#endif
