// Included by generated translation units: adapts a regex type to the driver's observation interface.
#ifndef VERIF_IMPL_HPP
#define VERIF_IMPL_HPP

#include <mregex.hpp>
#include "cases.hpp"

namespace vh
{
    // The least a forward or bidirectional iterator offers
    template<bool Bidi>
    struct Step
    {
        using iterator_category = std::conditional_t<Bidi, std::bidirectional_iterator_tag, std::forward_iterator_tag>;
        using iterator_concept = iterator_category;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;

        char const *p = nullptr;

        constexpr reference operator*() const noexcept { return *p; }
        constexpr pointer operator->() const noexcept { return p; }
        constexpr Step &operator++() noexcept { return ++p, *this; }
        constexpr Step operator++(int) noexcept { return Step{p++}; }
        constexpr Step &operator--() noexcept requires Bidi { return --p, *this; }
        constexpr Step operator--(int) noexcept requires Bidi { return Step{p--}; }
        friend constexpr bool operator==(Step const &, Step const &) noexcept = default;
    };

    constexpr char const *raw(char const *p) { return p; }
    template<bool Bidi>
    char const *raw(Step<Bidi> p) { return p.p; }

    template<typename Result>
    void observe(Result const &r, char const *base, Obs &o)
    {
        o.matched = r.matched();
        o.bool_conv = static_cast<bool>(r);
        o.length = static_cast<long>(r.length());
        o.groups = 0;
        r.for_each_group([&](auto const &g) {
            if (o.groups >= MAXG)
                return;
            char const *b = raw(g.begin());
            char const *e = raw(g.end());
            o.s[o.groups] = b == nullptr ? -1 : static_cast<int>(b - base);
            o.e[o.groups] = e == nullptr ? -1 : static_cast<int>(e - base);
            o.len[o.groups] = static_cast<long>(g.length());
            auto n = g.name();
            o.name[o.groups] = n.data();
            o.name_len[o.groups] = static_cast<int>(n.size());
            ++o.groups;
        });
    }

    template<typename Regex, unsigned Ops>
    void run_regex(int op, char const *begin, char const *end, Obs &out)
    {
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return observe(Regex::match(begin, end), begin, out);
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return observe(Regex::match_prefix(begin, end), begin, out);
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return observe(Regex::search(begin, end), begin, out);
    }

    template<typename Iter, unsigned Ops, typename Regex>
    void run_step(int op, char const *begin, char const *end, Obs &out)
    {
        Iter const b{begin}, e{end};
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return observe(Regex::match(b, e), begin, out);
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return observe(Regex::match_prefix(b, e), begin, out);
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return observe(Regex::search(b, e), begin, out);
    }

    // Asserts that the group called Name is the group numbered N.
    template<meta::static_string Name, std::size_t N>
    struct NG
    {
        template<typename Result>
        static void check(Result const &r, Obs &o)
        {
            auto const &a = r.template group<Name>();
            auto const &b = r.template group<N>();
            auto const &c = r.template get<N>();
            if (a.begin() != b.begin() || a.end() != b.end() || c.begin() != b.begin() || c.end() != b.end())
                o.problem = "a group differs between access by name and by number";
            if (!a.has_name() || a.name() != b.name())
                o.problem = "a named group does not know its name";
            if (b.length() != static_cast<std::size_t>(o.len[N]))
                o.problem = "a group differs between access by number and iteration";
        }
    };

    template<unsigned Ops, typename Regex, typename... Named>
    void run_named(int op, char const *begin, char const *end, Obs &out)
    {
        auto look = [&](auto const &r) {
            observe(r, begin, out);
            (Named::check(r, out), ...);
        };
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return look(Regex::match(begin, end));
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return look(Regex::match_prefix(begin, end));
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return look(Regex::search(begin, end));
    }
}

using F = meta::regex_flag;
namespace xpr = meta::xpr;
using namespace meta::xpr::operators;
#define VH_CASE(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_regex<meta::regex<STR __VA_OPT__(,) __VA_ARGS__>, OPS>}
#define VH_CASE_N(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_named<OPS, __VA_ARGS__>}
// The same through iterators that are only forward, respectively bidirectional
#define VH_CASE_F(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_step<::vh::Step<false>, OPS, __VA_ARGS__>}
#define VH_CASE_B(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_step<::vh::Step<true>, OPS, __VA_ARGS__>}
// A case whose type is given explicitly and whose meaning is that of the pattern STR under FLAGS.
#define VH_CASE_T(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_regex<__VA_ARGS__, OPS>}
#endif
