// Runs every operation through iterators of every category, whose every step is monitored, and through every kind of range, and
// compares each outcome with the outcome through plain pointers (which the driver compares with the reference machine).
#ifndef VERIF_IMPL_ITERS_HPP
#define VERIF_IMPL_ITERS_HPP

#include "impl.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <span>
#include <string>
#include <vector>

namespace vh
{
    struct Monitor
    {
        char const *lo = nullptr, *hi = nullptr;
        char const *problem = nullptr;
        void fail(char const *what) noexcept
        {
            if (!problem)
                problem = what;
        }
    };

    // Observes every operation the library performs on its iterators. Tag decides which operations exist.
    template<typename Tag, bool ByValue>
    struct It
    {
        using iterator_category = Tag;
        using iterator_concept = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = std::conditional_t<ByValue, char, char const &>;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
        static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;

        char const *p = nullptr;
        Monitor *m = nullptr;

        constexpr It() noexcept = default;
        constexpr It(char const *at, Monitor *mon) noexcept : p{at}, m{mon} {}

        static char const &nowhere() noexcept
        {
            static char const c = '\0';
            return c;
        }
        reference operator*() const noexcept
        {
            if (!m)
                return nowhere();
            if (p >= m->hi)
                return m->fail("dereferenced the end of the input"), nowhere();
            if (p < m->lo)
                return m->fail("dereferenced an iterator before the input"), nowhere();
            return *p;
        }
        It &operator++() noexcept
        {
            if (!m)
                return *this;
            if (p >= m->hi)
                m->fail("moved beyond the end of the input");
            else
                ++p;
            return *this;
        }
        It operator++(int) noexcept
        {
            It old{*this};
            ++*this;
            return old;
        }
        It &operator--() noexcept requires bidi
        {
            if (!m)
                return *this;
            if (p <= m->lo)
                m->fail("moved before the beginning of the input");
            else
                --p;
            return *this;
        }
        It operator--(int) noexcept requires bidi
        {
            It old{*this};
            --*this;
            return old;
        }
        It &operator+=(difference_type n) noexcept requires ra
        {
            if (!m)
                return *this;
            if (n > m->hi - p)
                m->fail("moved beyond the end of the input"), p = m->hi;
            else if (n < m->lo - p)
                m->fail("moved before the beginning of the input"), p = m->lo;
            else
                p += n;
            return *this;
        }
        It &operator-=(difference_type n) noexcept requires ra { return *this += -n; }
        friend It operator+(It i, difference_type n) noexcept requires ra { return i += n; }
        friend It operator+(difference_type n, It i) noexcept requires ra { return i += n; }
        friend It operator-(It i, difference_type n) noexcept requires ra { return i -= n; }
        friend difference_type operator-(It const &a, It const &b) noexcept requires ra
        {
            a.together(b);
            return a.p - b.p;
        }
        reference operator[](difference_type n) const noexcept requires ra { return *(*this + n); }
        friend bool operator==(It const &a, It const &b) noexcept
        {
            a.together(b);
            return a.p == b.p;
        }
        friend auto operator<=>(It const &a, It const &b) noexcept requires ra
        {
            a.together(b);
            return a.p <=> b.p;
        }
        void together(It const &o) const noexcept
        {
            if (m != o.m)
                (m ? m : o.m)->fail("combined an iterator of the input with a singular one");
        }
    };

    using Fwd = It<std::forward_iterator_tag, true>;
    using Bidi = It<std::bidirectional_iterator_tag, false>;
    using Rand = It<std::random_access_iterator_tag, false>;
    static_assert(std::forward_iterator<Fwd> && !std::bidirectional_iterator<Fwd>);
    static_assert(std::bidirectional_iterator<Bidi> && !std::random_access_iterator<Bidi>);
    static_assert(std::random_access_iterator<Rand> && !std::contiguous_iterator<Rand>);

    template<typename Regex, int Op, typename Iter>
    auto invoke_op(Iter b, Iter e)
    {
        if constexpr (Op == MATCH)
            return Regex::match(b, e);
        else if constexpr (Op == PREFIX)
            return Regex::match_prefix(b, e);
        else
            return Regex::search(b, e);
    }

    // Where an iterator of a container points to.
    template<typename Iter>
    int offset(Iter from, Iter to)
    {
        return static_cast<int>(std::distance(from, to));
    }

    template<typename T>
    bool bytes_equal(T const &content, char const *b, int s, int e)
    {
        int i = s;
        for (auto c : content)
        {
            if (i >= e || static_cast<char>(c) != b[i])
                return false;
            ++i;
        }
        return i == e;
    }

    // Compares a result over another kind of sequence with the pointers' one. position(iterator) is an offset or -1.
    template<typename Result, typename Position>
    void compare(Result const &r, Obs &o, char const *base, Position position, char const *what)
    {
        if (o.problem)
            return;
        bool ok = r.matched() == o.matched && static_cast<bool>(r) == o.matched && static_cast<long>(r.length()) == o.len[0];
        int k = 0;
        r.for_each_group([&](auto const &g) {
            if (k < o.groups && k < MAXG)
            {
                if (static_cast<long>(g.length()) != o.len[k] || g.is_empty() != (o.len[k] == 0))
                    ok = false;
                if (o.len[k] > 0)
                {
                    int const s = position(g.begin()), e = position(g.end());
                    if (s >= -1 && (s != o.s[k] || e != o.e[k]))
                        ok = false;
                    if (!bytes_equal(g.content(), base, o.s[k], o.e[k]))
                        ok = false;
                }
            }
            ++k;
        });
        if (k != o.groups || !ok)
            o.problem = what;
    }

    template<typename Regex, int Op, typename Iter>
    void through(char const *b, char const *e, Obs &o, char const *what)
    {
        // The whole range, and the same range with the monitor knowing nothing outside of it
        Monitor mon;
        mon.lo = b;
        mon.hi = e;
        auto r = invoke_op<Regex, Op>(Iter{b, &mon}, Iter{e, &mon});
        char const *trouble = mon.problem;
        compare(r, o, b, [&](Iter const &i) { return i.m ? static_cast<int>(i.p - b) : -1; }, what);
        if (trouble)
            o.problem = trouble;
        else if (mon.problem && !o.problem)
            o.problem = mon.problem;
    }

    // The results of a generator and of the range over it, as a hash-free list of spans
    template<typename Iter, typename Gen, typename Position>
    std::vector<int> drain(Gen gen, Position position, int limit)
    {
        std::vector<int> out;
        for (int i = 0; i < limit; ++i)
        {
            auto r = gen.next();
            if (!r)
                break;
            r.for_each_group([&](auto const &g) {
                out.push_back(g.is_empty() ? -1 : position(g.begin()));
                out.push_back(g.is_empty() ? -1 : position(g.end()));
            });
        }
        return out;
    }

    template<typename Range, typename Position>
    std::vector<int> drain_range(Range range, Position position, int limit)
    {
        std::vector<int> out;
        for (auto &r : range)
        {
            if (limit-- <= 0)
                break;
            r.for_each_group([&](auto const &g) {
                out.push_back(g.is_empty() ? -1 : position(g.begin()));
                out.push_back(g.is_empty() ? -1 : position(g.end()));
            });
        }
        return out;
    }

    template<typename Regex, typename Iter>
    void generators_through(char const *b, char const *e, Obs &o, char const *what)
    {
        if (o.problem)
            return;
        int const limit = static_cast<int>(e - b) + 3;
        auto at = [&](char const *p) { return static_cast<int>(p - b); };
        Monitor mon;
        mon.lo = b;
        mon.hi = e;
        Iter ib{b, &mon}, ie{e, &mon};
        auto pos = [&](Iter const &i) { return static_cast<int>(i.p - b); };
        bool same = drain<Iter>(Regex::tokenizer(ib, ie), pos, limit) == drain<char const *>(Regex::tokenizer(b, e), at, limit)
                    && drain<Iter>(Regex::searcher(ib, ie), pos, limit) == drain<char const *>(Regex::searcher(b, e), at, limit)
                    && drain_range(Regex::tokenize(ib, ie), pos, limit) == drain_range(Regex::tokenize(b, e), at, limit)
                    && drain_range(Regex::find_all(ib, ie), pos, limit) == drain_range(Regex::find_all(b, e), at, limit);
        if (mon.problem)
            o.problem = mon.problem;
        else if (!same)
            o.problem = what;
    }

    // Kinds: bit 0 forward, bit 1 bidirectional, bit 2 random access, bit 3 generators
    template<typename Regex, int Op, unsigned Kinds>
    void all_iterators(char const *b, char const *e, Obs &o)
    {
        observe(invoke_op<Regex, Op>(b, e), b, o);
        if constexpr ((Kinds & 1u) != 0)
            through<Regex, Op, Fwd>(b, e, o, "differs on forward iterators");
        if constexpr ((Kinds & 2u) != 0)
            through<Regex, Op, Bidi>(b, e, o, "differs on bidirectional iterators");
        if constexpr ((Kinds & 4u) != 0)
            through<Regex, Op, Rand>(b, e, o, "differs on random-access iterators");
        if constexpr ((Kinds & 8u) != 0 && Op == SEARCH)
        {
            if constexpr ((Kinds & 1u) != 0)
                generators_through<Regex, Fwd>(b, e, o, "iteration differs on forward iterators");
            generators_through<Regex, Bidi>(b, e, o, "iteration differs on bidirectional iterators");
            generators_through<Regex, Rand>(b, e, o, "iteration differs on random-access iterators");
        }
    }

    template<unsigned Ops, unsigned Kinds, typename Regex>
    void run_iters(int op, char const *begin, char const *end, Obs &out)
    {
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return all_iterators<Regex, MATCH, Kinds>(begin, end, out);
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return all_iterators<Regex, PREFIX, Kinds>(begin, end, out);
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return all_iterators<Regex, SEARCH, Kinds>(begin, end, out);
    }

    template<typename Regex, int Op, typename Range>
    auto invoke_range(Range &&r)
    {
        if constexpr (Op == MATCH)
            return Regex::match(std::forward<Range>(r));
        else if constexpr (Op == PREFIX)
            return Regex::match_prefix(std::forward<Range>(r));
        else
            return Regex::search(std::forward<Range>(r));
    }

    inline constexpr auto no_position = [](auto const &) { return -2; };

    template<typename Regex, int Op, typename Container>
    void container(char const *b, char const *e, Obs &o, char const *what)
    {
        if (o.problem)
            return;
        Container c(b, e);
        Container const &cc = c;
        {
            auto r = invoke_range<Regex, Op>(c);
            compare(r, o, b, [&](auto const &i) { return offset(cc.begin(), typename Container::const_iterator(i)); }, what);
        }
        {
            auto r = invoke_range<Regex, Op>(cc);
            compare(r, o, b, [&](auto const &i) { return offset(cc.begin(), typename Container::const_iterator(i)); }, what);
        }
        {
            auto r = invoke_range<Regex, Op>(Container(b, e)); // the result owns its text
            compare(r, o, b, no_position, what);
        }
        {
            auto r = invoke_op<Regex, Op>(c.begin(), c.end());
            compare(r, o, b, [&](auto const &i) { return offset(cc.begin(), typename Container::const_iterator(i)); }, what);
        }
        if (!bytes_equal(c, b, 0, static_cast<int>(e - b)))
            o.problem = "wrote to the input";
    }

    // A sequence of other byte-sized characters, and a view that computes its characters
    template<typename Char>
    struct Computed
    {
        char const *b, *e;
        struct iterator
        {
            using value_type = Char;
            using difference_type = std::ptrdiff_t;
            using reference = Char;
            using pointer = void;
            using iterator_category = std::input_iterator_tag;
            using iterator_concept = std::forward_iterator_tag;
            char const *p = nullptr;
            Char operator*() const noexcept { return static_cast<Char>(*p); }
            iterator &operator++() noexcept { ++p; return *this; }
            iterator operator++(int) noexcept { auto o = *this; ++p; return o; }
            bool operator==(iterator const &) const noexcept = default;
        };
        iterator begin() const noexcept { return {b}; }
        iterator end() const noexcept { return {e}; }
    };

    template<typename Regex, int Op, unsigned Kinds>
    void all_ranges(char const *b, char const *e, Obs &o)
    {
        observe(invoke_op<Regex, Op>(b, e), b, o);
        auto n = static_cast<std::size_t>(e - b);
        auto at = [&](char const *p) { return static_cast<int>(p - b); };
        {
            std::string_view sv{b, n};
            compare(invoke_range<Regex, Op>(sv), o, b, at, "differs on a string_view");
            std::string_view const csv{b, n};
            compare(invoke_range<Regex, Op>(csv), o, b, at, "differs on a const string_view");
            compare(invoke_range<Regex, Op>(std::string_view{b, n}), o, b, at, "differs on a temporary string_view");
            std::span<char const> sp{b, n};
            compare(invoke_range<Regex, Op>(sp), o, b, [&](auto const &i) { return static_cast<int>(i - sp.begin()); }, "differs on a span");
        }
        container<Regex, Op, std::string>(b, e, o, "differs on a string");
        container<Regex, Op, std::vector<char>>(b, e, o, "differs on a vector");
        container<Regex, Op, std::deque<char>>(b, e, o, "differs on a deque");
        container<Regex, Op, std::list<char>>(b, e, o, "differs on a list");
        if constexpr ((Kinds & 1u) != 0)
            container<Regex, Op, std::forward_list<char>>(b, e, o, "differs on a forward_list");
        if constexpr ((Kinds & 1u) != 0)
            compare(invoke_range<Regex, Op>(Computed<char>{b, e}), o, b, [&](auto const &i) { return static_cast<int>(i.p - b); }, "differs on a computed range");
        // C strings: up to the first null character
        if (std::char_traits<char>::find(b, n, '\0') == nullptr)
        {
            std::string z(b, e);
            char const *c = z.c_str();
            compare(invoke_range<Regex, Op>(c), o, b, [&](char const *p) { return static_cast<int>(p - c); }, "differs on a C string");
            char *m = z.data();
            compare(invoke_range<Regex, Op>(m), o, b, [&](char const *p) { return static_cast<int>(p - m); }, "differs on a mutable C string");
        }
        // The middle of larger sequences
        {
            std::string big = "ab_\n" + std::string(b, e) + "a\nb_";
            auto sb = big.begin() + 4, se = sb + static_cast<std::ptrdiff_t>(n);
            compare(invoke_op<Regex, Op>(sb, se), o, b, [&](auto const &i) { return static_cast<int>(i - sb); }, "differs on the middle of a string");
            std::list<char> l(big.begin(), big.end());
            auto lb = std::next(l.begin(), 4), le = std::next(lb, static_cast<std::ptrdiff_t>(n));
            compare(invoke_op<Regex, Op>(lb, le), o, b, [&](auto const &i) { return offset(lb, std::list<char>::iterator(i)); }, "differs on the middle of a list");
            auto ib = std::make_reverse_iterator(big.rend());
            compare(invoke_op<Regex, Op>(ib + 4, ib + 4 + static_cast<std::ptrdiff_t>(n)), o, b, [&](auto const &i) { return static_cast<int>(i - ib) - 4; }, "differs on an adapted iterator");
        }
    }

    // Iteration over a range through the overloads that take ranges
    template<typename Regex, typename Range, typename Position>
    bool same_iteration(Range &&range, Position pos, char const *b, char const *e)
    {
        int const limit = static_cast<int>(e - b) + 3;
        auto at = [&](char const *p) { return static_cast<int>(p - b); };
        return drain<char const *>(Regex::tokenizer(range), pos, limit) == drain<char const *>(Regex::tokenizer(b, e), at, limit)
               && drain<char const *>(Regex::searcher(range), pos, limit) == drain<char const *>(Regex::searcher(b, e), at, limit)
               && drain_range(Regex::tokenize(range), pos, limit) == drain_range(Regex::tokenize(b, e), at, limit)
               && drain_range(Regex::find_all(range), pos, limit) == drain_range(Regex::find_all(b, e), at, limit);
    }

    template<typename Regex, typename Container>
    void iterated_container(char const *b, char const *e, Obs &o, char const *what)
    {
        if (o.problem)
            return;
        Container c(b, e);
        Container const &cc = c;
        auto pos = [&](auto const &i) { return offset(cc.begin(), typename Container::const_iterator(i)); };
        if (!same_iteration<Regex>(c, pos, b, e) || !same_iteration<Regex>(cc, pos, b, e))
            o.problem = what;
        else if (!bytes_equal(c, b, 0, static_cast<int>(e - b)))
            o.problem = "wrote to the input";
    }

    template<typename Regex, unsigned Kinds>
    void all_iterated_ranges(char const *b, char const *e, Obs &o)
    {
        auto n = static_cast<std::size_t>(e - b);
        if (o.problem)
            return;
        std::string_view sv{b, n};
        if (!same_iteration<Regex>(sv, [&](auto const &i) { return static_cast<int>(i - sv.begin()); }, b, e))
            o.problem = "iteration differs on a string_view";
        std::span<char const> sp{b, n};
        if (!same_iteration<Regex>(sp, [&](auto const &i) { return static_cast<int>(i - sp.begin()); }, b, e))
            o.problem = "iteration differs on a span";
        iterated_container<Regex, std::string>(b, e, o, "iteration differs on a string");
        iterated_container<Regex, std::vector<char>>(b, e, o, "iteration differs on a vector");
        iterated_container<Regex, std::deque<char>>(b, e, o, "iteration differs on a deque");
        iterated_container<Regex, std::list<char>>(b, e, o, "iteration differs on a list");
        if constexpr ((Kinds & 1u) != 0)
            iterated_container<Regex, std::forward_list<char>>(b, e, o, "iteration differs on a forward_list");
        if (!o.problem && std::char_traits<char>::find(b, n, '\0') == nullptr)
        {
            std::string z(b, e);
            char const *c = z.c_str();
            if (!same_iteration<Regex>(c, [&](char const *p) { return static_cast<int>(p - c); }, b, e))
                o.problem = "iteration differs on a C string";
        }
    }

    template<unsigned Ops, unsigned Kinds, typename Regex>
    void run_ranges(int op, char const *begin, char const *end, Obs &out)
    {
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return all_ranges<Regex, MATCH, Kinds>(begin, end, out);
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return all_ranges<Regex, PREFIX, Kinds>(begin, end, out);
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
            {
                all_ranges<Regex, SEARCH, Kinds>(begin, end, out);
                return all_iterated_ranges<Regex, Kinds>(begin, end, out);
            }
    }
}

#define VH_ITERS(KINDS, ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_iters<OPS, KINDS, __VA_ARGS__>}
#define VH_RANGES(KINDS, ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_ranges<OPS, KINDS, __VA_ARGS__>}
#define VH_I15(...) VH_ITERS(15u, __VA_ARGS__)
#define VH_I14(...) VH_ITERS(14u, __VA_ARGS__)
#define VH_I7(...) VH_ITERS(7u, __VA_ARGS__)
#define VH_I6(...) VH_ITERS(6u, __VA_ARGS__)
#define VH_I3(...) VH_ITERS(3u, __VA_ARGS__)
#define VH_I2(...) VH_ITERS(2u, __VA_ARGS__)
#define VH_R1(...) VH_RANGES(1u, __VA_ARGS__)
#define VH_R0(...) VH_RANGES(0u, __VA_ARGS__)
#endif
