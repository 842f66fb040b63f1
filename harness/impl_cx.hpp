// Evaluates every operation both in a constant expression (the tables below) and at run time. The driver compares the run-time outcome
// with the reference machine; this harness compares the tables with it.
#ifndef VERIF_IMPL_CX_HPP
#define VERIF_IMPL_CX_HPP

#include "impl.hpp"
#include <array>
#include <optional>
#include <span>
#include <string_view>
#include <tuple>

namespace vh
{
    // Iterators of the weaker categories that can be used in constant expressions
    template<typename Tag>
    struct CIt
    {
        using iterator_category = Tag;
        using iterator_concept = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
        static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;
        char const *p = nullptr;
        constexpr reference operator*() const noexcept { return *p; }
        constexpr CIt &operator++() noexcept { ++p; return *this; }
        constexpr CIt operator++(int) noexcept { auto o = *this; ++p; return o; }
        constexpr CIt &operator--() noexcept requires bidi { --p; return *this; }
        constexpr CIt operator--(int) noexcept requires bidi { auto o = *this; --p; return o; }
        constexpr CIt &operator+=(difference_type n) noexcept requires ra { p += n; return *this; }
        constexpr CIt &operator-=(difference_type n) noexcept requires ra { p -= n; return *this; }
        friend constexpr CIt operator+(CIt i, difference_type n) noexcept requires ra { i.p += n; return i; }
        friend constexpr CIt operator+(difference_type n, CIt i) noexcept requires ra { i.p += n; return i; }
        friend constexpr CIt operator-(CIt i, difference_type n) noexcept requires ra { i.p -= n; return i; }
        friend constexpr difference_type operator-(CIt const &a, CIt const &b) noexcept requires ra { return a.p - b.p; }
        constexpr reference operator[](difference_type n) const noexcept requires ra { return p[n]; }
        constexpr bool operator==(CIt const &o) const noexcept { return p == o.p; }
        constexpr auto operator<=>(CIt const &o) const noexcept requires ra { return p <=> o.p; }
    };

    template<typename Tag> constexpr char const *raw(CIt<Tag> const &i) { return i.p; }

    template<std::size_t G>
    struct Enc
    {
        bool matched = false;
        std::array<short, G> s{}, e{};
        constexpr bool operator==(Enc const &) const = default;
    };

    template<typename Result>
    constexpr auto encode(Result const &r, char const *base)
    {
        constexpr std::size_t G = Result::group_count;
        Enc<G> x;
        x.matched = r.matched();
        std::size_t i = 0;
        r.for_each_group([&](auto const &g) {
            if (g.length() != 0)
            {
                x.s[i] = static_cast<short>(raw(g.begin()) - base);
                x.e[i] = static_cast<short>(raw(g.end()) - base);
            }
            ++i;
        });
        return x;
    }

    template<typename Regex, int Op, typename Iter>
    constexpr auto op_of(Iter b, Iter e)
    {
        if constexpr (Op == MATCH)
            return Regex::match(b, e);
        else if constexpr (Op == PREFIX)
            return Regex::match_prefix(b, e);
        else
            return Regex::search(b, e);
    }

    template<typename Regex, int Op, typename Range>
    constexpr auto op_range(Range const &r)
    {
        if constexpr (Op == MATCH)
            return Regex::match(r);
        else if constexpr (Op == PREFIX)
            return Regex::match_prefix(r);
        else
            return Regex::search(r);
    }

    // All accessors that can be evaluated in constant expressions agree with each other
    template<typename Result>
    constexpr bool accessors(Result r, char const *base)
    {
        auto const x = encode(r, base);
        constexpr std::size_t G = Result::group_count;
        bool ok = true;
        Result const c = r;
        ok = ok && static_cast<bool>(r) == x.matched && (r == x.matched) && c.matched() == x.matched;
        ok = ok && static_cast<int>(r.length()) == x.e[0] - x.s[0] && (x.e[0] == x.s[0] || (raw(c.begin()) - base == x.s[0] && raw(c.end()) - base == x.e[0]));
        auto group_ok = [&](auto const &g, std::size_t i) {
            bool good = static_cast<int>(g.length()) == x.e[i] - x.s[i] && g.is_empty() == (x.e[i] == x.s[i]) && static_cast<bool>(g) != g.is_empty();
            good = good && (g.is_empty() || raw(g.begin()) - base == x.s[i]);
            if constexpr (std::is_convertible_v<decltype(g), std::string_view>)
            {
                std::string_view sv = g;
                good = good && sv.size() == g.length() && g.content() == sv;
            }
            if constexpr (requires { g[0]; })
                for (std::size_t k = 0; good && k < g.length(); ++k)
                    good = g[k] == base[x.s[i] + static_cast<int>(k)];
            return good && g.has_name() == !g.name().empty();
        };
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            ok = ok && (group_ok(r.template group<I>(), I) && ...) && (group_ok(c.template group<I>(), I) && ...);
            ok = ok && (group_ok(r.template get<I>(), I) && ...) && (group_ok(c.template get<I>(), I) && ...);
            ok = ok && (group_ok(Result{r}.template group<I>(), I) && ...) && (group_ok(std::move(c).template group<I>(), I) && ...);
            ok = ok && (group_ok(meta::get_group<I>(r), I) && ...);
        }(std::make_index_sequence<G>{});
        auto lengths = c.transform_groups([](auto const &g) { return static_cast<int>(g.length()); });
        [&]<std::size_t... I>(std::index_sequence<I ...>) { ok = ok && ((std::get<I>(lengths) == x.e[I] - x.s[I]) && ...); }(std::make_index_sequence<G>{});
        auto o = r.as_optional();
        ok = ok && o.has_value() == x.matched && (!o || encode(*o, base) == x);
        ok = ok && c.as_optional().has_value() == x.matched && Result{r}.as_optional().has_value() == x.matched && std::move(c).as_optional().has_value() == x.matched;
        if constexpr (std::is_convertible_v<Result const &, std::string_view>)
        {
            std::string_view sv = c;
            ok = ok && static_cast<int>(sv.size()) == x.e[0] - x.s[0];
        }
        if constexpr (G == 1) { auto [a] = r; ok = ok && group_ok(a, 0); }
        if constexpr (G == 2) { auto [a, b] = r; ok = ok && group_ok(a, 0) && group_ok(b, 1); }
        if constexpr (G == 3) { auto const &[a, b, d] = c; ok = ok && group_ok(a, 0) && group_ok(b, 1) && group_ok(d, 2); }
        Result assigned;
        ok = ok && !assigned;
        assigned = c;
        return ok && encode(assigned, base) == x;
    }

    // Kinds: bit 0 forward iterators too, bit 1 bidirectional and random-access iterators too
    template<typename Regex, int Op, unsigned Kinds>
    constexpr auto evaluate(std::string_view in, bool &fine)
    {
        char const *b = in.data(), *e = in.data() + in.size();
        auto r = op_of<Regex, Op>(b, e);
        auto x = encode(r, b);
        fine = fine && accessors(r, b);
        fine = fine && encode(op_range<Regex, Op>(in), b) == x;
        if constexpr ((Kinds & 1u) != 0)
        {
            using I = CIt<std::forward_iterator_tag>;
            auto f = op_of<Regex, Op>(I{b}, I{e});
            fine = fine && encode(f, b) == x;
        }
        if constexpr ((Kinds & 2u) != 0)
        {
            using I = CIt<std::bidirectional_iterator_tag>;
            fine = fine && encode(op_of<Regex, Op>(I{b}, I{e}), b) == x;
            using J = CIt<std::random_access_iterator_tag>;
            fine = fine && encode(op_of<Regex, Op>(J{b}, J{e}), b) == x;
        }
        return x;
    }

    inline constexpr std::size_t MAXSEQ = 8;

    template<std::size_t G>
    struct Seq
    {
        std::size_t n = 0;
        std::array<Enc<G>, MAXSEQ> at{};
        constexpr void put(Enc<G> const &x)
        {
            if (n < MAXSEQ)
                at[n++] = x;
        }
        constexpr bool operator==(Seq const &) const = default;
    };

    // Successive results in four ways; Way 0 tokenizer, 1 searcher, 2 tokenize, 3 find_all
    template<typename Regex, int Way>
    constexpr auto sequence_of(char const *b, char const *e)
    {
        Seq<Regex::capture_count + 1> q;
        if constexpr (Way < 2)
        {
            auto g = [&] { if constexpr (Way == 0) return Regex::tokenizer(b, e); else return Regex::searcher(b, e); }();
            while (q.n < MAXSEQ)
            {
                bool live = g.active();
                auto r = q.n % 2 ? g() : g.next();
                q.put(encode(r, b));
                if (!live && !r)
                    break;
            }
        }
        else
        {
            auto range = [&] { if constexpr (Way == 2) return Regex::tokenize(b, e); else return Regex::find_all(b, e); }();
            auto copy = range;
            for (auto const &r : range)
            {
                q.put(encode(r, b));
                if (q.n >= MAXSEQ)
                    break;
            }
            std::size_t n = 0;
            for (auto i = copy.begin(); i != copy.end() && n < MAXSEQ; i++)
            {
                if (!(encode(*i, b) == q.at[n]) || !i->matched())
                    q.n = 99;
                ++n;
            }
        }
        return q;
    }

    template<typename Regex, std::size_t N>
    struct Table
    {
        static constexpr std::size_t G = Regex::capture_count + 1;
        std::array<std::array<Enc<G>, 3>, N> at{};
        std::array<std::array<Seq<G>, 4>, N> seq{};
        std::array<bool, N> fine{};
    };

    template<typename Regex, unsigned Ops, unsigned Kinds, auto const &Inputs>
    constexpr auto make_table()
    {
        constexpr std::size_t N = std::tuple_size_v<std::remove_cvref_t<decltype(Inputs)>>;
        Table<Regex, N> t;
        for (std::size_t i = 0; i < N; ++i)
        {
            std::string_view in = Inputs[i];
            bool fine = true;
            if constexpr ((Ops & 1u) != 0)
                t.at[i][MATCH] = evaluate<Regex, MATCH, Kinds>(in, fine);
            if constexpr ((Ops & 2u) != 0)
                t.at[i][PREFIX] = evaluate<Regex, PREFIX, Kinds>(in, fine);
            if constexpr ((Ops & 4u) != 0)
                t.at[i][SEARCH] = evaluate<Regex, SEARCH, Kinds>(in, fine);
            if constexpr ((Kinds & 4u) != 0)
            {
                char const *b = in.data(), *e = in.data() + in.size();
                t.seq[i][0] = sequence_of<Regex, 0>(b, e);
                t.seq[i][1] = sequence_of<Regex, 1>(b, e);
                t.seq[i][2] = sequence_of<Regex, 2>(b, e);
                t.seq[i][3] = sequence_of<Regex, 3>(b, e);
            }
            t.fine[i] = fine;
        }
        return t;
    }

    template<unsigned Ops, unsigned Kinds, auto const &Inputs, typename Regex>
    void run_cx(int op, char const *b, char const *e, Obs &out)
    {
        static constexpr auto table = make_table<Regex, Ops, Kinds, Inputs>();
        std::string_view in{b, static_cast<std::size_t>(e - b)};
        std::size_t i = 0;
        while (i < Inputs.size() && Inputs[i] != in)
            ++i;
        auto decide = [&]<int Op>() {
            auto r = op_of<Regex, Op>(b, e);
            observe(r, b, out);
            if (i == Inputs.size())
            {
                out.problem = "the input is not in the table";
                return;
            }
            ++extra_checks;
            bool fine = true;
            auto x = evaluate<Regex, Op, Kinds>(in, fine);
            if (!(table.at[i][Op] == encode(r, b)))
                out.problem = "differs between compile time and run time";
            else if (!table.fine[i])
                out.problem = "accessors or iterators disagree at compile time";
            else if (!fine || !(x == table.at[i][Op]))
                out.problem = "accessors or iterators disagree at run time";
            if constexpr ((Kinds & 4u) != 0)
            {
                if (op != SEARCH)
                    return;
                extra_checks += 4;
                if (!(sequence_of<Regex, 0>(b, e) == table.seq[i][0]))
                    out.problem = "tokenizer differs between compile time and run time";
                if (!(sequence_of<Regex, 1>(b, e) == table.seq[i][1]))
                    out.problem = "searcher differs between compile time and run time";
                if (!(sequence_of<Regex, 2>(b, e) == table.seq[i][2]))
                    out.problem = "tokenize differs between compile time and run time";
                if (!(sequence_of<Regex, 3>(b, e) == table.seq[i][3]))
                    out.problem = "find_all differs between compile time and run time";
            }
        };
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return decide.template operator()<MATCH>();
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return decide.template operator()<PREFIX>();
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return decide.template operator()<SEARCH>();
    }
}

// KINDS: 1 forward, 2 bidirectional and random access, 4 generators and ranges
#define VH_CX(KINDS, INPUTS, ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_cx<OPS, KINDS, INPUTS, __VA_ARGS__>}
#endif
