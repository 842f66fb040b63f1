#ifndef VERIF_IMPL_GEN_HPP
#define VERIF_IMPL_GEN_HPP

#include "impl.hpp"
#include "gencases.hpp"
#include <ranges>
#include <list>
#include <string>
#include <algorithm>

namespace vh
{
    template<typename Gen, typename Make>
    struct GenSystem final : System
    {
        char const *b, *e;
        Gen g0, g1;
        GenSystem(char const *b, char const *e) : b{b}, e{e}, g0{Make{}(b, e)}, g1{Make{}(b, e)} {}
        System *clone() const override { return new GenSystem(*this); }
        void apply(int op, Obs &out) override
        {
            switch (op)
            {
                case NEXT0: return observe(g0.next(), b, out);
                case CALL0: return observe(g0(), b, out);
                case NEXT1: return observe(g1.next(), b, out);
                case COPY01: { Gen copy{g0}; g1 = copy; return; }
                case COPY10: g0 = g1; return;
                case MOVE01: g1 = std::move(g0); g0 = g1; return;
                case FRESH1: g1 = Make{}(b, e); return;
            }
        }
        int live(int slot) override { return (slot ? g1 : g0).active() ? 5 : 0; }
        void current(int, int, Obs &) override {}
    };

    template<typename Range, typename Make>
    struct RangeSystem final : System
    {
        char const *b, *e;
        Range r0, r1;
        decltype(r0.begin()) i0, i1;
        RangeSystem(char const *b, char const *e) : b{b}, e{e}, r0{Make{}(b, e)}, r1{Make{}(b, e)}, i0{r0.begin()}, i1{r1.begin()} {}
        RangeSystem(RangeSystem const &o) : b{o.b}, e{o.e}, r0{o.r0}, r1{o.r1}, i0{r0.begin()}, i1{r1.begin()} {}
        System *clone() const override { return new RangeSystem(*this); }
        void apply(int op, Obs &) override
        {
            switch (op)
            {
                case PRE0: { auto &same = ++i0; (void) same; return; }
                case POST0: (void) i0++; return;
                case PRE1: ++i1; return;
                case BEGIN0: i0 = r0.begin(); return;
                case RCOPY01: { Range copy{r0}; r1 = copy; i1 = r1.begin(); return; }
                case RCOPY10: r0 = r1; i0 = r0.begin(); return;
                case RFRESH1: r1 = Make{}(b, e); i1 = r1.begin(); return;
            }
        }
        int live(int slot) override
        {
            auto &r = slot ? r1 : r0;
            auto &i = slot ? i1 : i0;
            return (i != r.end()) + (r.end() != i) + !(i == r.end()) + static_cast<bool>(i) + r.active();
        }
        void current(int slot, int way, Obs &out) override
        {
            auto &r = slot ? r1 : r0;
            auto &i = slot ? i1 : i0;
            switch (way)
            {
                case 0: return observe(*i, b, out);
                case 1:
                {
                    observe(*i, b, out);
                    if (static_cast<long>(i->length()) != out.length || i->matched() != out.matched)
                        out.problem = "operator-> and operator* differ";
                    return;
                }
                case 2: return observe(*r.begin(), b, out);
                case 3: return observe(r.current_result(), b, out);
                case 4: return observe(std::as_const(r).current_result(), b, out);
            }
        }
    };

    template<typename Regex> struct MakeTokenizer { auto operator()(char const *b, char const *e) const { return Regex::tokenizer(b, e); } };
    template<typename Regex> struct MakeSearcher { auto operator()(char const *b, char const *e) const { return Regex::searcher(b, e); } };
    template<typename Regex> struct MakeTokenize { auto operator()(char const *b, char const *e) const { return Regex::tokenize(b, e); } };
    template<typename Regex> struct MakeFindAll { auto operator()(char const *b, char const *e) const { return Regex::find_all(b, e); } };

    template<typename Regex>
    System *make_system(int kind, char const *b, char const *e)
    {
        switch (kind)
        {
            case TOKENIZER: return new GenSystem<decltype(Regex::tokenizer(b, e)), MakeTokenizer<Regex>>(b, e);
            case SEARCHER: return new GenSystem<decltype(Regex::searcher(b, e)), MakeSearcher<Regex>>(b, e);
            case TOKENIZE: return new RangeSystem<decltype(Regex::tokenize(b, e)), MakeTokenize<Regex>>(b, e);
            default: return new RangeSystem<decltype(Regex::find_all(b, e)), MakeFindAll<Regex>>(b, e);
        }
    }

    template<typename Gen>
    int drain_generator(Gen gen, char const *b, Obs *out, int limit)
    {
        int n = 0;
        while (n < limit)
        {
            auto r = gen.next();
            out[n].problem = nullptr;
            observe(r, b, out[n++]);
            if (!r)
                break;
        }
        return n;
    }

    // limit: at most that many observations. Ways that keep going after the end return exactly limit observations.
    template<typename Make>
    int drain_one(int way, char const *b, char const *e, Obs *out, int limit, Make make, bool generator)
    {
        int n = 0;
        auto put = [&](auto const &r) {
            if (n < limit)
            {
                out[n].problem = nullptr;
                observe(r, b, out[n++]);
            }
        };
        auto x = make(b, e);
        if constexpr (requires { x.next(); })
        {
            switch (way)
            {
                case 0: // beyond the end
                    while (n < limit)
                        put(x.next());
                    return n;
                case 1: // the call operator, beyond the end
                    while (n < limit)
                        put(x());
                    return n;
                default: return -1;
            }
        }
        else
        {
            switch (way)
            {
                case 2:
                    for (auto &r : x)
                    {
                        put(r);
                        if (n >= limit)
                            break;
                    }
                    return n;
                case 3:
                    for (auto const &r : make(b, e))
                    {
                        put(r);
                        if (n >= limit)
                            break;
                    }
                    return n;
                case 4: // interrupted after every element and resumed
                    while (x.active() && n < limit)
                    {
                        for (auto &&r : x)
                        {
                            put(r);
                            break;
                        }
                        ++x.begin();
                    }
                    return n;
                case 5:
                {
                    for (auto i = x.begin(); i != x.end() && n < limit;)
                    {
                        put(*i);
                        i++;
                    }
                    return n;
                }
                case 6:
                    std::ranges::for_each(x, [&](auto const &r) { put(r); });
                    return n;
                case 7:
                    for (auto &&r : x | std::views::take_while([&](auto const &) { return n < limit; }))
                        put(r);
                    return n;
                case 8: // a copy taken after every element yields the rest
                {
                    long total = std::ranges::distance(make(b, e));
                    for (auto &r : x)
                    {
                        if (n >= limit)
                            return n;
                        auto rest = x;
                        if (static_cast<long>(std::ranges::distance(rest)) != total - n)
                            out[n].problem = "a copy of the range has a different number of elements left";
                        else
                            out[n].problem = nullptr;
                        observe(r, b, out[n++]);
                    }
                    return n;
                }
                default: return -1;
            }
        }
    }

    template<typename Regex>
    int drain_all(int kind, int way, char const *b, char const *e, Obs *out, int limit)
    {
        switch (kind)
        {
            case TOKENIZER: return drain_one(way, b, e, out, limit, MakeTokenizer<Regex>{}, true);
            case SEARCHER: return drain_one(way, b, e, out, limit, MakeSearcher<Regex>{}, true);
            case TOKENIZE: return drain_one(way, b, e, out, limit, MakeTokenize<Regex>{}, false);
            default: return drain_one(way, b, e, out, limit, MakeFindAll<Regex>{}, false);
        }
    }

    template<typename Regex>
    inline constexpr GenCase gen_case{&make_system<Regex>, &drain_all<Regex>};

    // The driver receives the generator interface through the run function: op 0, out.problem carries the pointer
    template<typename Regex>
    void give_gen_case(int, char const *, char const *, Obs &out)
    {
        out.problem = reinterpret_cast<char const *>(&gen_case<Regex>);
    }
}
#define VH_GEN(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::give_gen_case<__VA_ARGS__>}
#endif
