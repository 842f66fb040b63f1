// Operations whose every iterator step is a scheduling point, next to the plain ones.
#ifndef VERIF_IMPL_PURE_HPP
#define VERIF_IMPL_PURE_HPP

#include "impl_gen.hpp"
#include "pure.hpp"
#include <list>

namespace vh
{
    template<typename Result, typename Input>
    struct HeldResult final : Held
    {
        Input input;
        Result result;
        template<typename Make>
        HeldResult(Input in, Make make) : input(std::move(in)), result(make(input)) {}
        std::string text() const override
        {
            std::string t = result.matched() ? "1" : "0";
            result.for_each_group([&](auto const &g) {
                t += '|';
                for (char c : g)
                    t += c;
            });
            return t;
        }
    };

    template<typename Input, typename Make>
    Held *hold(Input in, Make make)
    {
        return new HeldResult<decltype(make(std::declval<Input &>())), Input>{std::move(in), make};
    }

    struct Text
    {
        char const *b, *e;
    };

    // Call is a function object taking an input or a pair of iterators
    template<typename Call>
    Held *hold_form(int form, char const *b, char const *e, Call call)
    {
        switch (form)
        {
            case POINTERS: return hold(Text{b, e}, [=](Text const &t) { return call(t.b, t.e); });
            case STRING: return hold(std::string(b, e), [=](std::string const &s) { return call(s); });
            case RVALUE: return hold(std::string(b, e), [=](std::string &s) { return call(std::string{s}); });
            case VIEW: return hold(Text{b, e}, [=](Text const &t) { return call(std::string_view{t.b, static_cast<std::size_t>(t.e - t.b)}); });
            case LIST: return hold(std::list<char>(b, e), [=](std::list<char> const &l) { return call(l.begin(), l.end()); });
            default: return hold(std::string(b, e), [=](std::string const &s) { return call(s).as_memory_owner(); });
        }
    }

    template<typename Regex>
    void run_light(int op, char const *b, char const *e, Obs &out)
    {
        if (op == 99)
        {
            out.problem = nullptr;
            return;
        }
        if (op < 3)
            return run_regex<Regex, 7u>(op, b, e, out);
        int const form = (op - HELD) / 3;
        Held *h = nullptr;
        switch ((op - HELD) % 3)
        {
            case MATCH: h = hold_form(form, b, e, [](auto &&...a) { return Regex::match(static_cast<decltype(a)>(a)...); }); break;
            case PREFIX: h = hold_form(form, b, e, [](auto &&...a) { return Regex::match_prefix(static_cast<decltype(a)>(a)...); }); break;
            default: h = hold_form(form, b, e, [](auto &&...a) { return Regex::search(static_cast<decltype(a)>(a)...); }); break;
        }
        out.problem = reinterpret_cast<char const *>(h);
    }

    template<typename Tag>
    struct PIt
    {
        using iterator_category = Tag;
        using iterator_concept = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;
        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
        char const *p = nullptr;
        reference operator*() const noexcept { point(); return *p; }
        PIt &operator++() noexcept { point(); ++p; return *this; }
        PIt operator++(int) noexcept { auto o = *this; ++*this; return o; }
        PIt &operator--() noexcept requires bidi { point(); --p; return *this; }
        PIt operator--(int) noexcept requires bidi { auto o = *this; --*this; return o; }
        bool operator==(PIt const &o) const noexcept { point(); return p == o.p; }
    };

    template<typename Result>
    void observe_points(Result const &r, char const *base, Obs &o)
    {
        o.matched = r.matched();
        o.bool_conv = static_cast<bool>(r);
        o.length = static_cast<long>(r.length());
        o.groups = 0;
        r.for_each_group([&](auto const &g) {
            if (o.groups >= MAXG)
                return;
            o.s[o.groups] = static_cast<int>(g.begin().p - base);
            o.e[o.groups] = static_cast<int>(g.end().p - base);
            o.len[o.groups] = static_cast<long>(g.length());
            auto n = g.name();
            o.name[o.groups] = n.data();
            o.name_len[o.groups] = static_cast<int>(n.size());
            ++o.groups;
        });
    }

    template<typename Regex, typename Tag>
    void run_points(int op, char const *b, char const *e, Obs &out)
    {
        using I = PIt<Tag>;
        switch (op)
        {
            case MATCH: return observe_points(Regex::match(I{b}, I{e}), b, out);
            case PREFIX: return observe_points(Regex::match_prefix(I{b}, I{e}), b, out);
            case SEARCH: return observe_points(Regex::search(I{b}, I{e}), b, out);
            default:
            {
                // All matches; what is observed is the first one, and the number of results and the sum of their spans in len[MAXG - 1]
                long sum = 0;
                int n = 0;
                auto s = Regex::searcher(I{b}, I{e});
                for (int i = 0; i < 12; ++i)
                {
                    auto r = s.next();
                    if (i == 0)
                        observe_points(r, b, out);
                    if (!r)
                        break;
                    ++n;
                    r.for_each_group([&](auto const &g) { sum = sum * 31 + (g.begin().p == nullptr || g.begin() == g.end() ? 0 : (g.begin().p - b) * 100 + (g.end().p - b) + 1); });
                }
                out.len[MAXG - 1] = sum * 16 + n;
            }
        }
    }

    template<typename Regex, typename Tag>
    void run_pure(int op, char const *b, char const *e, Obs &out)
    {
        if (op == 99)
        {
            out.problem = reinterpret_cast<char const *>(&gen_case<Regex>);
            return;
        }
        if (op >= 10)
            return run_points<Regex, Tag>(op - 10, b, e, out);
        return run_regex<Regex, 7u>(op, b, e, out);
    }
}
#define VH_PURE_L(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_light<__VA_ARGS__>}
#define VH_PURE_F(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_pure<__VA_ARGS__, std::forward_iterator_tag>}
#define VH_PURE_B(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_pure<__VA_ARGS__, std::bidirectional_iterator_tag>}
#endif
