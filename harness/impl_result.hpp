// Reads results through every accessor in every value category, for every kind of result, and explores every short history of copies,
// moves, conversions and expiring inputs. The plain view of each execution is compared with the reference machine by the driver;
// everything else is compared with the text that view denotes.
#ifndef VERIF_IMPL_RESULT_HPP
#define VERIF_IMPL_RESULT_HPP

#include "impl.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <memory>
#include <optional>
#include <span>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace vh
{
    struct Want
    {
        bool matched = false;
        std::vector<std::string> text;
        bool operator==(Want const &) const = default;
    };

    struct Judge
    {
        char const *problem = nullptr;
        unsigned long checks = 0;
        void expect(bool ok, char const *what)
        {
            ++checks;
            if (!ok && !problem)
                problem = what;
        }
    };

    inline std::string history_trace;

    template<typename Range>
    bool same_text(Range &&r, std::string const &want)
    {
        std::size_t i = 0;
        for (auto &&c : r)
        {
            if (i >= want.size() || static_cast<char>(c) != want[i])
                return false;
            ++i;
        }
        return i == want.size();
    }

    template<typename G>
    void capture_is(G &g, std::string const &want, Judge &j)
    {
        auto const &c = g;
        j.expect(g.length() == want.size() && c.length() == want.size(), "length() of a group");
        j.expect(g.is_empty() == want.empty() && c.is_empty() == want.empty(), "is_empty() of a group");
        j.expect(static_cast<bool>(g) == !want.empty() && static_cast<bool>(c) == !want.empty(), "bool conversion of a group");
        j.expect(same_text(g, want), "iteration over a group");
        j.expect(same_text(c, want), "iteration over a const group");
        j.expect(std::string(c.begin(), c.end()) == want, "begin() and end() of a group");
        j.expect(same_text(g.content(), want), "content() of a group");
        j.expect(same_text(c.content(), want), "content() of a const group");
        {
            auto copy = c;
            auto &&content = std::move(copy).content();
            j.expect(same_text(content, want), "content() of an expiring group");
        }
        {
            auto const copy = c;
            auto &&content = std::move(copy).content();
            j.expect(same_text(content, want), "content() of an expiring const group");
        }
        if constexpr (requires { g[0]; })
        {
            std::string a, b;
            for (std::size_t i = 0; i < want.size() && i < c.length(); ++i)
            {
                a += g[i];
                b += c[i];
            }
            j.expect(a == want, "operator[] of a group");
            j.expect(b == want, "operator[] of a const group");
        }
        if constexpr (std::is_convertible_v<decltype((c)), std::string_view>)
        {
            std::string_view v = c;
            j.expect(v == want, "conversion of a group to string_view");
            std::string_view w = g;
            j.expect(w == want, "conversion of a group to string_view");
            j.expect(static_cast<std::string>(v) == want, "conversion of a group to string");
        }
        std::ostringstream os;
        os << c;
        j.expect(os.str() == want, "writing a group to a stream");
        j.expect(c.has_name() == !c.name().empty(), "has_name() of a group");
    }

    template<typename Result, typename... Named>
    struct Reader
    {
        static constexpr std::size_t N = std::remove_cvref_t<Result>::group_count;

        template<std::size_t I>
        static void by_number(Result &r, Want const &w, Judge &j)
        {
            auto const &c = r;
            auto const &want = w.text[I];
            j.expect(same_text(r.template group<I>(), want), "group by number");
            j.expect(same_text(c.template group<I>(), want), "group by number of a const result");
            j.expect(same_text(r.template get<I>(), want), "get by number");
            j.expect(same_text(c.template get<I>(), want), "get by number of a const result");
            j.expect(same_text(meta::get_group<I>(r), want), "get_group");
            j.expect(same_text(meta::get_group<I>(c), want), "get_group of a const result");
            {
                auto copy = c;
                auto g = std::move(copy).template group<I>();
                j.expect(same_text(g, want), "group by number of an expiring result");
            }
            {
                auto copy = c;
                auto g = std::move(copy).template get<I>();
                j.expect(same_text(g, want), "get by number of an expiring result");
            }
            {
                auto copy = c;
                auto g = meta::get_group<I>(std::move(copy));
                j.expect(same_text(g, want), "get_group of an expiring result");
            }
            {
                auto const copy = c;
                auto g = std::move(copy).template group<I>();
                j.expect(same_text(g, want), "group by number of an expiring const result");
                auto h = std::move(copy).template get<I>();
                j.expect(same_text(h, want), "get by number of an expiring const result");
            }
            {
                auto g = std::remove_cvref_t<Result>{c}.template group<I>(); // of a temporary
                j.expect(same_text(g, want), "group by number of a temporary result");
            }
            static_assert(std::is_same_v<std::tuple_element_t<I, std::remove_cvref_t<Result>>, std::remove_cvref_t<decltype(c.template group<I>())>>);
            capture_is(r.template group<I>(), want, j);
        }

        template<typename NGx>
        static void by_name(Result &r, Want const &w, Judge &j)
        {
            NGx::read(r, w.text[NGx::number], j, [](auto &&g, std::string const &t) { return same_text(g, t); });
        }

        template<std::size_t... I>
        static void numbers(Result &r, Want const &w, Judge &j, std::index_sequence<I ...>)
        {
            (by_number<I>(r, w, j), ...);
        }

        template<typename Bound>
        static void bindings(Bound &&r, Want const &w, Judge &j, char const *what)
        {
            std::vector<std::string> t;
            auto put = [&](auto &...g) { (t.push_back(std::string(g.begin(), g.end())), ...); };
            if constexpr (N == 1) { auto &&[a] = std::forward<Bound>(r); put(a); }
            else if constexpr (N == 2) { auto &&[a, b] = std::forward<Bound>(r); put(a, b); }
            else if constexpr (N == 3) { auto &&[a, b, c] = std::forward<Bound>(r); put(a, b, c); }
            else if constexpr (N == 4) { auto &&[a, b, c, d] = std::forward<Bound>(r); put(a, b, c, d); }
            else if constexpr (N == 5) { auto &&[a, b, c, d, e] = std::forward<Bound>(r); put(a, b, c, d, e); }
            else if constexpr (N == 6) { auto &&[a, b, c, d, e, f] = std::forward<Bound>(r); put(a, b, c, d, e, f); }
            else if constexpr (N == 7) { auto &&[a, b, c, d, e, f, g] = std::forward<Bound>(r); put(a, b, c, d, e, f, g); }
            else if constexpr (N == 8) { auto &&[a, b, c, d, e, f, g, h] = std::forward<Bound>(r); put(a, b, c, d, e, f, g, h); }
            else if constexpr (N == 9) { auto &&[a, b, c, d, e, f, g, h, i] = std::forward<Bound>(r); put(a, b, c, d, e, f, g, h, i); }
            else return;
            j.expect(t == w.text, what);
        }

        static void bindings_by_value(Result const &r, Want const &w, Judge &j)
        {
            std::vector<std::string> t;
            auto put = [&](auto &...g) { (t.push_back(std::string(g.begin(), g.end())), ...); };
            if constexpr (N == 1) { auto [a] = r; put(a); }
            else if constexpr (N == 2) { auto [a, b] = r; put(a, b); }
            else if constexpr (N == 3) { auto [a, b, c] = r; put(a, b, c); }
            else if constexpr (N == 4) { auto [a, b, c, d] = r; put(a, b, c, d); }
            else if constexpr (N == 5) { auto [a, b, c, d, e] = r; put(a, b, c, d, e); }
            else if constexpr (N == 6) { auto [a, b, c, d, e, f] = r; put(a, b, c, d, e, f); }
            else if constexpr (N == 7) { auto [a, b, c, d, e, f, g] = r; put(a, b, c, d, e, f, g); }
            else if constexpr (N == 8) { auto [a, b, c, d, e, f, g, h] = r; put(a, b, c, d, e, f, g, h); }
            else if constexpr (N == 9) { auto [a, b, c, d, e, f, g, h, i] = r; put(a, b, c, d, e, f, g, h, i); }
            else return;
            j.expect(t == w.text, "structured bindings by value");
        }

        // Reads r through everything; r is left as it was
        static void all(Result &r, Want const &w, Judge &j)
        {
            using Plain = std::remove_cvref_t<Result>;
            auto const &c = r;
            j.expect(N == w.text.size() && std::tuple_size_v<Plain> == N, "number of groups");
            if (N != w.text.size())
                return;
            j.expect(r.matched() == w.matched && c.matched() == w.matched, "matched()");
            j.expect(static_cast<bool>(r) == w.matched && static_cast<bool>(c) == w.matched, "bool conversion of a result");
            j.expect((r == w.matched) && (w.matched == c) && !(c == !w.matched) && (c != !w.matched), "comparison with bool");
            j.expect(r.length() == w.text[0].size() && c.length() == w.text[0].size(), "length() of a result");
            j.expect(std::string(r.begin(), r.end()) == w.text[0] && std::string(c.begin(), c.end()) == w.text[0], "begin() and end() of a result");
            j.expect(same_text(r, w.text[0]) && same_text(c, w.text[0]), "iteration over a result");
            if constexpr (std::is_convertible_v<Plain const &, std::string_view>)
            {
                std::string_view v = c;
                j.expect(v == w.text[0], "conversion of a result to string_view");
                std::string_view u = r;
                j.expect(u == w.text[0], "conversion of a result to string_view");
            }
            std::ostringstream os;
            os << c;
            j.expect(os.str() == w.text[0], "writing a result to a stream");
            numbers(r, w, j, std::make_index_sequence<N>{});
            (by_name<Named>(r, w, j), ...);
            // All groups at once
            auto collect = [](auto &&result) {
                std::vector<std::string> t;
                std::forward<decltype(result)>(result).for_each_group([&](auto &&g) { t.push_back(std::string(g.begin(), g.end())); });
                return t;
            };
            j.expect(collect(r) == w.text, "for_each_group");
            j.expect(collect(c) == w.text, "for_each_group of a const result");
            j.expect(collect(Plain{c}) == w.text, "for_each_group of an expiring result");
            j.expect(collect(static_cast<Plain const &&>(c)) == w.text, "for_each_group of an expiring const result");
            std::vector<std::string> moved;
            Plain{c}.for_each_group([&](auto &&g) {
                auto own = std::forward<decltype(g)>(g);
                moved.push_back(std::string(own.begin(), own.end()));
            });
            j.expect(moved == w.text, "groups moved out of an expiring result");
            {
                auto lengths = c.transform_groups([](auto const &g) { return g.length(); });
                auto texts = r.transform_groups([](auto const &g) { return std::string(g.begin(), g.end()); });
                std::vector<std::size_t> l;
                std::vector<std::string> t;
                std::apply([&](auto... x) { (l.push_back(x), ...); }, lengths);
                std::apply([&](auto const &...x) { (t.push_back(x), ...); }, texts);
                std::vector<std::size_t> wl;
                for (auto const &s : w.text)
                    wl.push_back(s.size());
                j.expect(l == wl, "transform_groups to lengths");
                j.expect(t == w.text, "transform_groups to texts");
                j.expect(collect(c) == w.text, "a result after transform_groups");
            }
            bindings(r, w, j, "structured bindings by reference");
            bindings(c, w, j, "structured bindings of a const result");
            bindings(Plain{c}, w, j, "structured bindings of a temporary");
            bindings_by_value(c, w, j);
            // Optionals
            auto optional = [&](auto &&o, char const *what) {
                j.expect(o.has_value() == w.matched, what);
                if (o)
                    j.expect(o->matched() && collect(*o) == w.text, what);
            };
            optional(r.as_optional(), "as_optional");
            optional(c.as_optional(), "as_optional of a const result");
            optional(Plain{c}.as_optional(), "as_optional of an expiring result");
            optional(static_cast<Plain const &&>(c).as_optional(), "as_optional of an expiring const result");
            j.expect(collect(c) == w.text && c.matched() == w.matched, "a result after as_optional");
            // Copies
            Plain copy = c;
            j.expect(collect(copy) == w.text && copy.matched() == w.matched, "a copy");
            Plain taken = std::move(copy);
            j.expect(collect(taken) == w.text && taken.matched() == w.matched, "a moved result");
            Plain assigned;
            // libstdc++ cannot measure the distance of singular list iterators, so only this much of a view is read
            j.expect(!assigned.matched() && !assigned && assigned.template group<0>().is_empty(), "a default-constructed result");
            if constexpr (!Plain::is_view)
                j.expect(collect(assigned) == std::vector<std::string>(N), "a default-constructed result");
            assigned = taken;
            j.expect(collect(assigned) == w.text && assigned.matched() == w.matched && collect(taken) == w.text, "an assigned result");
            if constexpr (Plain::is_view)
            {
                auto owner = c.as_memory_owner();
                static_assert(!decltype(owner)::is_view);
                j.expect(collect(owner) == w.text && owner.matched() == w.matched, "as_memory_owner");
            }
        }
    };

    // The group called Name is group N
    template<meta::static_string Name, std::size_t No>
    struct Nm
    {
        static constexpr std::size_t number = No;
        template<typename Result, typename Same>
        static void read(Result &r, std::string const &want, Judge &j, Same same)
        {
            auto const &c = r;
            j.expect(same(r.template group<Name>(), want), "group by name");
            j.expect(same(c.template group<Name>(), want), "group by name of a const result");
            j.expect(same(meta::get_group_named<Name>(r), want), "get_group_named");
            j.expect(same(meta::get_group_named<Name>(c), want), "get_group_named of a const result");
            {
                auto copy = c;
                auto g = std::move(copy).template group<Name>();
                j.expect(same(g, want), "group by name of an expiring result");
            }
            {
                auto const copy = c;
                auto g = std::move(copy).template group<Name>();
                j.expect(same(g, want), "group by name of an expiring const result");
            }
            {
                auto copy = c;
                auto g = meta::get_group_named<Name>(std::move(copy));
                j.expect(same(g, want), "get_group_named of an expiring result");
            }
            j.expect(&r.template group<Name>() == &r.template group<No>(), "a named group is the group with its number");
            j.expect(r.template group<Name>().has_name() && r.template group<Name>().name() == std::string_view(Name), "name() of a named group");
        }
    };

    // A range whose characters are overwritten when it is destroyed
    struct Expiring
    {
        static inline char pool[1 << 12];
        char *data;
        std::size_t size;
        Expiring(char const *b, char const *e) : data{pool}, size{static_cast<std::size_t>(e - b)} { std::copy(b, e, pool); }
        Expiring(Expiring const &) = delete;
        ~Expiring() { std::fill(data, data + size, '#'); }
        char const *begin() const { return data; }
        char const *end() const { return data + size; }
    };

    template<typename Regex, int Op, typename... Args>
    auto call(Args &&...args)
    {
        if constexpr (Op == MATCH)
            return Regex::match(std::forward<Args>(args)...);
        else if constexpr (Op == PREFIX)
            return Regex::match_prefix(std::forward<Args>(args)...);
        else
            return Regex::search(std::forward<Args>(args)...);
    }

    template<typename Result>
    Want want_of(Result const &r)
    {
        Want w;
        w.matched = r.matched();
        r.for_each_group([&](auto const &g) { w.text.push_back(std::string(g.begin(), g.end())); });
        return w;
    }

    // Every history of operations on two owners and two views over a buffer that changes
    template<typename Regex, int Op, typename... Named>
    struct History
    {
        using View = decltype(call<Regex, Op>(static_cast<char const *>(nullptr), static_cast<char const *>(nullptr)));
        using Owner = decltype(std::declval<View const &>().as_memory_owner());

        std::string const &a, &b; // what the buffer holds alternately
        char *buf;
        Judge &j;

        struct State
        {
            Owner o0, o1;
            View v0, v1;
            bool flipped = false;
            // Expected: owners by text, views by spans of the buffer
            std::optional<Want> w0, w1;
            struct Spans
            {
                bool matched = false;
                std::vector<std::pair<int, int>> at;
            } s0, s1;
        };

        std::string const &text(bool flipped) const { return flipped ? b : a; }

        typename State::Spans spans(View const &v) const
        {
            typename State::Spans s;
            s.matched = v.matched();
            v.for_each_group([&](auto const &g) {
                if (g.is_empty())
                    s.at.emplace_back(0, 0);
                else
                    s.at.emplace_back(static_cast<int>(g.begin() - buf), static_cast<int>(g.end() - buf));
            });
            return s;
        }

        Want through(typename State::Spans const &s, bool flipped) const
        {
            Want w;
            w.matched = s.matched;
            for (auto [x, y] : s.at)
                w.text.push_back(text(flipped).substr(static_cast<std::size_t>(x), static_cast<std::size_t>(y - x)));
            return w;
        }

        Want none() const { return {false, std::vector<std::string>(Owner::group_count)}; }

        void fill(bool flipped) { std::copy(text(flipped).begin(), text(flipped).end(), buf); }

        static constexpr char const *names[] = {
            "o0 = v0.as_memory_owner();", "o1 = o0;", "o0 = std::move(o1);", "o1 = R::op(std::string{buffer});", "if (auto x = o1.as_optional()) o0 = *x; else o0 = {};",
            "{ auto x = std::move(o0).as_optional(); o0 = x ? *std::move(x) : decltype(o0){}; }", "change o0's text", "{ decltype(o0) c{o0}; o1 = std::move(c); }", "std::swap(o0, o1);",
            "the buffer is overwritten", "v1 = v0;", "v0 = std::move(v1);", "v1 = R::op(buffer);"};
        static constexpr int OPS = 13;

        bool enabled(State const &s, int op) const
        {
            switch (op)
            {
                case 1: case 5: case 7: return s.w0.has_value();
                case 6: return s.w0.has_value();
                case 2: case 4: return s.w1.has_value();
                case 8: return s.w0 || s.w1;
                default: return true;
            }
        }

        void apply(State &s, int op)
        {
            std::string const &now = text(s.flipped);
            switch (op)
            {
                case 0: s.o0 = s.v0.as_memory_owner(); s.w0 = through(s.s0, s.flipped); break;
                case 1: s.o1 = s.o0; s.w1 = s.w0; break;
                case 2: s.o0 = std::move(s.o1); s.w0 = s.w1; s.w1.reset(); break;
                case 3: s.o1 = call<Regex, Op>(std::string{now}); s.w1 = want_of(call<Regex, Op>(std::string_view{now})); break;
                case 4:
                    if (auto x = s.o1.as_optional())
                        s.o0 = *x;
                    else
                        s.o0 = Owner{};
                    s.w0 = s.w1->matched ? *s.w1 : none();
                    break;
                case 5:
                {
                    auto x = std::move(s.o0).as_optional();
                    if (x)
                        s.o0 = *std::move(x);
                    else
                        s.o0 = Owner{};
                    if (!s.w0->matched)
                        s.w0 = none();
                    break;
                }
                case 6:
                    for (char &ch : s.o0.template group<0>())
                        ch = '%';
                    s.o0.template group<0>().content() += "!";
                    s.w0->text[0] = std::string(s.w0->text[0].size(), '%') + "!";
                    break;
                case 7: { Owner c{s.o0}; s.o1 = std::move(c); s.w1 = s.w0; break; }
                case 8: std::swap(s.o0, s.o1); std::swap(s.w0, s.w1); break;
                case 9: s.flipped = !s.flipped; fill(s.flipped); break;
                case 10: s.v1 = s.v0; s.s1 = s.s0; break;
                case 11: s.v0 = std::move(s.v1); s.s0 = s.s1; s.v1 = s.v0; break;
                case 12: s.v1 = call<Regex, Op>(static_cast<char const *>(buf), static_cast<char const *>(buf + now.size())); s.s1 = spans(s.v1); break;
            }
        }

        void look(State &s)
        {
            if (s.w0)
                Reader<Owner, Named...>::all(s.o0, *s.w0, j);
            if (s.w1)
                Reader<Owner, Named...>::all(s.o1, *s.w1, j);
            Reader<View, Named...>::all(s.v0, through(s.s0, s.flipped), j);
            Reader<View, Named...>::all(s.v1, through(s.s1, s.flipped), j);
        }

        void dfs(State const &s, int depth, std::vector<int> &trace)
        {
            ++extra_states;
            {
                State copy{s};
                fill(s.flipped);
                if (depth == 0)
                    look(copy);
                else
                    quick_look(copy);
            }
            if (j.problem)
            {
                history_trace.clear();
                for (int op : trace)
                    history_trace += std::string(names[op]) + " ";
                return;
            }
            if (depth == 0)
                return;
            for (int op = 0; op < OPS; ++op)
            {
                if (!enabled(s, op))
                    continue;
                ++extra_transitions;
                State n{s};
                fill(n.flipped);
                trace.push_back(op);
                apply(n, op);
                dfs(n, depth - 1, trace);
                trace.pop_back();
                if (j.problem)
                    return;
            }
        }

        void quick_look(State &s)
        {
            if (s.w0)
                j.expect(want_of(s.o0) == *s.w0, "an owning result changed");
            if (s.w1)
                j.expect(want_of(s.o1) == *s.w1, "an owning result changed");
            j.expect(want_of(s.v0) == through(s.s0, s.flipped), "a view changed");
            j.expect(want_of(s.v1) == through(s.s1, s.flipped), "a view changed");
        }
    };

    template<typename Regex, int Op, typename... Named>
    void read_result(char const *b, char const *e, Obs &o)
    {
        auto view = call<Regex, Op>(b, e);
        observe(view, b, o);
        Judge j;
        Want const w = want_of(view);
        using View = decltype(view);
        Reader<View, Named...>::all(view, w, j);
        auto read = [&](auto result, char const *what, bool owner) {
            j.expect(decltype(result)::is_view == !owner, owner ? "matching a temporary gives an owning result" : "matching a living range gives a view");
            Reader<decltype(result), Named...>::all(result, w, j);
            (void) what;
        };
        std::string text(b, e);
        read(call<Regex, Op>(text), "a string", false);
        read(call<Regex, Op>(std::as_const(text)), "a const string", false);
        read(call<Regex, Op>(std::string_view{b, static_cast<std::size_t>(e - b)}), "a string_view", false);
        read(call<Regex, Op>(std::string(b, e)), "a temporary string", true);
        {
            std::string t(b, e);
            auto r = call<Regex, Op>(std::move(t));
            std::fill(t.begin(), t.end(), '#');
            read(std::move(r), "a moved string", true);
        }
        read(call<Regex, Op>(std::vector<char>(b, e)), "a temporary vector", true);
        read(call<Regex, Op>(std::list<char>(b, e)), "a temporary list", true);
        {
            std::deque<char> d(b, e);
            read(call<Regex, Op>(d), "a deque", false);
            std::list<char> l(b, e);
            read(call<Regex, Op>(l), "a list", false);
            auto owner = call<Regex, Op>(l).as_memory_owner();
            l.clear();
            read(std::move(owner), "an owner made from a list", true);
        }
        {
            auto r = call<Regex, Op>(Expiring(b, e));
            j.expect(!decltype(r)::is_view, "matching a temporary gives an owning result");
            read(std::move(r), "a temporary range", true);
        }
        {
            auto r = [&] {
                std::string t(b, e);
                auto owner = call<Regex, Op>(t).as_memory_owner();
                std::fill(t.begin(), t.end(), '#');
                return owner;
            }();
            read(std::move(r), "an owner", true);
        }
        // Addresses: views point into the input
        if (w.matched)
            j.expect(view.begin() == b + o.s[0] && view.end() == b + o.e[0], "a view points into the input");
        extra_checks += j.checks;
        if (j.problem)
            o.problem = j.problem;
    }

    template<typename Regex, int Op, typename... Named>
    void explore_histories(char const *b, char const *e, Obs &o, int depth)
    {
        observe(call<Regex, Op>(b, e), b, o);
        Judge j;
        std::string const first(b, e), second(first.rbegin(), first.rend());
        std::vector<char> buffer(first.begin(), first.end());
        buffer.push_back('a');
        History<Regex, Op, Named...> h{first, second, buffer.data(), j};
        typename History<Regex, Op, Named...>::State s;
        h.fill(false);
        s.v0 = call<Regex, Op>(static_cast<char const *>(buffer.data()), static_cast<char const *>(buffer.data() + first.size()));
        s.s0 = h.spans(s.v0);
        s.s1 = {false, std::vector<std::pair<int, int>>(s.s0.at.size())};
        std::vector<int> trace;
        h.dfs(s, depth, trace);
        extra_checks += j.checks;
        if (j.problem)
        {
            static std::string message;
            message = std::string(j.problem) + " | " + history_trace;
            o.problem = message.c_str();
        }
    }

    template<unsigned Ops, unsigned Histories, typename Regex, typename... Named>
    void run_results(int op, char const *b, char const *e, Obs &out)
    {
        auto one = [&]<int Op>() {
            if constexpr (Histories != 0)
            {
                if (e - b <= 3)
                    return explore_histories<Regex, Op, Named...>(b, e, out, static_cast<int>(Histories));
            }
            read_result<Regex, Op, Named...>(b, e, out);
        };
        if constexpr ((Ops & 1u) != 0)
            if (op == MATCH)
                return one.template operator()<MATCH>();
        if constexpr ((Ops & 2u) != 0)
            if (op == PREFIX)
                return one.template operator()<PREFIX>();
        if constexpr ((Ops & 4u) != 0)
            if (op == SEARCH)
                return one.template operator()<SEARCH>();
    }
}

#define VH_RES(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_results<OPS, 0u, __VA_ARGS__>}
#define VH_HIST3(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_results<OPS, 3u, __VA_ARGS__>}
#define VH_HIST4(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_results<OPS, 4u, __VA_ARGS__>}
#define VH_HIST5(ID, FAM, FLAGS, OPS, STR, ...) \
    ::vh::Case{ID, FAM, FLAGS, OPS, STR, sizeof(STR) - 1, &::vh::run_results<OPS, 5u, __VA_ARGS__>}
#endif
