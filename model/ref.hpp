// Reference model of the regular-expression dialect, independent of the library under test.
//
//  * Parser: a hand-written recursive-descent recogniser of the documented grammar (README "Syntax Reference").
//    It reports accept / reject and the offset of the first character that cannot be continued.
//  * Machine: an explicit-state backtracking machine. A machine state is (continuation, position, captures) plus a
//    stack of choice points; every step is one transition. Lookarounds, atomic groups and possessive repetitions run
//    as nested machines whose choice points are discarded once they succeed.
//  * Oracle2: a denotational "set of end positions" semantics for the pure fragment, used to cross-check Machine.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <bitset>
#include <cstdint>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
    enum Flags : unsigned { ICASE = 1, DOTALL = 2, MULTILINE = 4, UNGREEDY = 8, UNROLL = 16 };

    using ByteSet = std::bitset<256>;

    enum class Kind : std::uint8_t
    {
        Empty, Set, Seq, Alt, Cap, Rep, Look, Bol, Eol, Boi, Eoi, Wordb, NWordb, Bref, NBref
    };
    enum class Mode : std::uint8_t { Greedy, Lazy, Possessive };

    inline constexpr std::size_t INF = static_cast<std::size_t>(-1);

    struct Node
    {
        Kind kind{Kind::Empty};
        ByteSet set{};
        std::vector<int> kids{};
        std::size_t min{0}, max{0};
        Mode mode{Mode::Greedy};
        bool negative{false}, behind{false};
        int id{0};
        std::string name{};
    };

    struct Pattern
    {
        bool accepted{false};
        std::size_t error_at{0};
        std::string semantic_error{};
        std::vector<Node> nodes{};
        int root{-1};
        int groups{0};
        std::vector<std::string> names{};  // names[i] is the name of group i+1, or empty
        unsigned flags{0};
    };

    inline bool is_alpha(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    inline bool is_digit(unsigned c) { return c >= '0' && c <= '9'; }
    inline bool is_wordc(unsigned c) { return is_alpha(c) || is_digit(c) || c == '_'; }
    inline bool is_brk(unsigned c) { return c == '\n' || c == '\r'; }
    inline unsigned swap_case(unsigned c) { return is_alpha(c) ? (c ^ 0x20u) : c; }

    inline ByteSet class_digit() { ByteSet s; for (unsigned c = '0'; c <= '9'; ++c) s.set(c); return s; }
    inline ByteSet class_word() { ByteSet s; for (unsigned c = 0; c < 256; ++c) if (is_wordc(c)) s.set(c); return s; }
    inline ByteSet class_space() { ByteSet s; for (unsigned c : {' ', '\t', '\n', '\v', '\f', '\r'}) s.set(c); return s; }
    inline ByteSet class_brk() { ByteSet s; s.set('\n'); s.set('\r'); return s; }

    class Parser
    {
        std::string_view p;
        std::size_t i{0};
        Pattern out{};

        struct Reject { std::size_t at; };

        [[noreturn]] void reject() { throw Reject{i}; }
        bool eof() const { return i >= p.size(); }
        int cur() const { return eof() ? -1 : static_cast<unsigned char>(p[i]); }

        int add(Node n)
        {
            out.nodes.push_back(std::move(n));
            return static_cast<int>(out.nodes.size()) - 1;
        }

        int add_kind(Kind k) { Node n; n.kind = k; return add(std::move(n)); }

        int add_set(ByteSet s) { Node n; n.kind = Kind::Set; n.set = s; return add(std::move(n)); }

        ByteSet close_case(ByteSet s) const
        {
            if (!(out.flags & ICASE))
                return s;
            ByteSet r = s;
            for (unsigned c = 0; c < 256; ++c)
                if (s[c])
                    r.set(swap_case(c));
            return r;
        }

        ByteSet one(unsigned c) const { ByteSet s; s.set(c & 255u); return close_case(s); }

        std::size_t number()
        {
            std::size_t v = 0;
            while (is_digit(cur()))
            {
                v = v * 10 + static_cast<std::size_t>(cur() - '0');
                ++i;
            }
            return v;
        }

        std::string name()
        {
            std::string s;
            if (eof() || !is_wordc(cur()) || is_digit(cur()))
                reject();
            while (!eof() && is_wordc(cur()))
                s += p[i++];
            if (cur() != '>')
                reject();
            ++i;
            return s;
        }

        static int hexval(int c)
        {
            if (c >= '0' && c <= '9') return c - '0';
            if (c >= 'a' && c <= 'f') return c - 'a' + 10;
            if (c >= 'A' && c <= 'F') return c - 'A' + 10;
            return -1;
        }

        unsigned hex2()
        {
            unsigned v = 0;
            for (int k = 0; k < 2; ++k)
            {
                int h = hexval(cur());
                if (h < 0)
                    reject();
                v = v * 16 + static_cast<unsigned>(h);
                ++i;
            }
            return v;
        }

        // Characters with one meaning in and outside sets. Returns false if c has none.
        static bool simple_escape(int c, unsigned &lit)
        {
            switch (c)
            {
                case '0': lit = 0; return true;
                case 'n': lit = '\n'; return true;
                case 'r': lit = '\r'; return true;
                case 't': lit = '\t'; return true;
                case 'f': lit = '\f'; return true;
                case 'v': lit = '\v'; return true;
                case 'a': lit = '\a'; return true;
                case 'e': lit = 0x1b; return true;
                default: return false;
            }
        }

        static bool class_escape(int c, ByteSet &s)
        {
            switch (c)
            {
                case 'd': s = class_digit(); return true;
                case 'D': s = ~class_digit(); return true;
                case 'w': s = class_word(); return true;
                case 'W': s = ~class_word(); return true;
                case 's': s = class_space(); return true;
                case 'S': s = ~class_space(); return true;
                case 'R': s = class_brk(); return true;
                case 'N': s = ~class_brk(); return true;
                default: return false;
            }
        }

        // After '\'. Sets `quantifiable`.
        int escape(bool &quantifiable)
        {
            quantifiable = true;
            if (eof())
                reject();
            int c = cur();
            unsigned lit;
            ByteSet s;
            if (c >= '1' && c <= '9')
            {
                Node n;
                n.kind = Kind::Bref;
                n.id = static_cast<int>(number());
                return add(std::move(n));
            }
            ++i;
            if (c == 'k')
            {
                if (cur() != '<')
                    reject();
                ++i;
                Node n;
                n.kind = Kind::NBref;
                n.name = name();
                return add(std::move(n));
            }
            if (c == 'x')
                return add_set(one(hex2()));
            if (c == 'b' || c == 'B' || c == 'A' || c == 'Z')
            {
                quantifiable = false;
                return add_kind(c == 'b' ? Kind::Wordb : c == 'B' ? Kind::NWordb : c == 'A' ? Kind::Boi : Kind::Eoi);
            }
            if (simple_escape(c, lit))
                return add_set(one(lit));
            if (class_escape(c, s))
                return add_set(s);
            return add_set(one(static_cast<unsigned>(c)));
        }

        // One set element after '\'. Returns true and the literal when it denotes a single character.
        bool set_escape(unsigned &lit, ByteSet &s, bool range_end)
        {
            if (eof())
                reject();
            int c = cur();
            if (class_escape(c, s))
            {
                if (range_end)
                    reject();
                ++i;
                return false;
            }
            ++i;
            if (c == 'x')
            {
                lit = hex2();
                return true;
            }
            if (c == 'b')
                lit = '\b';
            else if (!simple_escape(c, lit))
                lit = static_cast<unsigned>(c);
            return true;
        }

        // After '['; consumes the closing ']'.
        int set()
        {
            ByteSet acc;
            bool neg = false;
            if (cur() == '^')
            {
                neg = true;
                ++i;
            }
            bool have_lit = false;   // the previous element is a single literal that can start a range
            bool have_any = false;   // some element precedes
            bool just_range = false; // the previous element completed "x-y"
            unsigned last = 0;
            for (;;)
            {
                if (eof())
                    reject();
                int c = cur();
                if (c == ']')
                {
                    ++i;
                    break;
                }
                if (c == '-' && have_any && !just_range)
                {
                    ++i;
                    if (eof())
                        reject();
                    if (cur() == ']')
                    {
                        acc |= one('-');
                        continue;
                    }
                    unsigned hi;
                    if (cur() == '\\')
                    {
                        ++i;
                        ByteSet dummy;
                        set_escape(hi, dummy, true);
                    }
                    else
                        hi = static_cast<unsigned>(p[i++]) & 255u;
                    if (have_lit)
                    {
                        if (last > hi)
                            out.semantic_error = "range";
                        ByteSet r;
                        for (unsigned x = last; x <= hi; ++x)
                            r.set(x);
                        acc |= close_case(r);
                    }
                    else
                        acc |= one('-') | one(hi);
                    have_lit = false;
                    just_range = true;
                    continue;
                }
                have_any = true;
                just_range = false;
                if (c == '\\')
                {
                    ++i;
                    unsigned lit;
                    ByteSet s;
                    if (set_escape(lit, s, false))
                    {
                        acc |= one(lit);
                        last = lit & 255u;
                        have_lit = true;
                    }
                    else
                    {
                        acc |= s;
                        have_lit = false;
                    }
                    continue;
                }
                ++i;
                acc |= one(static_cast<unsigned>(c));
                last = static_cast<unsigned>(c);
                have_lit = true;
            }
            return add_set(neg ? ~acc : acc);
        }

        // After '('; consumes the closing ')'.
        int group()
        {
            int id = 0;
            Node wrap;
            enum { Capture, Plain, Wrapped } what = Capture;
            if (cur() == '?')
            {
                ++i;
                switch (cur())
                {
                    case ':': ++i; what = Plain; break;
                    case '>':
                        ++i;
                        what = Wrapped;
                        wrap.kind = Kind::Rep;
                        wrap.min = wrap.max = 1;
                        wrap.mode = Mode::Possessive;
                        break;
                    case '=': ++i; what = Wrapped; wrap.kind = Kind::Look; break;
                    case '!': ++i; what = Wrapped; wrap.kind = Kind::Look; wrap.negative = true; break;
                    case '<':
                        ++i;
                        if (cur() == '=' || cur() == '!')
                        {
                            what = Wrapped;
                            wrap.kind = Kind::Look;
                            wrap.behind = true;
                            wrap.negative = cur() == '!';
                            ++i;
                        }
                        else
                        {
                            std::string n = name();
                            out.names.push_back(n);
                            id = ++out.groups;
                        }
                        break;
                    default: reject();
                }
            }
            if (what == Capture)
            {
                if (id == 0)
                {
                    out.names.emplace_back();
                    id = ++out.groups;
                }
                wrap.kind = Kind::Cap;
                wrap.id = id;
                wrap.name = out.names[static_cast<std::size_t>(id) - 1];
            }
            int body;
            if (cur() == ')')
                body = add_kind(Kind::Empty);
            else
                body = alternatives();
            if (cur() != ')')
                reject();
            ++i;
            if (what == Plain)
                return body;
            wrap.kids.push_back(body);
            return add(std::move(wrap));
        }

        int wrap_rep(int body, std::size_t lo, std::size_t hi)
        {
            Node n;
            n.kind = Kind::Rep;
            n.min = lo;
            n.max = hi;
            n.kids.push_back(body);
            if (cur() == '?')
            {
                n.mode = Mode::Lazy;
                ++i;
            }
            else if (cur() == '+')
            {
                n.mode = Mode::Possessive;
                ++i;
            }
            if (hi != INF && lo > hi)
                out.semantic_error = "bounds";
            return add(std::move(n));
        }

        // Parses an optional quantifier of `body`, appending the resulting element(s) to `items`.
        void quantified(int body, std::vector<int> &items)
        {
            for (;;)
            {
                switch (cur())
                {
                    case '*': ++i; items.push_back(wrap_rep(body, 0, INF)); return;
                    case '+': ++i; items.push_back(wrap_rep(body, 1, INF)); return;
                    case '?': ++i; items.push_back(wrap_rep(body, 0, 1)); return;
                    case '{': break;
                    default: items.push_back(body); return;
                }
                ++i;
                if (!is_digit(cur()))
                {
                    // Not a quantifier: '{' is a literal that may itself be quantified
                    items.push_back(body);
                    body = add_set(one('{'));
                    continue;
                }
                std::size_t lo = number(), hi = lo;
                if (cur() == ',')
                {
                    ++i;
                    hi = is_digit(cur()) ? number() : INF;
                }
                if (cur() != '}')
                    reject();
                ++i;
                items.push_back(wrap_rep(body, lo, hi));
                return;
            }
        }

        int sequence()
        {
            std::vector<int> items;
            for (;;)
            {
                int c = cur();
                if (c == -1 || c == '|' || c == ')')
                    break;
                if (c == '*' || c == '+' || c == '?' || c == '{')
                    reject();
                ++i;
                bool quantifiable = true;
                int atom;
                switch (c)
                {
                    case '.':
                        atom = add_set((out.flags & DOTALL) ? ~ByteSet{} : ~class_brk());
                        break;
                    case '^': atom = add_kind(Kind::Bol); quantifiable = false; break;
                    case '$': atom = add_kind(Kind::Eol); quantifiable = false; break;
                    case '[': atom = set(); break;
                    case '(': atom = group(); break;
                    case '\\': atom = escape(quantifiable); break;
                    default: atom = add_set(one(static_cast<unsigned>(c)));
                }
                if (quantifiable)
                    quantified(atom, items);
                else
                    items.push_back(atom);
            }
            if (items.empty())
                reject();
            if (items.size() == 1)
                return items[0];
            Node n;
            n.kind = Kind::Seq;
            n.kids = std::move(items);
            return add(std::move(n));
        }

        int alternatives()
        {
            std::vector<int> alts;
            alts.push_back(sequence());
            while (cur() == '|')
            {
                ++i;
                alts.push_back(sequence());
            }
            if (alts.size() == 1)
                return alts[0];
            Node n;
            n.kind = Kind::Alt;
            n.kids = std::move(alts);
            return add(std::move(n));
        }

    public:
        static Pattern parse(std::string_view pattern, unsigned flags)
        {
            Parser ps;
            ps.p = pattern;
            ps.out.flags = flags;
            try
            {
                if (pattern.empty())
                    ps.out.root = ps.add_kind(Kind::Empty);
                else
                    ps.out.root = ps.alternatives();
                if (!ps.eof())
                    ps.reject();
                ps.out.accepted = true;
            }
            catch (Reject const &r)
            {
                ps.out.accepted = false;
                ps.out.error_at = r.at;
            }
            if (ps.out.accepted)
                ps.check_references();
            return std::move(ps.out);
        }

    private:
        void check_references()
        {
            for (auto &n : out.nodes)
            {
                if (n.kind == Kind::Bref && n.id > out.groups)
                    out.semantic_error = "undefined backref";
                if (n.kind == Kind::NBref)
                {
                    int count = 0;
                    for (std::size_t g = 0; g < out.names.size(); ++g)
                        if (out.names[g] == n.name)
                        {
                            ++count;
                            n.id = static_cast<int>(g) + 1;
                        }
                    if (count != 1)
                        out.semantic_error = "undefined or ambiguous named backref";
                }
            }
        }
    };

    struct Match
    {
        bool matched{false};
        std::vector<int> s, e; // group spans; -1 when the group is unset
    };

    struct StepLimit : std::runtime_error
    {
        StepLimit() : std::runtime_error("reference step limit") {}
    };

    struct Stats
    {
        std::uint64_t states{0}, transitions{0}, runs{0};
    };

    class Machine
    {
        Pattern const &pat;
        std::string_view in;
        std::size_t steps{0};

        enum class KK : std::uint8_t { Accept, Exact, Node, CapEnd, Rep, Fix };
        struct K
        {
            KK kind;
            int node;
            std::size_t count;
            int pos;
            int next;
        };
        struct Choice { int k; int pos; std::size_t trail; };
        struct Undo { int id, s, e; };

        std::vector<K> ks;
        std::vector<Choice> choices;
        std::vector<Undo> trail;
        std::vector<int> cs, ce;
        std::vector<std::uint32_t> seen;
        std::uint32_t epoch{0};

        int mk(KK kind, int node, std::size_t count, int pos, int next)
        {
            ks.push_back(K{kind, node, count, pos, next});
            return static_cast<int>(ks.size()) - 1;
        }

        void set_cap(int id, int s, int e)
        {
            trail.push_back(Undo{id, cs[id], ce[id]});
            cs[id] = s;
            ce[id] = e;
        }

        void undo(std::size_t to)
        {
            while (trail.size() > to)
            {
                auto &u = trail.back();
                cs[u.id] = u.s;
                ce[u.id] = u.e;
                trail.pop_back();
            }
        }

        // Runs continuation k from pos; on success keeps the captures and returns the end position, else -1.
        int run(int k, int pos, bool back)
        {
            std::size_t const base = choices.size();
            std::size_t const trail0 = trail.size();
            int const n = static_cast<int>(in.size());
            auto fail = [&]() -> bool {
                if (choices.size() == base)
                {
                    undo(trail0);
                    return false;
                }
                auto c = choices.back();
                choices.pop_back();
                undo(c.trail);
                k = c.k;
                pos = c.pos;
                return true;
            };
            for (;;)
            {
                if (++steps > step_limit)
                    throw StepLimit{};
                ++stats->transitions;
                K const f = ks[static_cast<std::size_t>(k)];
                bool ok = true;
                switch (f.kind)
                {
                    case KK::Accept:
                        choices.resize(base);
                        return pos;
                    case KK::Exact:
                        if (pos == n)
                        {
                            choices.resize(base);
                            return pos;
                        }
                        ok = false;
                        break;
                    case KK::CapEnd:
                        set_cap(f.node, back ? pos : f.pos, back ? f.pos : pos);
                        k = f.next;
                        break;
                    case KK::Fix: // exactly `count` more iterations
                        if (f.count == 0)
                            k = f.next;
                        else
                            k = mk(KK::Node, pat.nodes[f.node].kids[0], 0, 0, mk(KK::Fix, f.node, f.count - 1, 0, f.next));
                        break;
                    case KK::Rep:
                    {
                        Node const &nd = pat.nodes[f.node];
                        if (nd.max == INF && f.count > nd.min && f.pos == pos)
                        {
                            ok = false; // an optional iteration of an unbounded loop has to make progress
                            break;
                        }
                        if (f.count < nd.min)
                        {
                            k = mk(KK::Node, nd.kids[0], 0, 0, mk(KK::Rep, f.node, f.count + 1, pos, f.next));
                            break;
                        }
                        if (nd.max != INF && f.count >= nd.max)
                        {
                            k = f.next;
                            break;
                        }
                        bool greedy = (nd.mode == Mode::Greedy) != bool(pat.flags & UNGREEDY);
                        int body = mk(KK::Node, nd.kids[0], 0, 0, mk(KK::Rep, f.node, f.count + 1, pos, f.next));
                        if (greedy)
                        {
                            choices.push_back(Choice{f.next, pos, trail.size()});
                            k = body;
                        }
                        else
                        {
                            choices.push_back(Choice{body, pos, trail.size()});
                            k = f.next;
                        }
                        break;
                    }
                    case KK::Node:
                    {
                        mark(f.node, pos);
                        Node const &nd = pat.nodes[f.node];
                        switch (nd.kind)
                        {
                            case Kind::Empty: k = f.next; break;
                            case Kind::Set:
                                if (!back && pos < n && nd.set[static_cast<unsigned char>(in[pos])])
                                {
                                    ++pos;
                                    k = f.next;
                                }
                                else if (back && pos > 0 && nd.set[static_cast<unsigned char>(in[pos - 1])])
                                {
                                    --pos;
                                    k = f.next;
                                }
                                else
                                    ok = false;
                                break;
                            case Kind::Seq:
                            {
                                int next = f.next;
                                if (back)
                                    for (int kid : nd.kids)
                                        next = mk(KK::Node, kid, 0, 0, next);
                                else
                                    for (std::size_t j = nd.kids.size(); j-- > 0;)
                                        next = mk(KK::Node, nd.kids[j], 0, 0, next);
                                k = next;
                                break;
                            }
                            case Kind::Alt:
                                for (std::size_t j = nd.kids.size(); j-- > 1;)
                                    choices.push_back(Choice{mk(KK::Node, nd.kids[j], 0, 0, f.next), pos, trail.size()});
                                k = mk(KK::Node, nd.kids[0], 0, 0, f.next);
                                break;
                            case Kind::Cap:
                                k = mk(KK::Node, nd.kids[0], 0, 0, mk(KK::CapEnd, nd.id, 0, pos, f.next));
                                break;
                            case Kind::Rep:
                                if (nd.mode == Mode::Possessive)
                                {
                                    int end = run(mk(KK::Fix, f.node, nd.min, 0, accept()), pos, back);
                                    if (end < 0)
                                    {
                                        ok = false;
                                        break;
                                    }
                                    for (std::size_t c = nd.min; nd.max == INF || c < nd.max; ++c)
                                    {
                                        std::size_t const t = trail.size();
                                        int next = run(mk(KK::Node, nd.kids[0], 0, 0, accept()), end, back);
                                        if (next < 0)
                                            break;
                                        if (next == end && nd.max == INF)
                                        {
                                            undo(t);
                                            break;
                                        }
                                        if (next == end && trail.size() == t)
                                            break; // further iterations cannot change anything
                                        end = next;
                                    }
                                    pos = end;
                                    k = f.next;
                                }
                                else
                                    k = mk(KK::Rep, f.node, 0, -1, f.next);
                                break;
                            case Kind::Look:
                            {
                                std::size_t const t = trail.size();
                                int end = run(mk(KK::Node, nd.kids[0], 0, 0, accept()), pos, nd.behind);
                                ok = (end >= 0) != nd.negative;
                                if (nd.negative)
                                    undo(t);
                                if (ok)
                                    k = f.next;
                                break;
                            }
                            case Kind::Bol:
                                ok = pos == 0 || ((pat.flags & MULTILINE) && is_brk(ch(pos - 1)));
                                if (ok) k = f.next;
                                break;
                            case Kind::Eol:
                                ok = pos == n || ((pat.flags & MULTILINE) && is_brk(ch(pos)));
                                if (ok) k = f.next;
                                break;
                            case Kind::Boi: ok = pos == 0; if (ok) k = f.next; break;
                            case Kind::Eoi: ok = pos == n; if (ok) k = f.next; break;
                            case Kind::Wordb:
                            case Kind::NWordb:
                            {
                                bool l = pos > 0 && is_wordc(ch(pos - 1));
                                bool r = pos < n && is_wordc(ch(pos));
                                ok = (l != r) == (nd.kind == Kind::Wordb);
                                if (ok) k = f.next;
                                break;
                            }
                            case Kind::Bref:
                            case Kind::NBref:
                            {
                                int len = cs[nd.id] < 0 ? 0 : ce[nd.id] - cs[nd.id];
                                int at = back ? pos - len : pos;
                                if (at < 0 || at + len > n)
                                {
                                    ok = false;
                                    break;
                                }
                                for (int j = 0; j < len && ok; ++j)
                                {
                                    unsigned a = ch(cs[nd.id] + j), b = ch(at + j);
                                    ok = a == b || ((pat.flags & ICASE) && swap_case(a) == b);
                                }
                                if (ok)
                                {
                                    pos = back ? at : at + len;
                                    k = f.next;
                                }
                                break;
                            }
                        }
                        break;
                    }
                }
                if (!ok && !fail())
                    return -1;
            }
        }

        int accept_k{-1};
        int accept()
        {
            if (accept_k < 0)
                accept_k = mk(KK::Accept, -1, 0, 0, -1);
            return accept_k;
        }

        unsigned ch(int at) const { return static_cast<unsigned char>(in[static_cast<std::size_t>(at)]); }

        void mark(int node, int pos)
        {
            auto idx = static_cast<std::size_t>(node) * (in.size() + 1) + static_cast<std::size_t>(pos);
            if (seen[idx] != epoch)
            {
                seen[idx] = epoch;
                ++stats->states;
            }
        }

    public:
        static constexpr std::size_t step_limit = 4'000'000;
        Stats *stats;

        Machine(Pattern const &p, Stats *st) : pat{p}, stats{st} {}

        Match attempt(std::string_view input, std::size_t start, bool exact)
        {
            in = input;
            steps = 0;
            ks.clear();
            choices.clear();
            trail.clear();
            accept_k = -1;
            cs.assign(static_cast<std::size_t>(pat.groups) + 1, -1);
            ce = cs;
            std::size_t need = pat.nodes.size() * (in.size() + 1);
            if (seen.size() < need)
                seen.resize(need, 0);
            ++epoch;
            ++stats->runs;
            int k = mk(KK::Node, pat.root, 0, 0, exact ? mk(KK::Exact, -1, 0, 0, -1) : accept());
            int end = run(k, static_cast<int>(start), false);
            Match m;
            m.matched = end >= 0;
            m.s = cs;
            m.e = ce;
            if (m.matched)
            {
                m.s[0] = static_cast<int>(start);
                m.e[0] = end;
            }
            return m;
        }

        Match match(std::string_view input, std::size_t start = 0) { return attempt(input, start, true); }
        Match prefix(std::string_view input, std::size_t start = 0) { return attempt(input, start, false); }
        Match search(std::string_view input, std::size_t start = 0)
        {
            for (; start < input.size(); ++start)
            {
                Match m = attempt(input, start, false);
                if (m.matched)
                    return m;
            }
            return attempt(input, start, false);
        }
    };

    // Denotational semantics of the pure fragment (no captures' contents, atomic groups, possessive loops or
    // backreferences): the set of positions at which a node can end when started at a position.
    class Denotation
    {
        Pattern const &pat;
        std::string_view in;
        std::map<std::pair<int, int>, std::set<int>> fwd, bwd;

        using Ends = std::set<int>;

        Ends step(int node, Ends const &from, bool back)
        {
            Ends r;
            for (int p : from)
            {
                auto const &e = ends(node, p, back);
                r.insert(e.begin(), e.end());
            }
            return r;
        }

    public:
        Denotation(Pattern const &p, std::string_view input) : pat{p}, in{input} {}

        static bool applicable(Pattern const &p)
        {
            for (auto const &n : p.nodes)
                if (n.kind == Kind::Bref || n.kind == Kind::NBref || (n.kind == Kind::Rep && n.mode == Mode::Possessive))
                    return false;
            return true;
        }

        Ends const &ends(int node, int pos, bool back)
        {
            auto &memo = back ? bwd : fwd;
            auto it = memo.find({node, pos});
            if (it != memo.end())
                return it->second;
            Node const &nd = pat.nodes[static_cast<std::size_t>(node)];
            int const n = static_cast<int>(in.size());
            auto chr = [&](int at) { return static_cast<unsigned>(static_cast<unsigned char>(in[static_cast<std::size_t>(at)])); };
            Ends r;
            auto zero = [&](bool c) { if (c) r.insert(pos); };
            switch (nd.kind)
            {
                case Kind::Empty: r.insert(pos); break;
                case Kind::Set:
                    if (!back && pos < n && nd.set[chr(pos)]) r.insert(pos + 1);
                    if (back && pos > 0 && nd.set[chr(pos - 1)]) r.insert(pos - 1);
                    break;
                case Kind::Seq:
                {
                    Ends cur{pos};
                    if (back)
                        for (std::size_t j = nd.kids.size(); j-- > 0;)
                            cur = step(nd.kids[j], cur, back);
                    else
                        for (int kid : nd.kids)
                            cur = step(kid, cur, back);
                    r = cur;
                    break;
                }
                case Kind::Alt:
                    for (int kid : nd.kids)
                    {
                        auto const &e = ends(kid, pos, back);
                        r.insert(e.begin(), e.end());
                    }
                    break;
                case Kind::Cap: r = ends(nd.kids[0], pos, back); break;
                case Kind::Rep:
                {
                    Ends cur{pos};
                    for (std::size_t j = 0; j < nd.min && !cur.empty(); ++j)
                        cur = step(nd.kids[0], cur, back);
                    r = cur;
                    for (std::size_t j = nd.min; j < nd.max && j < nd.min + static_cast<std::size_t>(n) + 2; ++j)
                    {
                        cur = step(nd.kids[0], cur, back);
                        r.insert(cur.begin(), cur.end());
                    }
                    break;
                }
                case Kind::Look: zero(ends(nd.kids[0], pos, nd.behind).empty() == nd.negative); break;
                case Kind::Bol: zero(pos == 0 || ((pat.flags & MULTILINE) && is_brk(chr(pos - 1)))); break;
                case Kind::Eol: zero(pos == n || ((pat.flags & MULTILINE) && is_brk(chr(pos)))); break;
                case Kind::Boi: zero(pos == 0); break;
                case Kind::Eoi: zero(pos == n); break;
                case Kind::Wordb:
                case Kind::NWordb:
                {
                    bool l = pos > 0 && is_wordc(chr(pos - 1)), rr = pos < n && is_wordc(chr(pos));
                    zero((l != rr) == (nd.kind == Kind::Wordb));
                    break;
                }
                default: break;
            }
            return memo[{node, pos}] = r;
        }

        bool matches() { return ends(pat.root, 0, false).count(static_cast<int>(in.size())) != 0; }
        bool can_start(int pos) { return !ends(pat.root, pos, false).empty(); }
    };
}
#endif
