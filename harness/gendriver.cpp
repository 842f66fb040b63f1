// Explores every sequence of operations, up to a depth, on a pair of generators or ranges, for every pattern and input, and every
// linear way of draining them, against the sequence of matches given by the reference machine.
//
// usage: gendriver --inputs FILE --shard I/N --depth D [--only CASE] [--case-timeout S]
#include "gencases.hpp"
#include "../model/ref.hpp"
#include "drivercommon.hpp"

#include <memory>

using namespace vh;

static char const *kind_name[] = {"tokenizer", "searcher", "tokenize", "find_all"};
static char const *gen_text[] = {"show(x0.next());", "show(x0());", "show(x1.next());", "{ decltype(x0) copy{x0}; x1 = copy; }", "x0 = x1;", "x1 = std::move(x0); x0 = x1;", "x1 = make();"};
static char const *range_text[] = {"++i0;", "i0++;", "++i1;", "i0 = x0.begin();", "{ decltype(x0) copy{x0}; x1 = copy; i1 = x1.begin(); }", "x0 = x1; i0 = x0.begin();", "x1 = make(); i1 = x1.begin();"};

struct Explore
{
    ref::Pattern const &pat;
    std::vector<ref::Match> seq; // successive results; the last one is the first unmatched one, or the first empty one
    int kind;
    std::string input;
    char const *b;
    std::uint64_t nodes = 0, edges = 0, checks = 0;
    std::vector<int> trace;
    std::string why;

    static ref::Match const &none()
    {
        static ref::Match const m{};
        return m;
    }

    // The k-th result (0-based)
    ref::Match const &at(int k) const
    {
        return k < static_cast<int>(seq.size()) ? seq[static_cast<std::size_t>(k)] : none();
    }
    bool nonempty(int k) const { return at(k).matched && at(k).s[0] != at(k).e[0]; }

    bool fail(std::string const &what)
    {
        if (why.empty())
        {
            why = what + " | ";
            for (int op : trace)
                why += std::string(kind < 2 ? gen_text[op] : range_text[op]) + " ";
        }
        return false;
    }

    bool check(Obs const &o, ref::Match const &exp)
    {
        ++checks;
        std::string w = compare_obs(o, exp, pat);
        return w.empty() || fail(w);
    }

    bool look(System &s, int k0, int k1)
    {
        for (int slot = 0; slot < 2; ++slot)
        {
            int k = slot ? k1 : k0;
            int want;
            if (kind < 2)
                want = k == 0 || nonempty(k - 1) ? 5 : 0;
            else
                want = at(k).matched ? 5 : 0;
            if (s.live(slot) != want)
                return fail(want ? "reported as ended too early" : "not reported as ended");
            if (kind >= 2 && want)
                for (int way = 0; way < 5; ++way)
                {
                    Obs o{};
                    s.current(slot, way, o);
                    if (!check(o, at(k)))
                        return false;
                }
        }
        return true;
    }

    // k0, k1: how many results each generator has yielded, or the index of each range's current element
    bool dfs(System &s, int k0, int k1, int depth)
    {
        ++nodes;
        if (!look(s, k0, k1))
            return false;
        if (depth == 0)
            return true;
        int const ops = kind < 2 ? static_cast<int>(GEN_OPS) : static_cast<int>(RANGE_OPS);
        for (int op = 0; op < ops; ++op)
        {
            int n0 = k0, n1 = k1;
            ref::Match const *exp = nullptr;
            if (kind < 2)
            {
                switch (op)
                {
                    case NEXT0: case CALL0: exp = &at(k0); n0 = k0 + 1; break;
                    case NEXT1: exp = &at(k1); n1 = k1 + 1; break;
                    case COPY01: case MOVE01: n1 = k0; break;
                    case COPY10: n0 = k1; break;
                    case FRESH1: n1 = 0; break;
                }
            }
            else
            {
                switch (op)
                {
                    case PRE0: case POST0: if (!at(k0).matched) continue; n0 = k0 + 1; break;
                    case PRE1: if (!at(k1).matched) continue; n1 = k1 + 1; break;
                    case RCOPY01: n1 = k0; break;
                    case RCOPY10: n0 = k1; break;
                    case RFRESH1: n1 = 0; break;
                }
            }
            ++edges;
            std::unique_ptr<System> c{s.clone()};
            trace.push_back(op);
            Obs o{};
            c->apply(op, o);
            if (exp && !check(o, *exp))
                return false;
            if (!dfs(*c, n0, n1, depth - 1))
                return false;
            trace.pop_back();
        }
        return true;
    }
};

int main(int argc, char **argv)
{
    Options opt{argc, argv};
    auto families = read_inputs(opt.inputs_file);
    install_handlers();
    Arena arena;
    ref::Stats stats;
    std::uint64_t cases = 0, evals = 0, nodes = 0, edges = 0, matched = 0;
    long violations = 0;
    std::vector<std::string> samples;
    for (auto const *c : select_cases(opt))
    {
        auto pat = ref::Parser::parse({c->pattern, c->length}, c->flags);
        cur_case = c->id;
        if (!pat.accepted || !pat.semantic_error.empty())
        {
            std::printf("MODEL case=%d rejects the pattern (%s)\n", c->id, pat.semantic_error.c_str());
            return 5;
        }
        Obs ask{};
        c->run(0, nullptr, nullptr, ask);
        GenCase const &gc = *reinterpret_cast<GenCase const *>(ask.problem);
        ref::Machine machine{pat, &stats};
        ++cases;
        start_timer(opt.timeout);
        long case_violations = 0;
        for (auto const &input : families.at(static_cast<std::size_t>(c->family)))
        {
            std::string const h = hex(input);
            set_input(h);
            for (int kind = 0; kind < 4; ++kind)
            {
                cur_op = kind;
                Explore ex{pat, {}, kind, input, nullptr, 0, 0, 0, {}, {}};
                bool const tok = kind == TOKENIZER || kind == TOKENIZE;
                std::size_t pos = 0;
                in_library = false;
                for (;;)
                {
                    auto m = tok ? machine.prefix(input, pos) : machine.search(input, pos);
                    ex.seq.push_back(m);
                    if (!m.matched || m.s[0] == m.e[0])
                        break;
                    pos = static_cast<std::size_t>(m.e[0]);
                }
                in_library = true;
                int const total = static_cast<int>(ex.seq.size()) - (ex.seq.back().matched ? 0 : 1);
                matched += static_cast<std::uint64_t>(total);
                for (int side = 0; side < 2; ++side)
                {
                    char *b = side ? arena.right(input.size()) : arena.left();
                    arena.put(b, input);
                    ex.b = b;
                    // Linear runs
                    std::vector<Obs> obs(static_cast<std::size_t>(total) + 4);
                    for (int way = 0; way < DRAIN_WAYS && ex.why.empty(); ++way)
                    {
                        int limit = static_cast<int>(obs.size());
                        int n = gc.drain(kind, way, b, b + input.size(), obs.data(), limit);
                        if (n < 0)
                            continue;
                        ++evals;
                        if (n != (way < 2 ? limit : total))
                            ex.fail("yielded " + std::to_string(n) + " results, expected " + std::to_string(way < 2 ? limit : total) + ", drained in way " + std::to_string(way));
                        for (int i = 0; i < n && ex.why.empty(); ++i)
                            if (!ex.check(obs[static_cast<std::size_t>(i)], ex.at(i)))
                                ex.why += "result " + std::to_string(i) + " drained in way " + std::to_string(way);
                    }
                    // All sequences of operations
                    if (ex.why.empty() && (side == 0) && input.size() <= static_cast<std::size_t>(opt.dfs_length))
                    {
                        std::unique_ptr<System> s{gc.make(kind, b, b + input.size())};
                        ex.dfs(*s, 0, 0, opt.depth);
                        ++evals;
                    }
                    if (!arena.unchanged(b, input))
                        ex.fail("wrote to the input");
                    arena.restore(b, input.size());
                }
                nodes += ex.nodes;
                edges += ex.edges;
                evals += ex.checks;
                if (!ex.why.empty())
                {
                    ++violations;
                    if (case_violations++ < 1 && violations <= opt.max_violations)
                        std::printf("DIFF case=%d op=%d input=%s why=%s\n", c->id, kind, h.c_str(), ex.why.c_str());
                }
                if (cases % 7 == 1 && samples.size() < 3 && total > 1 && input.size() > 3)
                    samples.push_back("{\"pattern_hex\":\"" + hex({c->pattern, c->length}) + "\",\"kind\":\"" + kind_name[kind] + "\",\"input_hex\":\"" + h +
                                      "\",\"results\":" + std::to_string(total) + ",\"operation_sequences\":" + std::to_string(ex.nodes) + "}");
            }
        }
    }
    stop_timer();
    std::printf("STATS {\"cases\":%llu,\"evals\":%llu,\"matched\":%llu,\"states\":%llu,\"transitions\":%llu,\"violations\":%ld,\"samples\":[",
                (unsigned long long) cases, (unsigned long long) evals, (unsigned long long) matched, (unsigned long long) (stats.states + nodes),
                (unsigned long long) (stats.transitions + edges), violations);
    for (std::size_t i = 0; i < samples.size(); ++i)
        std::printf("%s%s", i ? "," : "", samples[i].c_str());
    std::printf("]}\n");
    std::fflush(stdout);
    return violations ? 1 : 0;
}
