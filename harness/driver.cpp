// Explores every (case, operation, input) triple of the compiled pattern space, compares the library's observation with
// the reference machine, and reports the number of model states and transitions covered.
//
// usage: driver --inputs FILE --shard I/N [--only CASE] [--case-timeout S] [--max-violations K] [--selfcheck]
#include "drivercommon.hpp"

using namespace vh;

static char const *op_name[] = {"match", "match_prefix", "search"};

int main(int argc, char **argv)
{
    Options opt{argc, argv};
    auto families = read_inputs(opt.inputs_file);
    install_handlers();

    Arena arena;
    ref::Stats stats;
    std::uint64_t evals = 0, cases = 0, matched = 0, selfchecks = 0, skipped = 0;
    long violations = 0;
    std::vector<std::string> samples;

    for (auto const *c : select_cases(opt))
    {
        auto pat = ref::Parser::parse({c->pattern, c->length}, c->flags);
        cur_case = c->id;
        if (!pat.accepted || !pat.semantic_error.empty())
        {
            std::printf("MODEL case=%d rejects the pattern (%s)\n", c->id, pat.semantic_error.c_str());
            return 5;
        }
        ref::Machine machine{pat, &stats};
        bool const pure = opt.selfcheck && ref::Denotation::applicable(pat);
        ++cases;
        start_timer(opt.timeout);
        long case_violations = 0;
        for (auto const &input : families.at(static_cast<std::size_t>(c->family)))
        {
            for (int op = 0; op < 3; ++op)
            {
                if (!(c->ops & (1u << op)))
                    continue;
                ref::Match exp;
                in_library = false;
                try
                {
                    exp = op == MATCH ? machine.match(input) : op == PREFIX ? machine.prefix(input) : machine.search(input);
                }
                catch (ref::StepLimit const &)
                {
                    if (skipped++ < 3)
                        std::fprintf(stderr, "SKIP %s op=%d length=%zu\n", c->pattern, op, input.size());
                    continue;
                }
                if (pure && input.size() <= 400)
                {
                    ref::Denotation den{pat, input};
                    bool d;
                    int first = -1;
                    if (op == MATCH)
                        d = den.matches();
                    else if (op == PREFIX)
                        d = den.can_start(0);
                    else
                    {
                        d = false;
                        for (int p = 0; p <= static_cast<int>(input.size()) && !d; ++p)
                            if (den.can_start(p))
                            {
                                d = true;
                                first = p;
                            }
                    }
                    ++selfchecks;
                    if (d != exp.matched || (op == SEARCH && d && first != exp.s[0]))
                    {
                        std::printf("MODEL case=%d op=%d input=%s machine and denotation disagree\n", c->id, op, hex(input).c_str());
                        return 5;
                    }
                }
                std::string const h = hex(input);
                set_input(h);
                for (int side = 0; side < 2; ++side)
                {
                    char *b = side ? arena.right(input.size()) : arena.left();
                    arena.put(b, input);
                    cur_op = op;
                    Obs o;
                    o.groups = 0;
                    o.matched = false;
                    o.problem = nullptr;
                    in_library = true;
                    c->run(op, b, b + input.size(), o);
                    in_library = false;
                    ++evals;
                    bool const written = !arena.unchanged(b, input);
                    arena.restore(b, input.size());
                    std::string why = written ? "wrote to the input" : compare_obs(o, exp, pat);
                    if (!why.empty())
                    {
                        ++violations;
                        if (case_violations++ < 1 && violations <= opt.max_violations)
                            std::printf("DIFF case=%d op=%d input=%s why=%s (%s)\n", c->id, op, h.c_str(), why.c_str(), op_name[op]);
                    }
                    matched += side == 0 && exp.matched;
                }
                if (cases % 97 == 1 && samples.size() < 3 && exp.matched && input.size() > 2)
                    samples.push_back("{\"pattern_hex\":\"" + hex({c->pattern, c->length}) + "\",\"flags\":" + std::to_string(c->flags) +
                                      ",\"op\":\"" + op_name[op] + "\",\"input_hex\":\"" + hex(input) + "\",\"span\":[" +
                                      std::to_string(exp.s[0]) + "," + std::to_string(exp.e[0]) + "]}");
            }
        }
    }
    stop_timer();
    std::printf("STATS {\"cases\":%llu,\"evals\":%llu,\"matched\":%llu,\"states\":%llu,\"transitions\":%llu,\"runs\":%llu,\"selfchecks\":%llu,"
                "\"skipped\":%llu,\"violations\":%ld,\"samples\":[",
                (unsigned long long) cases, (unsigned long long) (evals + extra_checks), (unsigned long long) matched, (unsigned long long) (stats.states + extra_states),
                (unsigned long long) (stats.transitions + extra_transitions), (unsigned long long) stats.runs, (unsigned long long) selfchecks,
                (unsigned long long) skipped, violations);
    for (std::size_t i = 0; i < samples.size(); ++i)
        std::printf("%s%s", i ? "," : "", samples[i].c_str());
    std::printf("]}\n");
    std::fflush(stdout);
    return violations ? 1 : 0;
}
