// Explores histories and interleavings of calls and compares every call with the reference machine's result for that call alone.
//
// usage: puredriver --inputs FILE --shard I/N --mode walk|schedules|nested|fresh|free|held|soak|pairs|reuse --depth D
#include "gencases.hpp"
#include "pure.hpp"
#include "../model/ref.hpp"
#include "drivercommon.hpp"

#include <atomic>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <sys/wait.h>

using namespace vh;

namespace vh { void (*point_hook)() = nullptr; }

static char const *op_names[] = {"match", "match_prefix", "search", "all matches"};

struct Pat
{
    Case const *c;
    ref::Pattern pat;
    std::vector<std::string> inputs;
    std::vector<std::array<ref::Match, 3>> expected;
    std::vector<long> all; // the summary of all matches
    GenCase const *gen;
};

static std::deque<Pat> pats;
static ref::Stats stats;
static std::uint64_t states = 0, transitions = 0, evals = 0;
static long violations = 0;
static std::vector<std::string> samples;

static void report(Pat const &p, int op, std::string const &input, std::string const &why)
{
    if (violations++ < 3)
        std::printf("DIFF case=%d op=%d input=%s why=%s\n", p.c->id, op, hex(input).c_str(), why.c_str());
}

static std::string show(Pat const &p, int op, std::string const &input)
{
    std::string s = "/" + std::string(p.c->pattern, p.c->length) + "/";
    for (std::size_t b = 0; b < 5; ++b)
        if (p.c->flags & (1u << b))
            s += "idmug"[b];
    return s + "." + op_names[op] + "(" + input + ")";
}

static long summary(Pat const &p, ref::Machine &m, std::string const &input)
{
    long sum = 0;
    int n = 0;
    std::size_t pos = 0;
    for (int i = 0; i < 12; ++i)
    {
        auto r = m.search(input, pos);
        if (!r.matched)
            break;
        ++n;
        for (int g = 0; g <= p.pat.groups; ++g)
        {
            auto k = static_cast<std::size_t>(g);
            sum = sum * 31 + (r.s[k] == r.e[k] ? 0 : r.s[k] * 100 + r.e[k] + 1);
        }
        if (r.s[0] == r.e[0])
            break;
        pos = static_cast<std::size_t>(r.e[0]);
    }
    return sum * 16 + n;
}

static std::string judge(Pat const &p, int op, std::size_t in, Obs const &o)
{
    std::string w = compare_obs(o, p.expected[in][static_cast<std::size_t>(op == 3 ? 2 : op)], p.pat);
    if (w.empty() && op == 3 && o.len[MAXG - 1] != p.all[in])
        w = "the sequence of all matches differs";
    return w;
}

// ------------------------------------------------------------------------------------------------------------ histories
struct Letter
{
    std::size_t pat, input;
    int op;   // 0..2: a call; 3: the generator makes a step; 4: the generator starts again
    int kind; // of the generator
    std::size_t slot;
};

struct Generator
{
    std::unique_ptr<System> sys;
    std::vector<ref::Match> seq;
    int at = 0;
    std::vector<char> text;
};

static std::vector<int> de_bruijn(int k, int n)
{
    std::vector<int> a(static_cast<std::size_t>(k * n), 0), seq;
    std::function<void(int, int)> db = [&](int t, int p) {
        if (t > n)
        {
            if (n % p == 0)
                for (int i = 1; i <= p; ++i)
                    seq.push_back(a[static_cast<std::size_t>(i)]);
            return;
        }
        a[static_cast<std::size_t>(t)] = a[static_cast<std::size_t>(t - p)];
        db(t + 1, p);
        for (int i = a[static_cast<std::size_t>(t - p)] + 1; i < k; ++i)
        {
            a[static_cast<std::size_t>(t)] = i;
            db(t + 1, t);
        }
    };
    db(1, 1);
    for (int i = 0; i + 1 < n; ++i)
        seq.push_back(seq[static_cast<std::size_t>(i)]);
    return seq;
}

static std::vector<Letter> alphabet(std::size_t npats, std::size_t ngens)
{
    std::vector<Letter> out;
    for (std::size_t p = 0; p < std::min(npats, pats.size()); ++p)
        for (std::size_t i = 0; i < pats[p].inputs.size(); ++i)
            for (int op : {0, 2})
                out.push_back({p, i, op, 0, 0});
    std::size_t slot = 0;
    for (std::size_t p = 0; p < std::min(ngens, pats.size()); ++p)
    {
        int kind = static_cast<int>(p % 4);
        for (std::size_t i = 0; i < 2; ++i, ++slot)
        {
            out.push_back({p, i, 3, kind, slot});
            if (i == 0)
                out.push_back({p, i, 4, kind, slot});
        }
    }
    return out;
}

struct World
{
    // Every call reads its input at the same address
    alignas(64) char buffer[256];
    std::vector<Generator> gens{16};

    void start(Letter const &l)
    {
        Pat &p = pats[l.pat];
        Generator &g = gens[l.slot];
        std::string const &in = p.inputs[l.input];
        if (g.seq.empty())
        {
            ref::Machine m{p.pat, &stats};
            std::size_t pos = 0;
            for (;;)
            {
                auto r = l.kind == TOKENIZER || l.kind == TOKENIZE ? m.prefix(in, pos) : m.search(in, pos);
                g.seq.push_back(r);
                if (!r.matched || r.s[0] == r.e[0])
                    break;
                pos = static_cast<std::size_t>(r.e[0]);
            }
            g.text.assign(in.begin(), in.end());
            g.text.push_back('a');
        }
        g.sys.reset(p.gen->make(l.kind, g.text.data(), g.text.data() + in.size()));
        g.at = 0;
    }

    std::string act(Letter const &l)
    {
        Pat &p = pats[l.pat];
        std::string const &in = p.inputs[l.input];
        if (l.op < 3)
        {
            std::memcpy(buffer, in.data(), in.size());
            std::memset(buffer + in.size(), 'a', 8);
            Obs o{};
            p.c->run(l.op, buffer, buffer + in.size(), o);
            ++evals;
            return judge(p, l.op, l.input, o);
        }
        Generator &g = gens[l.slot];
        if (l.op == 4 || !g.sys)
        {
            start(l);
            if (l.op == 4)
                return "";
        }
        static ref::Match const none{};
        auto at = [&](int k) -> ref::Match const & { return k < static_cast<int>(g.seq.size()) ? g.seq[static_cast<std::size_t>(k)] : none; };
        ++evals;
        Obs o{};
        if (l.kind < 2)
        {
            g.sys->apply(NEXT0, o);
            return compare_obs(o, at(g.at++), p.pat);
        }
        if (!at(g.at).matched)
        {
            if (g.sys->live(0) != 0)
                return "a range goes on after its end";
            start(l);
            return "";
        }
        if (g.sys->live(0) != 5)
            return "a range ended too early";
        g.sys->current(0, 0, o);
        std::string w = compare_obs(o, at(g.at), p.pat);
        Obs ignore{};
        g.sys->apply(PRE0, ignore);
        ++g.at;
        return w;
    }
};

static std::string show(Letter const &l)
{
    static char const *kinds[] = {"tokenizer", "searcher", "tokenize", "find_all"};
    Pat const &p = pats[l.pat];
    if (l.op < 3)
        return show(p, l.op, p.inputs[l.input]);
    return std::string(l.op == 3 ? "step " : "start ") + "/" + std::string(p.c->pattern, p.c->length) + "/." + kinds[l.kind] + "(" + p.inputs[l.input] + ")";
}

static void walk(Options const &opt, std::size_t npats, std::size_t ngens, int depth)
{
    auto letters = alphabet(npats, ngens);
    auto seq = de_bruijn(static_cast<int>(letters.size()), depth);
    std::size_t per = seq.size() / static_cast<std::size_t>(opt.shards) + 1;
    std::size_t from = per * static_cast<std::size_t>(opt.shard), to = std::min(seq.size(), from + per + static_cast<std::size_t>(depth) - 1);
    World w;
    for (std::size_t i = from; i < to; ++i)
    {
        Letter const &l = letters[static_cast<std::size_t>(seq[i])];
        cur_case = pats[l.pat].c->id;
        cur_op = l.op;
        set_input(hex(pats[l.pat].inputs[l.input]));
        if (i % 100000 == 0)
            start_timer(opt.timeout);
        std::string why = w.act(l);
        ++transitions;
        if (i >= from + static_cast<std::size_t>(depth) - 1)
            ++states; // a history of `depth` calls
        if (!why.empty())
        {
            std::string h;
            for (std::size_t k = i < from + 6 ? from : i - 6; k <= i; ++k)
                h += show(letters[static_cast<std::size_t>(seq[k])]) + "; ";
            report(pats[l.pat], l.op < 3 ? l.op : 2, pats[l.pat].inputs[l.input], why + " | after the calls: " + h);
            return;
        }
        if (samples.empty() && i > from + 1000)
        {
            std::string h;
            for (std::size_t k = i + 1 - static_cast<std::size_t>(depth); k <= i; ++k)
                h += show(letters[static_cast<std::size_t>(seq[k])]) + "; ";
            for (char &c : h)
                if (c == '\\' || c == '"' || static_cast<unsigned char>(c) < 32)
                    c = '~';
            samples.push_back("{\"history\":\"" + h + "\"}");
        }
    }
}

// ---------------------------------------------------------------------------------------------------- nested executions
struct Job
{
    std::size_t pat, input;
    int op;
    char text[64];
    void prepare()
    {
        std::string const &in = pats[pat].inputs[input];
        std::memcpy(text, in.data(), in.size());
        std::memset(text + in.size(), 'a', 4);
    }
    void run(Obs &o)
    {
        o = Obs{};
        pats[pat].c->run(10 + op, text, text + pats[pat].inputs[input].size(), o);
        ++evals;
    }
};

static long steps, stop_at;
static Job *nested_job;
static Obs nested_obs;

static void nested_hook()
{
    if (steps++ == stop_at)
    {
        point_hook = nullptr;
        nested_job->run(nested_obs);
        point_hook = nested_hook;
    }
}

static std::size_t full_patterns()
{
    std::size_t n = 0;
    while (n < pats.size() && pats[n].gen)
        ++n;
    return n;
}

static std::vector<Job> jobs()
{
    std::vector<Job> out;
    for (std::size_t p = 0; p < pats.size(); ++p)
        for (std::size_t i = 0; i < pats[p].inputs.size() && pats[p].gen; ++i)
            out.push_back({p, i, static_cast<int>((p + i) % 4), {}});
    for (auto &j : out)
        j.prepare();
    return out;
}

static void nested(Options const &opt)
{
    auto all = jobs();
    std::size_t k = 0;
    for (auto &a : all)
        for (auto &b0 : all)
        {
            if (k++ % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
                continue;
            Job b = b0;
            start_timer(opt.timeout);
            cur_case = pats[a.pat].c->id;
            set_input(hex(pats[a.pat].inputs[a.input]));
            for (stop_at = 0;; ++stop_at)
            {
                steps = 0;
                nested_job = &b;
                Obs o{};
                point_hook = nested_hook;
                a.run(o);
                point_hook = nullptr;
                ++states;
                transitions += static_cast<std::uint64_t>(steps);
                std::string w = judge(pats[a.pat], a.op, a.input, o);
                if (w.empty() && steps > stop_at)
                {
                    w = judge(pats[b.pat], b.op, b.input, nested_obs);
                    if (!w.empty())
                        w = "(inner call) " + w;
                }
                if (!w.empty())
                {
                    report(pats[a.pat], a.op % 3, pats[a.pat].inputs[a.input], w + " | " + show(pats[b.pat], b.op, pats[b.pat].inputs[b.input]) + " called at iterator step " + std::to_string(stop_at) + " of " + show(pats[a.pat], a.op, pats[a.pat].inputs[a.input]));
                    return;
                }
                if (steps <= stop_at)
                    break;
            }
        }
}

// -------------------------------------------------------------------------------------------------------- two threads
struct Scheduler
{
    std::atomic<int> turn{2}; // 0, 1: the threads; 2: the explorer
    bool done[2];
    std::vector<long> preempt; // step numbers at which the running thread is preempted
    std::size_t next;
    long step;
    Job *job[2];
    Obs obs[2];
    bool quit = false;
    std::thread th[2];

    static inline Scheduler *self = nullptr;
    static inline thread_local int me = -1;

    void give(int to)
    {
        turn.store(to, std::memory_order_release);
        turn.notify_all();
    }
    void await(int who)
    {
        int t;
        while ((t = turn.load(std::memory_order_acquire)) != who)
            turn.wait(t, std::memory_order_acquire);
    }
    static void hook()
    {
        Scheduler &s = *self;
        if (me < 0)
            return;
        long now = s.step++;
        if (s.next < s.preempt.size() && now == s.preempt[s.next])
        {
            ++s.next;
            if (!s.done[1 - me])
            {
                s.give(1 - me);
                s.await(me);
            }
        }
    }
    void body(int id)
    {
        me = id;
        for (;;)
        {
            await(id);
            if (quit)
                return;
            job[id]->run(obs[id]);
            done[id] = true;
            give(done[1 - id] ? 2 : 1 - id);
        }
    }
    void start()
    {
        self = this;
        for (int i = 0; i < 2; ++i)
            th[i] = std::thread{[this, i] { body(i); }};
    }
    // Runs both jobs; thread `first` goes first
    long run(int first)
    {
        done[0] = done[1] = false;
        next = 0;
        step = 0;
        point_hook = hook;
        give(first);
        await(2);
        point_hook = nullptr;
        return step;
    }
    void finish()
    {
        quit = true;
        for (int i = 0; i < 2; ++i)
        {
            give(i);
            th[i].join();
        }
    }
};

static void schedules(Options const &opt)
{
    auto all = jobs();
    Scheduler s;
    s.start();
    std::size_t k = 0;
    bool stop = false;
    for (std::size_t ia = 0; ia < all.size() && !stop; ++ia)
        for (std::size_t ib = 0; ib < all.size() && !stop; ++ib)
        {
            // Pairs on the same pattern (all input pairs), and of neighbouring patterns
            std::size_t pa = all[ia].pat, pb = all[ib].pat;
            if (pa != pb && !(pb == (pa + 1) % full_patterns() && all[ia].input == all[ib].input))
                continue;
            if (k++ % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
                continue;
            Job a = all[ia], b = all[ib];
            s.job[0] = &a;
            s.job[1] = &b;
            start_timer(opt.timeout);
            cur_case = pats[a.pat].c->id;
            set_input(hex(pats[a.pat].inputs[a.input]));
            auto once = [&](std::vector<long> pre) {
                s.preempt = std::move(pre);
                long n = s.run(0);
                ++states;
                transitions += static_cast<std::uint64_t>(n);
                std::string w = judge(pats[a.pat], a.op, a.input, s.obs[0]);
                if (w.empty())
                    w = judge(pats[b.pat], b.op, b.input, s.obs[1]);
                if (!w.empty())
                {
                    std::string at;
                    for (long x : s.preempt)
                        at += " " + std::to_string(x);
                    report(pats[a.pat], a.op % 3, pats[a.pat].inputs[a.input], w + " | threads " + show(pats[a.pat], a.op, pats[a.pat].inputs[a.input]) + " and " + show(pats[b.pat], b.op, pats[b.pat].inputs[b.input]) + ", preempted at iterator steps" + at);
                    stop = true;
                }
                return n;
            };
            once({});
            long const n = once({0});
            for (long i = 1; i < n && !stop; ++i)
                once({i});
            if (opt.depth >= 2)
                for (long i = 0; i < n && !stop; ++i)
                    for (long j = i + 1; j < n && !stop; ++j)
                        once({i, j});
        }
    s.finish();
}

// ------------------------------------------------------------------------------------------------- first calls, free run
static void fresh(Options const &opt)
{
    // Every call as the first one of a process, followed by every other
    auto letters = alphabet(pats.size(), 0);
    for (std::size_t i = 0; i < letters.size(); ++i)
    {
        if (i % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
            continue;
        std::fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            start_timer(opt.timeout);
            World w;
            for (std::size_t k = 0; k <= letters.size(); ++k)
            {
                Letter const &l = letters[k == 0 ? i : k - 1];
                cur_case = pats[l.pat].c->id;
                cur_op = l.op;
                std::string why = w.act(l);
                if (!why.empty())
                {
                    report(pats[l.pat], l.op, pats[l.pat].inputs[l.input], why + " | in a process whose first call was " + show(letters[i]));
                    std::fflush(stdout);
                    _exit(1);
                }
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        states += letters.size() + 1;
        transitions += letters.size() + 1;
        evals += letters.size() + 1;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            ++violations;
    }
}

// ------------------------------------------------------------------------------------------- results that stay alive
struct HeldLetter
{
    std::size_t pat, input;
    int form, op;
};

static std::string text_of(Pat const &p, std::size_t input, int op)
{
    auto const &m = p.expected[input][static_cast<std::size_t>(op)];
    std::string t = m.matched ? "1" : "0";
    for (int g = 0; g <= p.pat.groups; ++g)
    {
        auto k = static_cast<std::size_t>(g);
        t += '|';
        if (m.matched && m.s[k] >= 0 && m.e[k] > m.s[k])
            t += p.inputs[input].substr(static_cast<std::size_t>(m.s[k]), static_cast<std::size_t>(m.e[k] - m.s[k]));
    }
    return t;
}

static char const *form_names[] = {"pointers", "std::string", "temporary std::string", "std::string_view", "std::list iterators", "std::string, then as_memory_owner"};

static std::string show(HeldLetter const &l)
{
    Pat const &p = pats[l.pat];
    return show(p, l.op, p.inputs[l.input]) + " on " + form_names[l.form];
}

// All sequences of two calls whose results stay alive; the first result is read before and after the second call
static void held(Options const &opt)
{
    std::vector<HeldLetter> letters;
    for (std::size_t p = 0; p < pats.size(); ++p)
    {
        if (pats[p].gen)
            continue;
        for (std::size_t i = 0; i < pats[p].inputs.size(); ++i)
            for (int f = 0; f < FORMS; ++f)
                letters.push_back({p, i, f, static_cast<int>((p + i + static_cast<std::size_t>(f)) % 3)});
    }
    alignas(64) static char buffers[2][256];
    auto make = [&](HeldLetter const &l, int which) {
        Pat &p = pats[l.pat];
        std::string const &in = p.inputs[l.input];
        std::memcpy(buffers[which], in.data(), in.size());
        Obs o{};
        p.c->run(HELD + 3 * l.form + l.op, buffers[which], buffers[which] + in.size(), o);
        ++evals;
        return std::unique_ptr<Held>{reinterpret_cast<Held *>(const_cast<char *>(o.problem))};
    };
    std::vector<std::string> expect;
    for (auto const &l : letters)
        expect.push_back(text_of(pats[l.pat], l.input, l.op));
    for (std::size_t a = 0; a < letters.size(); ++a)
    {
        if (a % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
            continue;
        start_timer(opt.timeout);
        HeldLetter const &la = letters[a];
        cur_case = pats[la.pat].c->id;
        cur_op = la.op;
        set_input(hex(pats[la.pat].inputs[la.input]));
        auto ra = make(la, 0);
        for (std::size_t b = 0; b < letters.size(); ++b)
        {
            HeldLetter const &lb = letters[b];
            auto rb = make(lb, 1);
            ++states;
            transitions += 2;
            std::string ta = ra->text(), tb = rb->text();
            if (ta == expect[a] && tb == expect[b])
                continue;
            bool const first = ta != expect[a];
            report(pats[(first ? la : lb).pat], (first ? la : lb).op, pats[(first ? la : lb).pat].inputs[(first ? la : lb).input],
                   "result reads " + (first ? ta : tb) + ", expected " + (first ? expect[a] : expect[b]) + " | " + (first ? "held while " + show(lb) + " was made, form " + form_names[la.form] : "made while the result of " + show(la) + " was alive, form " + std::string(form_names[lb.form])));
            return;
        }
    }
}

// Many repetitions of one call
static void soak(Options const &opt, long times)
{
    World w;
    auto letters = alphabet(pats.size(), 0);
    for (std::size_t i = 0; i < letters.size(); ++i)
    {
        if (i % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
            continue;
        Letter l = letters[i];
        Pat &p = pats[l.pat];
        l.op = static_cast<int>((l.pat + l.input + (l.op == 2)) % 3);
        cur_case = p.c->id;
        cur_op = l.op;
        set_input(hex(p.inputs[l.input]));
        start_timer(opt.timeout);
        std::string const &in = p.inputs[l.input];
        Obs first{};
        std::memcpy(w.buffer, in.data(), in.size());
        std::memset(w.buffer + in.size(), 'a', 8);
        for (long n = 0; n < times; ++n)
        {
            Obs o{};
            p.c->run(l.op, w.buffer, w.buffer + in.size(), o);
            ++evals;
            ++transitions;
            bool same = n > 0 && o.matched == first.matched && o.length == first.length && o.groups == first.groups && o.bool_conv == first.bool_conv;
            for (int g = 0; same && g < o.groups; ++g)
                same = o.s[g] == first.s[g] && o.e[g] == first.e[g] && o.len[g] == first.len[g];
            if (same)
                continue;
            std::string why = judge(p, l.op, l.input, o);
            if (!why.empty())
            {
                report(p, l.op, in, why + " | at call number " + std::to_string(n + 1) + " of the same operation");
                return;
            }
            first = o;
        }
        ++states;
    }
}

// ------------------------------------------------------------------------------- all interleavings of two generators
struct Actor
{
    std::size_t pat;
    int kind;
    std::string input;
    std::vector<ref::Match> seq;
    char const *b, *e;
};

static std::vector<ref::Match> drain_of(Pat const &p, int kind, std::string const &in)
{
    std::vector<ref::Match> seq;
    ref::Machine m{p.pat, &stats};
    std::size_t pos = 0;
    for (;;)
    {
        auto r = kind == TOKENIZER || kind == TOKENIZE ? m.prefix(in, pos) : m.search(in, pos);
        seq.push_back(r);
        if (!r.matched || r.s[0] == r.e[0])
            break;
        pos = static_cast<std::size_t>(r.e[0]);
    }
    return seq;
}

// Two generators or ranges, over the same memory or over copies, are drained past their ends in every order of steps
static void pairs(Options const &opt)
{
    static char const *kinds[] = {"tokenizer", "searcher", "tokenize", "find_all"};
    static ref::Match const none{};
    std::size_t k = 0, n = full_patterns();
    for (std::size_t pa = 0; pa < n; ++pa)
        for (std::size_t pb : {pa, (pa + 1) % n})
        {
            std::string all;
            for (auto const &s : pats[pa].inputs)
                all += s;
            std::vector<std::string> ins = pats[pa].inputs;
            ins.push_back(all);
            ins.push_back(std::string(all.rbegin(), all.rend()));
            for (int ka = 0; ka < 4; ++ka)
                for (int kb = 0; kb < 4; ++kb)
                    for (auto const &in : ins)
                        for (int memory = 0; memory < 3; ++memory) // the same; the same for a shorter part; another copy
                        {
                            if (k++ % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
                                continue;
                            std::string ina = in, inb = memory == 1 && !in.empty() ? in.substr(0, in.size() - 1) : in;
                            std::vector<char> ta(in.begin(), in.end()), tb(in.begin(), in.end());
                            ta.push_back('a');
                            tb.push_back('a');
                            Actor act[2] = {{pa, ka, ina, drain_of(pats[pa], ka, ina), ta.data(), ta.data() + ina.size()}, {pb, kb, inb, drain_of(pats[pb], kb, inb), nullptr, nullptr}};
                            act[1].b = memory < 2 ? ta.data() : tb.data();
                            act[1].e = act[1].b + inb.size();
                            std::size_t const steps[2] = {std::min<std::size_t>(act[0].seq.size() + 1, 7), std::min<std::size_t>(act[1].seq.size() + 1, 7)};
                            std::vector<int> order(steps[0] + steps[1], 0);
                            std::fill(order.begin() + static_cast<std::ptrdiff_t>(steps[0]), order.end(), 1);
                            cur_case = pats[pa].c->id;
                            cur_op = 2;
                            set_input(hex(in));
                            start_timer(opt.timeout);
                            do
                            {
                                std::unique_ptr<System> sys[2];
                                std::size_t at[2] = {0, 0};
                                // Both exist from the start, or each is made at its first step
                                bool const early = (k & 1) != 0;
                                for (int w = 0; w < 2 && early; ++w)
                                    sys[w].reset(pats[act[w].pat].gen->make(act[w].kind, act[w].b, act[w].e));
                                std::string why;
                                for (std::size_t i = 0; i < order.size() && why.empty(); ++i)
                                {
                                    int const w = order[i];
                                    Actor const &a = act[w];
                                    if (!sys[w])
                                        sys[w].reset(pats[a.pat].gen->make(a.kind, a.b, a.e));
                                    ref::Match const &m = at[w] < a.seq.size() ? a.seq[at[w]] : none;
                                    ++at[w];
                                    ++transitions;
                                    ++evals;
                                    Obs o{};
                                    if (a.kind < 2)
                                    {
                                        sys[w]->apply(NEXT0, o);
                                        why = compare_obs(o, m, pats[a.pat].pat);
                                    }
                                    else if (!m.matched)
                                        why = sys[w]->live(0) != 0 ? "a range goes on after its end" : "";
                                    else if (sys[w]->live(0) != 5)
                                        why = "a range ended too early";
                                    else
                                    {
                                        sys[w]->current(0, 0, o);
                                        why = compare_obs(o, m, pats[a.pat].pat);
                                        Obs ignore{};
                                        sys[w]->apply(PRE0, ignore);
                                    }
                                    if (!why.empty())
                                    {
                                        std::string h;
                                        for (std::size_t j = 0; j <= i; ++j)
                                            h += order[j] ? " B" : " A";
                                        for (int x = 0; x < 2; ++x)
                                            h += std::string(x ? "; B" : "; A") + " is /" + pats[act[x].pat].c->pattern + "/." + kinds[act[x].kind] + "(" + act[x].input + ")";
                                        report(pats[a.pat], 2, a.input, why + " | after the steps" + h + (memory < 2 ? " over the same memory" : ""));
                                        return;
                                    }
                                }
                                ++states;
                            } while (std::next_permutation(order.begin(), order.end()));
                        }
        }
}

// One call repeated k times, then the contents of the memory change and another call of the same pattern is made there
static void reuse(Options const &opt)
{
    alignas(64) static char buffer[256];
    std::size_t k = 0;
    for (std::size_t pi = 0; pi < pats.size(); ++pi)
        for (std::size_t ii = 0; ii < pats[pi].inputs.size(); ++ii)
        {
            if (k++ % static_cast<std::size_t>(opt.shards) != static_cast<std::size_t>(opt.shard))
                continue;
            Pat &p = pats[pi];
            std::string const &v = p.inputs[ii];
            std::vector<std::string> texts{v, std::string(v.rbegin(), v.rend()), std::string(v.size(), 'z'), v.substr(0, v.size() / 2), v + "z"};
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                texts.push_back(v);
                texts.back()[i] = 'z';
            }
            std::vector<std::array<ref::Match, 3>> want;
            ref::Machine m{p.pat, &stats};
            for (auto const &t : texts)
                want.push_back({m.match(t), m.prefix(t), m.search(t)});
            cur_case = p.c->id;
            set_input(hex(v));
            start_timer(opt.timeout);
            auto call = [&](int op, std::size_t t, int first, int times, std::size_t from) {
                std::memcpy(buffer, texts[t].data(), texts[t].size());
                std::memset(buffer + texts[t].size(), 'a', 8);
                cur_op = op;
                Obs o{};
                p.c->run(op, buffer, buffer + texts[t].size(), o);
                ++evals;
                ++transitions;
                std::string w = compare_obs(o, want[t][static_cast<std::size_t>(op)], p.pat);
                if (!w.empty())
                    report(p, op, texts[t], w + " | after " + std::to_string(times) + " times " + show(p, first, texts[from]) + " on the same memory");
                return w.empty();
            };
            for (std::size_t u = 0; u < texts.size(); ++u)
                for (std::size_t t : {std::size_t{0}, std::size_t{2}, u + 1 < texts.size() ? u + 1 : 0})
                    for (int a = 0; a < 3; ++a)
                        for (int b = 0; b < 3; ++b)
                            for (int times : {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100})
                            {
                                for (int i = 0; i < times; ++i)
                                    if (!call(a, u, a, i, u))
                                        return;
                                if (!call(b, t, a, times, u))
                                    return;
                                ++states;
                            }
        }
}

static void free_run(Options const &opt)
{
    auto all = jobs();
    std::atomic<int> ready{0};
    std::mutex m;
    int const threads = 4, rounds = 20;
    std::vector<std::thread> ts;
    start_timer(opt.timeout);
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            auto mine = all;
            ++ready;
            while (ready.load() < threads)
                std::this_thread::yield();
            for (int r = 0; r < rounds; ++r)
                for (std::size_t i = 0; i < mine.size(); ++i)
                {
                    Job &j = mine[(i * 7 + static_cast<std::size_t>(t * 3 + r)) % mine.size()];
                    Pat &p = pats[j.pat];
                    for (int op = 0; op < 3; ++op)
                    {
                        Obs o{};
                        p.c->run(op, j.text, j.text + p.inputs[j.input].size(), o);
                        std::string w = judge(p, op, j.input, o);
                        if (!w.empty())
                        {
                            std::lock_guard lock{m};
                            report(p, op, p.inputs[j.input], w + " | with 4 threads running");
                        }
                    }
                }
        });
    for (auto &t : ts)
        t.join();
    evals += static_cast<std::uint64_t>(threads * rounds) * all.size() * 3;
}

int main(int argc, char **argv)
{
    std::string mode = "walk";
    std::vector<char *> rest;
    std::size_t npats = 6, ngens = 4;
    for (int i = 0; i < argc; ++i)
    {
        if (std::string(argv[i]) == "--mode")
            mode = argv[++i];
        else if (std::string(argv[i]) == "--walk-patterns")
            npats = static_cast<std::size_t>(std::atoi(argv[++i]));
        else if (std::string(argv[i]) == "--walk-generators")
            ngens = static_cast<std::size_t>(std::atoi(argv[++i]));
        else
            rest.push_back(argv[i]);
    }
    Options opt{static_cast<int>(rest.size()), rest.data()};
    auto families = read_inputs(opt.inputs_file);
    install_handlers();
    std::vector<Case const *> cs;
    for (auto *l = all_cases; l; l = l->next)
        for (std::size_t i = 0; i < l->count; ++i)
            cs.push_back(&l->cases[i]);
    std::sort(cs.begin(), cs.end(), [](auto *a, auto *b) { return a->id < b->id; });
    for (auto *c : cs)
    {
        auto &p = pats.emplace_back(Pat{c, ref::Parser::parse({c->pattern, c->length}, c->flags), families.at(static_cast<std::size_t>(c->family)), {}, {}, nullptr});
        if (!p.pat.accepted || !p.pat.semantic_error.empty())
        {
            std::printf("MODEL case=%d rejects the pattern (%s)\n", c->id, p.pat.semantic_error.c_str());
            return 5;
        }
        ref::Machine m{p.pat, &stats};
        for (auto const &in : p.inputs)
        {
            p.expected.push_back({m.match(in), m.prefix(in), m.search(in)});
            p.all.push_back(summary(p, m, in));
        }
        Obs ask{};
        c->run(99, nullptr, nullptr, ask);
        p.gen = reinterpret_cast<GenCase const *>(ask.problem);
    }
    if (mode == "walk")
        walk(opt, npats, ngens, opt.depth);
    else if (mode == "nested")
        nested(opt);
    else if (mode == "schedules")
        schedules(opt);
    else if (mode == "fresh")
        fresh(opt);
    else if (mode == "held")
        held(opt);
    else if (mode == "pairs")
        pairs(opt);
    else if (mode == "reuse")
        reuse(opt);
    else if (mode == "soak")
        soak(opt, opt.depth);
    else
        free_run(opt);
    stop_timer();
    std::printf("STATS {\"cases\":%llu,\"evals\":%llu,\"states\":%llu,\"transitions\":%llu,\"violations\":%ld,\"samples\":[",
                (unsigned long long) (opt.shard == 0 ? pats.size() : 0), (unsigned long long) evals, (unsigned long long) (stats.states + states), (unsigned long long) (stats.transitions + transitions), violations);
    for (std::size_t i = 0; i < samples.size(); ++i)
        std::printf("%s%s", i ? "," : "", samples[i].c_str());
    std::printf("]}\n");
    std::fflush(stdout);
    return violations ? 1 : 0;
}
