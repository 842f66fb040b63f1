// What the drivers share: options, inputs, guarded memory, crash reports, comparison of an observation with the model.
#ifndef VERIF_DRIVERCOMMON_HPP
#define VERIF_DRIVERCOMMON_HPP

#include "cases.hpp"
#include "../model/ref.hpp"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh
{
    static CaseList *all_cases = nullptr;
    void register_cases(CaseList *list)
    {
        list->next = all_cases;
        all_cases = list;
    }
}

static int volatile cur_case = -1, cur_op = -1;
static char cur_input[400000];
static bool volatile in_library = true;  // false while the reference model runs: its time does not count
static int volatile ticks = 0, tick_limit = 0;

static std::string hex(std::string_view s)
{
    static char const *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
    {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

static void set_input(std::string const &h)
{
    std::size_t n = std::min(h.size(), sizeof cur_input - 1);
    std::memcpy(cur_input, h.c_str(), n);
    cur_input[n] = '\0';
}

static void die_report(char const *kind, int sig)
{
    char buf[256];
    int n = std::snprintf(buf, sizeof buf, "\n%s case=%d op=%d sig=%d input=", kind, cur_case, cur_op, sig);
    (void) !write(1, buf, static_cast<std::size_t>(n));
    (void) !write(1, cur_input, std::strlen(cur_input));
    (void) !write(1, "\n", 1);
}

static void on_crash(int sig)
{
    die_report("CRASH", sig);
    _exit(4);
}

static void on_alarm(int sig)
{
    if (!in_library || ++ticks < tick_limit)
        return;
    die_report("HANG", sig);
    _exit(3);
}

static void install_handlers()
{
    stack_t ss{};
    ss.ss_size = 1 << 16;
    ss.ss_sp = std::malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = on_crash;
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
        sigaction(sig, &sa, nullptr);
    sa.sa_handler = on_alarm;
    sa.sa_flags |= SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
}

static void start_timer(int seconds)
{
    ticks = 0;
    tick_limit = seconds;
    itimerval tv{};
    tv.it_value.tv_sec = tv.it_interval.tv_sec = 1;
    setitimer(ITIMER_REAL, &tv, nullptr);
}

static void stop_timer()
{
    itimerval tv{};
    setitimer(ITIMER_REAL, &tv, nullptr);
}

// Readable pages between two inaccessible ones.
struct Arena
{
    static constexpr std::size_t page = 4096, size = 40 * page;
    char *base;
    char saved[size];
    Arena()
    {
        base = static_cast<char *>(mmap(nullptr, size + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED)
        {
            std::perror("mmap");
            std::exit(5);
        }
        for (std::size_t i = 0; i < size; ++i)
            base[page + i] = "aab\nbAB_01"[i % 10];
        mprotect(base, page, PROT_NONE);
        mprotect(base + page + size, page, PROT_NONE);
    }
    char *left() const { return base + page; }
    char *right(std::size_t n) const { return base + page + size - n; }
    void put(char *at, std::string const &s)
    {
        if (s.size() > size)
        {
            std::printf("MODEL input too long for the arena\n");
            std::exit(5);
        }
        std::memcpy(saved, at, s.size());
        std::memcpy(at, s.data(), s.size());
    }
    bool unchanged(char const *at, std::string const &s) const { return std::memcmp(at, s.data(), s.size()) == 0; }
    void restore(char *at, std::size_t n) { std::memcpy(at, saved, n); }
};

struct Options
{
    std::string inputs_file;
    int shard = 0, shards = 1, only = -1, timeout = 20, depth = 4, dfs_length = 4;
    long max_violations = 5;
    bool selfcheck = false;
    Options(int argc, char **argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> char const * { return argv[++i]; };
            if (a == "--inputs") inputs_file = val();
            else if (a == "--shard") std::sscanf(val(), "%d/%d", &shard, &shards);
            else if (a == "--only") only = std::atoi(val());
            else if (a == "--case-timeout") timeout = std::atoi(val());
            else if (a == "--max-violations") max_violations = std::atol(val());
            else if (a == "--selfcheck") selfcheck = true;
            else if (a == "--depth") depth = std::atoi(val());
            else if (a == "--dfs-length") dfs_length = std::atoi(val());
            else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); std::exit(5); }
        }
    }
};

static std::vector<std::vector<std::string>> read_inputs(std::string const &file)
{
    std::vector<std::vector<std::string>> families;
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line))
    {
        if (line == "F")
        {
            families.emplace_back();
            continue;
        }
        std::string s;
        for (std::size_t i = 0; i + 1 < line.size(); i += 2)
            s += static_cast<char>(std::stoi(line.substr(i, 2), nullptr, 16));
        families.back().push_back(s);
    }
    if (families.empty())
    {
        std::fprintf(stderr, "no inputs\n");
        std::exit(5);
    }
    return families;
}

static std::vector<vh::Case const *> select_cases(Options const &opt)
{
    std::vector<vh::Case const *> todo;
    for (auto *l = vh::all_cases; l; l = l->next)
        for (std::size_t i = 0; i < l->count; ++i)
            if (opt.only >= 0 ? l->cases[i].id == opt.only : l->cases[i].id % opt.shards == opt.shard)
                todo.push_back(&l->cases[i]);
    return todo;
}

static std::string compare_obs(vh::Obs const &o, ref::Match const &exp, ref::Pattern const &pat)
{
    if (o.matched != exp.matched)
        return o.matched ? "matched, expected no match" : "no match, expected a match";
    if (o.bool_conv != o.matched)
        return "bool conversion differs from matched()";
    if (o.groups != pat.groups + 1)
        return "wrong number of groups";
    for (int g = 0; g < o.groups; ++g)
    {
        int es = -1, ee = -1;
        if (exp.matched)
        {
            es = exp.s[static_cast<std::size_t>(g)];
            ee = exp.e[static_cast<std::size_t>(g)];
        }
        if (es < 0)
        {
            if (o.s[g] != o.e[g] || o.len[g] != 0)
                return "group " + std::to_string(g) + " has content, expected unset";
        }
        else if (o.s[g] != es || o.e[g] != ee || o.len[g] != ee - es)
            return "group " + std::to_string(g) + " spans [" + std::to_string(o.s[g]) + "," + std::to_string(o.e[g]) + "), expected [" +
                   std::to_string(es) + "," + std::to_string(ee) + ")";
    }
    for (int g = 1; g < o.groups; ++g)
        if (std::string_view{o.name[g], static_cast<std::size_t>(o.name_len[g])} != pat.names[static_cast<std::size_t>(g) - 1])
            return "group " + std::to_string(g) + " has the wrong name";
    if (o.problem)
        return o.problem;
    if (o.length != o.len[0])
        return "length() differs from group 0";
    return "";
}
#endif
