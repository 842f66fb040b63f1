// Questions to the reference parser.
//   modeltool accepted ALPHABET_HEX N      all valid patterns over the alphabet with 1..N characters (hex, one per line)
//   modeltool verdict < hex patterns       "accepted error_at semantic_error" per line
#include "../model/ref.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>

static std::string unhex(std::string const &h)
{
    std::string s;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2)
        s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return s;
}

static void words(std::string const &alphabet, std::string &w, int n)
{
    if (!w.empty())
    {
        auto p = ref::Parser::parse(w, 0);
        if (p.accepted && p.semantic_error.empty())
        {
            for (unsigned char c : w)
                std::printf("%02x", c);
            std::putchar('\n');
        }
        else if (!p.accepted && p.error_at < w.size())
            return; // no continuation is valid
    }
    if (n == 0)
        return;
    for (char c : alphabet)
    {
        w.push_back(c);
        words(alphabet, w, n - 1);
        w.pop_back();
    }
}

int main(int argc, char **argv)
{
    if (argc == 4 && !std::strcmp(argv[1], "accepted"))
    {
        std::string w;
        words(unhex(argv[2]), w, std::atoi(argv[3]));
        return 0;
    }
    if (argc == 2 && !std::strcmp(argv[1], "verdict"))
    {
        std::string line;
        while (std::getline(std::cin, line))
        {
            auto p = ref::Parser::parse(unhex(line), 0);
            std::printf("%d %zu %s\n", p.accepted, p.error_at, p.semantic_error.c_str());
        }
        return 0;
    }
    return 2;
}
