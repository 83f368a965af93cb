#include "vp.hpp"
#include <cmath>
#include <stdexcept>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static const std::vector<std::pair<S, double>> U = {
    {"B", 1}, {"KB", 1e3}, {"MB", 1e6}, {"GB", 1e9}, {"TB", 1e12}, {"PB", 1e15},
    {"KIB", 1024.}, {"MIB", 1048576.}, {"GIB", 1073741824.}, {"TIB", 1099511627776.}, {"PIB", 1125899906842624.}};

static bool ref(const S& s, uint64_t& out)
{
    size_t i = 0, n = s.size();
    auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
    if (!dig(0)) { return false; }
    while (dig(i)) { ++i; }
    if (i < n && s[i] == '.' && dig(i + 1)) { ++i; while (dig(i)) { ++i; } }
    double num = strtod(s.substr(0, i).c_str(), nullptr);
    while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) { ++i; }
    S u = s.substr(i);
    for (char& c : u) { if (c >= 'a' && c <= 'z') { c = char(c - 32); } }
    for (auto& k : U)
    {
        if (k.first == u)
        {
            volatile double p = num * k.second;
            if (!(p < 18446744073709551616.0)) { return false; }
            out = uint64_t(p);
            return true;
        }
    }
    return false;
}

static void parse(const S& s)
{
    at("to_bytes " + show(s));
    uint64_t w = 0, g = 0;
    bool ok = ref(s, w), got = true;
    S how = "refused";
    try { g = to_bytes(s); }
    catch (const std::invalid_argument&) { got = false; }
    catch (const std::exception& x) { got = false; how = "another exception"; }
    check(ok == got && (!ok || g == w) && (got || how == "refused"), cat("to_bytes ", show(s), " gives ",
        got ? std::to_string(g) : how, ", expected ", ok ? std::to_string(w) : S("an invalid argument")));
}

static void print(uint64_t b)
{
    at(cat("from_bytes ", b));
    S g = from_bytes(b), w = "0B";
    if (b)
    {
        int k = 0;
        uint64_t f = 1;
        while (k < 5 && b / 1000 >= f) { f *= 1000; ++k; }
        static const char* nm[] = {"B", "KB", "MB", "GB", "TB", "PB"};
        volatile double d = double(b) / double(f);
        char t[64];
        if (std::fabs(d - double(uint64_t(d))) < 0.01) { snprintf(t, sizeof t, "%lu", uint64_t(d)); }
        else { snprintf(t, sizeof t, "%.2f", double(d)); }
        w = S(t) + nm[k];
    }
    check(g == w, cat("from_bytes ", b, " gives ", show(g), ", expected ", show(w)));
}

int main()
{
    start();
    for (auto& h : hints)
    {
        if (h.s.count("input")) { parse(h.s["input"]); }
        if (h.i.count("bytes")) { print(uint64_t(h.i["bytes"])); }
    }
    for (auto& u : U)
    {
        for (unsigned m = 0; m < (1u << u.first.size()); ++m)
        {
            S v = u.first;
            for (size_t i = 0; i < v.size(); ++i) { if (m >> i & 1) { v[i] = char(v[i] + 32); } }
            for (S x : {"1", "0", "10.5", "0.999", "007", "1.10", "123456789012345678901234567890"})
            {
                parse(x + v); parse(x + " " + v); parse(x + "\t\n\v\f\r" + v); parse(" " + x + v); parse(x + v + " ");
                parse("-" + x + v); parse("+" + x + v); parse(x + "." + v); parse("." + x + v); parse(x + v + "s");
                parse(x + S(1, '\0') + v); parse(x + "e1" + v); parse(x);  parse(v); parse(x + "\xc2\xa0" + v);
            }
        }
        // around 2^64
        long double lim = 18446744073709551616.0L / (long double)u.second;
        for (int k = -3; k <= 3; ++k)
        {
            char t[80];
            snprintf(t, sizeof t, "%.0Lf", floorl(lim) + k);
            parse(S(t) + u.first);
            snprintf(t, sizeof t, "%.12Lf", lim * (1 + k * 1.1e-16L));
            parse(S(t) + u.first);
        }
    }
    parse("18446744073709549568B"); parse("18446744073709550591B"); parse("18446744073709550592B");
    parse(""); parse("B"); parse("10"); parse("10 XB"); parse("10KIBB"); parse("10.5.5MB"); parse(S(400, '9') + "B");
    parse(S(320, '0') + "1.5KB"); parse("0." + S(400, '0') + "1PB"); parse("1 000B"); parse("1,5MB");
    for (uint64_t f = 1; f <= 1000000000000000ull; f *= 1000)
    {
        for (uint64_t m : {1ull, 2ull, 999ull, 1000ull, 12345ull, 18446ull})
        {
            for (int64_t k : {-2, -1, 0, 1, 2, 9, 10, 11, 499, 500, 501, 989, 990, 991, 994, 995, 996})
            {
                unsigned __int128 x = (unsigned __int128)f * m;
                if (x >> 64) { continue; }
                print(uint64_t(x) + uint64_t(k)); print(uint64_t(x) + uint64_t(k) * (f / 1000)); print(uint64_t(x) + f / 100 + uint64_t(k));
            }
        }
    }
    print(0); print(~0ull);
    sample("every unit in every letter case with 7 numbers in 15 shapes; numbers around 2^64 for every unit");
    static const std::vector<S> tk = {"0", "1", "9", "5", ".", " ", "\t", "B", "K", "k", "M", "G", "T", "P", "i", "I", "b", "e", "-", "x", "0x"};
    do
    {
        for (int i = 0; i < 100; ++i)
        {
            parse(rng.toks(tk, 8));
            parse(std::to_string(rng.num(64)) + (rng.flip() ? "" : "." + std::to_string(rng.num(40))) + (rng.flip() ? " " : "") + U[rng.below(U.size())].first);
            print(rng.num(64)); print(rng.num(1 + unsigned(rng.below(64))));
        }
    } while (more());
    return finish();
}
