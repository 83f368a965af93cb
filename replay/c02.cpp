#include "vp.hpp"
#include <cpp_utils/math/math_extension.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef unsigned __int128 u128;

static unsigned pow_spec(unsigned b, unsigned e)
{
    unsigned r = 1;
    for (; e; e >>= 1, b *= b) { if (e & 1) r *= b; }
    return r;
}

static void one(unsigned a, unsigned b)
{
    at(cat("is_even(", a, ")"));
    check(is_even(a) == (a % 2 == 0), cat("is_even(", a, ") = ", is_even(a)));
    bool p = false;
    for (int k = 0; k < 32; ++k) p |= a == (1u << k);
    at(cat("is_power_of_2(", a, ")"));
    check(is_power_of_2(a) == p, cat("is_power_of_2(", a, ") = ", is_power_of_2(a)));
    if (b)
    {
        at(cat("fast_module(", a, ", ", b, ")"));
        unsigned m = fast_module(a, b);
        check(m == a % b, cat("fast_module(", a, ", ", b, ") = ", m));
        at(cat("fast_division(", a, ", ", b, ")"));
        unsigned q = fast_division(a, b);
        check(q == a / b, cat("fast_division(", a, ", ", b, ") = ", q));
    }
    at(cat("fast_exponential(", a, ", ", b, ")"));
    unsigned e = fast_exponential(a, b);
    check(e == pow_spec(a, b), cat("fast_exponential(", a, ", ", b, ") = ", e, ", expected ", pow_spec(a, b)));
}

static void sum(unsigned l, unsigned d, unsigned n)
{
    at(cat("arithmetic_progression_sum(", l, ", ", d, ", ", n, ")"));
    unsigned s = arithmetic_progression_sum(l, d, n);
    u128 t = u128(n) * (n ? n - 1 : 0) / 2;
    unsigned w = unsigned(u128(n) * l + u128(d) * t);
    check(s == w, cat("arithmetic_progression_sum(", l, ", ", d, ", ", n, ") = ", s, ", expected ", w));
}

int main()
{
    start();
    for (auto& h : hints)
    {
        auto g = [&](const char* k) { return unsigned(h.i.count(k) ? h.i[k] : 0); };
        one(g("number"), g("divisor")); one(g("dividend"), g("divisor")); one(g("base"), g("exponent"));
        sum(g("lowest"), g("interval"), g("steps"));
    }
    for (unsigned a = 0; a < 200; ++a) for (unsigned b = 0; b < 200; ++b) one(a, b);
    for (unsigned k = 0; k < 32; ++k) for (unsigned j = 0; j < 32; ++j) for (int x = -1; x <= 1; ++x)
        for (int y = -1; y <= 1; ++y) one((1u << k) + x, (1u << j) + y);
    for (unsigned a = 0; a < 30; ++a) for (unsigned b = 0; b < 30; ++b) for (unsigned c = 0; c < 30; ++c) sum(a, b, c);
    sample("fast_exponential(3, 200) and all pairs below 200");
    do
    {
        for (int i = 0; i < 1000; ++i)
        {
            one(rng.num(32), rng.num(32));
            sum(rng.num(32), rng.num(32), rng.num(32));
        }
    } while (more());
    return finish();
}
