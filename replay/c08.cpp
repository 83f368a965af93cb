#include "vp.hpp"
#include <cpp_utils/utils.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static void one(int v, unsigned n, bool more)
{
    if (v < 0 || n > 100000) { return; }
    S w = cat("number_trailing_zeros_format(", v, ", ", n, ", ", more, ")");
    at(w);
    S d = std::to_string(v), got;
    bool thrown = false;
    try { got = number_trailing_zeros_format(v, n, more); }
    catch (const PreconditionNotMet&) { thrown = true; }
    catch (const std::exception& x) { fail(w + " throws an unexpected exception"); return; }
    bool refuse = !more && d.size() > n;
    if (refuse || thrown) { check(refuse == thrown, w + (thrown ? " is refused" : " is accepted")); return; }
    S want = d.size() >= n ? d : S(n - d.size(), '0') + d;
    check(got == want, w + " gives " + show(got));
}

int main()
{
    start();
    for (auto& h : hints) { one(h.i["value"], h.i["width"], h.i["more"]); }
    sample("all powers of ten +-1 and widths up to 40, both modes");
    std::vector<int> vs{0, 1, 5, 2147483647, 2147483646, 1999999999};
    for (long p = 1; p <= 1000000000; p *= 10) { for (int k = -1; k < 2; ++k) { vs.push_back(int(p + k)); } }
    for (int v : vs) { for (unsigned n = 0; n < 40; ++n) { one(v, n, true); one(v, n, false); } }
    for (unsigned n : {64u, 100u, 255u, 256u, 1000u, 65536u}) { one(7, n, true); one(7, n, false); one(2147483647, n, false); }
    do
    {
        for (int i = 0; i < 500; ++i) { one(int(rng.num(31)), rng.below(16), rng.flip()); }
    } while (more());
    return finish();
}
