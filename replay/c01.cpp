#include "vp.hpp"
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static unsigned rnd(unsigned n) { return unsigned(rng.below(n)); }
static const S A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static S bits_of(unsigned v, int n)
{
    S r;
    while (n--) { r += char('0' + ((v >> n) & 1)); }
    return r;
}

static S ref_encode(const S& in)
{
    S b, o;
    for (unsigned char c : in) { b += bits_of(c, 8); }
    while (b.size() % 6) { b += '0'; }
    for (size_t i = 0; i < b.size(); i += 6) { o += A[std::stoul(b.substr(i, 6), nullptr, 2)]; }
    while (o.size() % 4) { o += '='; }
    return o;
}

static S ref_decode(const S& in)
{
    S b, o;
    for (char c : in)
    {
        size_t v = A.find(c);
        if (v == S::npos) { break; }
        b += bits_of(unsigned(v), 6);
    }
    for (size_t i = 0; i + 8 <= b.size(); i += 8) { o += char(std::stoul(b.substr(i, 8), nullptr, 2)); }
    return o;
}

static void enc(const S& in)
{
    at("base64_encode " + show(in));
    S g = base64_encode(in), w = ref_encode(in);
    check(g == w, cat("base64_encode ", show(in), " gives ", show(g), ", expected ", show(w)));
    at("base64_decode of the encoding of " + show(in));
    S d = base64_decode(w);
    check(d == in, cat("base64_decode ", show(w), " gives ", show(d), ", expected ", show(in)));
}

static void dec(const S& in)
{
    at("base64_decode " + show(in));
    S g = base64_decode(in), w = ref_decode(in);
    check(g == w, cat("base64_decode ", show(in), " gives ", show(g), ", expected ", show(w)));
}

int main()
{
    start();
    enc("");
    dec("");
    for (int a = 0; a < 256; ++a)
    {
        S x(1, char(a));
        enc(x); dec(x); dec("QUJD" + x + "REVG"); dec("QU" + x + "D"); dec("QQ=" + x);
        for (int b = 0; b < 256; b += (a % 16 == 0 ? 1 : 17))
        {
            S y = x + char(b);
            enc(y); dec(y); enc(y + char(a ^ b)); enc("\xff\x80" + y + char(b + 1)); dec(y + y);
        }
    }
    sample("every byte alone and in every phase, every pair of bytes with a coarse first byte");
    while (more())
    {
        S x, y;
        size_t n = rnd(rnd(8) ? 40 : 3000);
        for (size_t i = 0; i < n; ++i) { x += char(rnd(rnd(4) ? 256 : 2) * (rnd(8) ? 1 : 127)); }
        enc(x);
        for (size_t i = 0; i < n; ++i) { y += rnd(60) ? A[rnd(64)] : char(rnd(256)); }
        dec(y);
        y = ref_encode(x);
        if (!y.empty()) { y[rnd(y.size())] = char(rnd(256)); dec(y); dec(y.substr(0, rnd(y.size()))); }
    }
    return finish();
}
