#include "vp.hpp"
#include <set>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static unsigned ref_all(S& st, const S& a, const S& b)
{
    if (a.empty()) { return 0; }
    S out; unsigned n = 0; size_t i = 0;
    while (i < st.size())
    {
        if (st.compare(i, a.size(), a) == 0 && i + a.size() <= st.size()) { out += b; i += a.size(); ++n; }
        else { out += st[i++]; }
    }
    st = out;
    return n;
}

static void one(const S& o, const S& a, const S& b)
{
    S w = cat("source=", show(o), " searched=", show(a), " replacement=", show(b));
    S got = o, want = o;
    at("replace_all " + w);
    unsigned n = replace_all(got, a, b), m = ref_all(want, a, b);
    check(got == want && n == m, cat("replace_all ", w, " gives ", show(got), ",", n, ", expected ", show(want), ",", m));
    got = o; want = o;
    at("replace_first " + w);
    bool f = replace_first(got, a, b);
    size_t p = want.find(a);
    if (p != S::npos) { want = want.substr(0, p) + b + want.substr(p + a.size()); }
    check(got == want && f == (p != S::npos), cat("replace_first ", w, " gives ", show(got), ",", f, ", expected ", show(want)));
}

static void strip(const S& o, const std::set<S>& u, const S& b)
{
    S w = cat("source=", show(o), " replacement=", show(b), " undesired={");
    for (auto& x : u) { w += show(x) + ","; }
    at("strip_str " + w + "}");
    S got = o, want = o;
    unsigned n = strip_str(got, b, u), m = 0;
    for (auto& x : u) { m += ref_all(want, x, b); }
    check(got == want && n == m, cat("strip_str ", w, "} gives ", show(got), ",", n, ", expected ", show(want), ",", m));
}

int main()
{
    start();
    for (auto& h : hints)
    {
        one(h.s["source"], h.s["searched"], h.s["replacement"]);
        strip(h.s["source"], {h.s["searched"], "a", "b"}, h.s["replacement"]);
    }
    std::vector<S> sm{""};
    for (size_t i = 0; i < sm.size() && sm[i].size() < 3; ++i) { sm.push_back(sm[i] + "a"); sm.push_back(sm[i] + "b"); }
    std::vector<S> src{""};
    for (size_t i = 0; i < src.size() && src[i].size() < 5; ++i) { src.push_back(src[i] + "a"); src.push_back(src[i] + "b"); }
    sample("all sources of a,b up to 6 characters, searched and replacement up to 3");
    for (auto& o : src) { for (auto& a : sm) { for (auto& b : sm) { if (b.size() < 3 || (o.size() < 4 && a.size() < 3)) { one(o, a, b); } } } }
    one(S(400, 'a'), "a", "aa"); one(S(70000, 'x') + "aba", "aba", "y"); one(S("a\0b\0", 4), S(1, '\0'), "");
    { S s = "a\rb\r\n\r"; unsigned n = strip_str(s); check(s == "ab" && n == 4, "strip_str with defaults does not remove all \\r and \\n"); }
    std::vector<S> tk{"a", "b", "ab", "ba", "aa", "\r", "\n", S(1, '\0'), "\xff", "/", "::"};
    do
    {
        for (int i = 0; i < 200; ++i)
        {
            S o = rng.toks(tk, 12);
            S a = rng.flip() ? rng.toks(tk, 2) : o.substr(rng.below(o.size() + 1), rng.below(4));
            one(o, a, rng.flip(3) ? a + rng.toks(tk, 1) : rng.toks(tk, 2));
            std::set<S> u;
            for (unsigned k = rng.below(4); k > 0; --k) { u.insert(rng.toks(tk, 2)); }
            strip(o, u, rng.toks(tk, 2));
        }
    } while (more());
    return finish();
}
