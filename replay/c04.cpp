#include "vp.hpp"
#include <set>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;
typedef std::vector<S> V;

static S show(const V& v) { S r = "["; for (auto& x : v) { r += vp::show(x) + ","; } return r + "]"; }
static V ref(const S& s, const S& d)
{
    if (d.empty()) { return {s}; }
    V r; S cur;
    for (size_t i = 0; i < s.size(); )
    {
        if (i + d.size() <= s.size() && s.compare(i, d.size(), d) == 0) { r.push_back(cur); cur.clear(); i += d.size(); }
        else { cur += s[i++]; }
    }
    r.push_back(cur);
    return r;
}
static V ref(const V& v, const S& d)
{
    V r;
    for (auto& s : v) { for (auto& t : ref(s, d)) { r.push_back(t); } }
    return r;
}

static void one(const S& s, const S& d)
{
    S w = cat("split_string(", vp::show(s), ", ", vp::show(d), ")");
    at(w);
    V got = split_string(s, d), want = ref(s, d);
    check(got == want, cat(w, " gives ", show(got), ", expected ", show(want)));
}
static void many(const V& v, const S& d)
{
    S w = cat("split_string(", show(v), ", ", vp::show(d), ")");
    at(w);
    V got = split_string(v, d), want = ref(v, d);
    check(got == want, cat(w, " gives ", show(got), ", expected ", show(want)));
}
static void bys(const S& s, const std::set<S>& ds)
{
    S w = cat("split_string(", vp::show(s), ", {", show(V(ds.begin(), ds.end())), "})");
    at(w);
    V got = split_string(s, ds), want{s};
    for (auto& d : ds) { want = ref(want, d); }
    check(got == want, cat(w, " gives ", show(got), ", expected ", show(want)));
}

int main()
{
    start();
    for (auto& h : hints) { one(h.s["source"], h.s["delimiter"]); bys(h.s["source"], {h.s["delimiter"], "a"}); }
    V sm{""};
    for (size_t i = 0; i < sm.size() && sm[i].size() < 3; ++i) { sm.push_back(sm[i] + "a"); sm.push_back(sm[i] + "b"); }
    V src{""};
    for (size_t i = 0; i < src.size() && src[i].size() < 8; ++i) { src.push_back(src[i] + "a"); src.push_back(src[i] + "b"); }
    sample("all sources of a,b up to 8 characters, delimiters up to 3");
    for (auto& s : src) { for (auto& d : sm) { one(s, d); if (s.size() < 6) { for (auto& d2 : sm) { bys(s, {d, d2}); } } } }
    one(S(300, ';'), ";"); one(S(70000, 'x') + ";" + S(70000, 'y'), ";"); one(S("a\0b\0", 4), S(1, '\0'));
    many({}, ";"); many({}, ""); bys("a;b", {}); bys("", {});
    V tk{"a", "b", ";", ";;", ",", "ab", "::", ":", S(1, '\0'), "\xff", " "};
    do
    {
        for (int i = 0; i < 200; ++i)
        {
            S s = rng.toks(tk, 14);
            S d = rng.flip() ? rng.toks(tk, 2) : s.substr(rng.below(s.size() + 1), rng.below(4));
            one(s, d);
            V v; for (unsigned k = rng.below(5); k > 0; --k) { v.push_back(rng.toks(tk, 5)); }
            many(v, d);
            std::set<S> u;
            for (unsigned k = rng.below(4); k > 0; --k) { u.insert(rng.toks(tk, 2)); }
            bys(s, u);
        }
    } while (more());
    return finish();
}
