#include "vp.hpp"
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;
using namespace vp;

struct Val
{
    std::string s;
    Val(const std::string& s = "") : s(s) {}
    bool operator ==(const Val& o) const { return s == o.s; }
};
static std::string text(const std::string& s) { return s; }
static std::string text(int i) { return cat(i); }
static std::string text(const Val& v) { return v.s; }

template <class V> static void is(const Fuzzy<V>& f, const V& v, int l, const std::string& w)
{
    at(w);
    const V& got = f.get_reference();
    check(got == v && f.get_value() == v && *f.operator ->() == v, w + ": value " + text(got) + " instead of " + text(v));
    check(f.get_level() == l, w + cat(": level ", f.get_level(), " instead of ", l));
    check(f.is_valid() == (l >= 0), w + cat(": is_valid with level ", l));
    check(f.is_set() == (l >= 20), w + cat(": is_set with level ", l));
    std::string n = l == -20 ? "UNSET" : l == 0 ? "DEFAULT" : l == 20 ? "FUZZY" : l == 40 ? "SET" : l == 60 ? "HARD" : "";
    check(f.get_level_as_str() == n, w + cat(": level ", l, " is named ", f.get_level_as_str()));
}

template <class V> static void one(const V& a, int l, const V& b, int k)
{
    std::string w = cat("value ", text(a), " level ", l, " and value ", text(b), " level ", k);
    const V blank = V();
    is(Fuzzy<V>(), blank, 0, w + ": default construction");
    is(Fuzzy<V>(a), a, 40, w + ": construction from a value");
    { V m(a); is(Fuzzy<V>(std::move(m)), a, 40, w + ": construction moving a value"); }
    { V m(a); is(Fuzzy<V>(std::move(m), l), a, l, w + ": construction moving a value with a level"); }
    Fuzzy<V> x(a, l), y(b, k);
    is(x, a, l, w + ": construction with a level");
    is(Fuzzy<V>(x), a, l, w + ": copy");
    is(x, a, l, w + ": original of a copy");
    { Fuzzy<V> z(x); is(Fuzzy<V>(std::move(z)), a, l, w + ": move"); }
    { Fuzzy<V> z(x); z = y; is(z, b, k, w + ": assignment"); is(y, b, k, w + ": assigned from"); }
    { Fuzzy<V> z(x), t(y); z = std::move(t); is(z, b, k, w + ": move assignment"); }
    { Fuzzy<V> z(x); z = b; is(z, b, 40, w + ": assignment of a value"); }
    { Fuzzy<V> z(x); z.set_value(b); is(z, b, 40, w + ": set_value"); }
    { Fuzzy<V> z(x); z.set_value(b, k); is(z, b, k, w + ": set_value with a level"); }
    { Fuzzy<V> z(x); z.set_level(); is(z, a, 40, w + ": set_level"); }
    { Fuzzy<V> z(x); z.set_level(k); is(z, a, k, w + ": set_level with a level"); }
    { Fuzzy<V> z(x); z.unset(); is(z, a, -20, w + ": unset"); }
    { Fuzzy<V> z(x); z.get_reference() = b; is(z, b, l, w + ": writing the reference"); }
    { Fuzzy<V> z(x); *z.operator ->() = b; is(z, b, l, w + ": writing through ->"); }
    const Fuzzy<V>& cx = x;
    const Fuzzy<V>& cy = y;
    bool eq = (l < 20 && k < 20) || (l == k && a == b);
    at(w + ": comparison");
    check(cx.operator ==(cy) == eq && cy.operator ==(cx) == eq, w + ": ==");
    check(cx.operator !=(cy) == !eq, w + ": !=");
    check(cx.operator ==(b) == (l >= 0 && a == b), w + ": == a value");
    check(cx.operator !=(b) == !(l >= 0 && a == b), w + ": != a value");
}

template <class V> static void print(const V& a, int l)
{
    Fuzzy<V> f(a, l);
    std::ostringstream os;
    os << f;
    std::string want = "Fuzzy{Level(" + f.get_level_as_str() + ") " + text(a) + "}";
    check(os.str() == want, "printing level " + cat(l) + " gives " + os.str());
}

int main()
{
    start();
    sample("ints, strings and a class; levels around the named ones, the extremes, random ones; every operation on every pair");
    std::vector<int> ls{-32768, -21, -20, -19, -1, 0, 1, 19, 20, 21, 39, 40, 41, 59, 60, 61, 32767};
    for (int r = 0; r < 4; ++r) ls.push_back(int(rng.below(65536)) - 32768);
    for (int l : ls) for (int k : ls)
    {
        one<int>(3, l, 4, k); one<int>(7, l, 7, k); one<int>(0, l, 1, k);
        one<std::string>("", l, "x", k); one<std::string>("abc", l, "abc", k);
        one<Val>(Val("p"), l, Val("q"), k); one<Val>(Val("p"), l, Val("p"), k);
    }
    for (int l : ls) { print<int>(-5, l); print<std::string>("some text", l); }
    return finish();
}
