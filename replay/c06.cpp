#include "vp.hpp"
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static S rep(S s, const S& a, const S& b)
{
    for (size_t p = 0; (p = s.find(a, p)) != S::npos; p += b.size()) { s = s.substr(0, p) + b + s.substr(p + a.size()); }
    return s;
}
static bool starts(const S& s, const S& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const S& s, const S& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static S dem(const S& t)
{
    size_t p = t.find("dds_::");
    if (!ends(t, "_") || p == S::npos) { return t; }
    return rep(t.substr(0, p), "::", "/") + t.substr(p + 6, t.size() - 1 - p - 6);
}
static S man(const S& t)
{
    size_t p = t.find("/msg/");
    if (p == S::npos || p + 5 == t.size()) { return t; }
    return rep(t.substr(0, p + 5), "/", "::") + "dds_::" + t.substr(p + 5) + "_";
}
static S dsrv(const S& t)
{
    size_t p = t.find("dds_::");
    size_t k = ends(t, "_Response_") ? 10 : ends(t, "_Request_") ? 9 : 0;
    if (p == S::npos || !k) { return ""; }
    return rep(t.substr(0, p), "::", "/") + t.substr(p + 6, t.size() - k - p - 6);
}
static S msrv(const S& t)
{
    size_t p = t.find("/srv/");
    if (p == S::npos) { return ""; }
    S x = t.substr(0, p + 5) + "dds_::" + t.substr(p + 5);
    if (starts(t, "rq/")) { return rep(x + "_Request_", "/", "::"); }
    if (starts(t, "rr/")) { return rep(x + "_Response_", "/", "::"); }
    return "";
}
#define EQ(call, want) do { at(cat(#call " with t=", show(t))); S got_ = call; S want_ = want; \
        check(got_ == want_, cat(#call " with t=", show(t), " gives ", show(got_), ", expected ", show(want_))); } while (0)
static void one(const S& t)
{
    EQ(demangle_if_ros_type(t), dem(t));
    EQ(mangle_if_ros_type(t), man(t));
    EQ(demangle_service_type_only(t), dsrv(t));
    EQ(mangle_service_type_only(t), msrv(t));
}
static void trip(const S& a, const S& n)
{
    if (a.find_first_of(":/") != S::npos || ends(a, "dds_") || n.empty()) { return; }
    S t = a + "/msg/" + n;
    EQ(mangle_if_ros_type(t), a + "::msg::dds_::" + n + "_");
    EQ(demangle_if_ros_type(mangle_if_ros_type(t)), t);
}

int main()
{
    start();
    for (auto& h : hints) { one(h.s["s0"]); trip(h.s["package"], h.s["name"]); }
    std::vector<S> tk{"rq/", "rr/", "/", "::", "dds_::", "_Request_", "_Response_", "/msg/", "/srv/", "a", "_", "dds_", ":", "hello", "rt/", "std_msgs", S(1, '\0'), "\xff"};
    one("");
    sample("all sequences of up to 3 of {rq/, rr/, ::, dds_::, _Request_, _Response_, /msg/, /srv/, a, ...}");
    for (auto& a : tk) { one(a); for (auto& b : tk) { trip(a, b); one(a + b); for (auto& c : tk) { one(a + b + c); } } }
    do
    {
        for (int i = 0; i < 400; ++i)
        {
            one(rng.toks(tk, 9));
            one((rng.flip() ? "rq/" : "rr/") + rng.toks(tk, 2) + "/srv/" + rng.toks(tk, 3));
            one(rng.toks(tk, 3) + "dds_::" + rng.toks(tk, 3) + (rng.flip() ? "_Request_" : "_Response_"));
            trip(rng.toks(tk, 3), rng.toks(tk, 3));
        }
    } while (more());
    return finish();
}
