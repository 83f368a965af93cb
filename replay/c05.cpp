#include "vp.hpp"
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
using namespace vp;
typedef std::string S;

static bool starts(const S& s, const S& p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const S& s, const S& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
#define EQ(call, want) do { at(cat(#call " with t=", show(t), " p=", show(p))); S got_ = call; S want_ = want; \
        check(got_ == want_, cat(#call " with t=", show(t), " p=", show(p), " gives ", show(got_), ", expected ", show(want_))); } while (0)

static S svcd(const S& t, const S& p, const S& s)
{
    return starts(t, p + "/") && ends(t, s) ? t.substr(2, t.size() - 2 - s.size()) : S();
}

static void one(const S& t, const S& p)
{
    S pre = starts(t, "rt/") ? "rt" : starts(t, "rq/") ? "rq" : starts(t, "rr/") ? "rr" : "";
    bool abs = !t.empty() && t[0] == '/';
    EQ(remove_prefix(t, p), starts(t, p + "/") ? t.substr(p.size()) : S());
    EQ(add_prefix(t, p), p + t);
    EQ(add_suffix(t, p), t + p);
    EQ(get_ros_prefix_if_exists(t), pre);
    EQ(remove_ros_prefix_if_exists(t), t.substr(pre.size()));
    EQ(demangle_if_ros_topic(t), t.substr(pre.size()));
    EQ(mangle_if_ros_topic(t), abs ? "rt" + t : t);
    EQ(add_ros_topic_prefix(t), "rt" + t);
    EQ(add_ros_service_requester_prefix(t), "rq" + t);
    EQ(add_ros_service_response_prefix(t), "rr" + t);
    EQ(demangle_ros_topic_prefix_from_topic(t), pre == "rt" ? t.substr(2) : S());
    EQ(mangle_ros_service_request_prefix_in_topic(t), abs ? "rq" + t + "Request" : S());
    EQ(mangle_ros_service_reply_prefix_in_topic(t), abs ? "rr" + t + "Reply" : S());
    EQ(demangle_ros_service_request_prefix_from_topic(t), svcd(t, "rq", "Request"));
    EQ(demangle_ros_service_reply_prefix_from_topic(t), svcd(t, "rr", "Reply"));
    S r = svcd(t, "rr", "Reply");
    EQ(demangle_ros_service_prefix_from_topic(t), r.empty() ? svcd(t, "rq", "Request") : r);
    if (abs)
    {
        EQ(demangle_if_ros_topic(mangle_if_ros_topic(t)), t);
        EQ(demangle_ros_service_request_prefix_from_topic(mangle_ros_service_request_prefix_in_topic(t)), t);
        EQ(demangle_ros_service_reply_prefix_from_topic(mangle_ros_service_reply_prefix_in_topic(t)), t);
        EQ(demangle_ros_service_prefix_from_topic(mangle_ros_service_request_prefix_in_topic(t)), t);
        EQ(demangle_ros_service_prefix_from_topic(mangle_ros_service_reply_prefix_in_topic(t)), t);
    }
    S q = get_all_ros_prefixes().size() == 3 ? get_all_ros_prefixes()[0] + get_all_ros_prefixes()[1] + get_all_ros_prefixes()[2] : "";
    check(q == "rtrqrr", "get_all_ros_prefixes() is not {rt, rq, rr}");
}

int main()
{
    start();
    for (auto& h : hints) { one(h.s["s0"], h.s["s1"]); one(h.s["s1"], h.s["s0"]); }
    std::vector<S> tk{"rt", "rq", "rr", "/", "Request", "Reply", "a", "hello", "rt/", "rq/", "rr/", "_", "r", "t", "Req", "ply", S(1, '\0'), "\xff"};
    sample("all sequences of up to 3 tokens of {rt, rq, rr, /, Request, Reply, a, ...}");
    one("", "");
    for (auto& a : tk) { one(a, "rt"); for (auto& b : tk) { one(a + b, a); for (auto& c : tk) { one(a + b + c, a); } } }
    do
    {
        for (int i = 0; i < 300; ++i)
        {
            S t = rng.toks(tk, 8);
            one(t, rng.flip() ? rng.toks(tk, 2) : t.substr(0, rng.below(t.size() + 1)));
        }
    } while (more());
    return finish();
}
