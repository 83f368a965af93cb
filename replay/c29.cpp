// C29: return codes, QoS policies, formatters and exceptions against tables and plain strings.
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/qos/qos_utils.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using Value = ReturnCode::ReturnCodeValue;
namespace dds = eprosima::fastdds::dds;

static const char* codes[] = {"{Ok}", "{Error}", "{Unknown}", "{NoData}", "{NotEnabled}", "{PreconditionNotMet}"};
static const int of_dds[] = {0, 1, 1, 1, 5, 1, 4, 1, 1, 1, 1, 3, 1};
static const char* policies[] = {"Invalid", "User data", "Durability", "Presentation", "Deadline", "Latency budget", "Ownership", "Ownership strength", "Liveliness",
    "Time-based filter", "Partition", "Reliability", "Destination order", "History", "Resource limits", "Entity factory", "Writer data lifecycle",
    "Reader data lifecycle", "Topic data", "Group data", "Transport priority", "Lifespan", "Durability service", "Data representation",
    "Type consistency enforcement", "Disable positive acks", "Participant resource limits", "Property policy", "Publish mode",
    "Reader resource limits", "RTPS endpoint", "RTPS reliable reader", "RTPS reliable writer", "Transport config", "Type consistency",
    "Wire protocol config", "Writer resource limits"};
static_assert(sizeof(policies) / sizeof(*policies) == dds::NEXT_QOS_POLICY_ID, "policies");

template <class T> static std::string printed(const T& x) { std::ostringstream s; s << "<" << x << ">"; return s.str(); }

static void dds_code(dds::ReturnCode_t v)
{
    at(cat("ReturnCode of the code ", v, " of Fast DDS"));
    int want = v >= 0 && v <= 12 ? of_dds[v] : 2;
    ReturnCode c(v);
    check(c() == unsigned(want), cat("the code ", v, " of Fast DDS has the value ", c(), ", not ", want));
    check(printed(c) == cat("<", codes[want], ">"), cat("the code ", v, " of Fast DDS is printed ", show(printed(c))));
}
static void compare()
{
    int a = int(rng.below(6)), b = int(rng.below(6));
    at(cat("comparing return codes of values ", a, " and ", b));
    ReturnCode x{Value(a)}, y{Value(b)};
    check(x() == unsigned(a), cat("the value ", a, " becomes ", x()));
    check((x == y) == (a == b) && (x == Value(b)) == (a == b) && (Value(a) == y) == (a == b), cat("codes ", a, " and ", b, ": wrong =="));
    check((x != y) == (a != b) && (x != Value(b)) == (a != b) && (Value(a) != y) == (a != b), cat("codes ", a, " and ", b, ": wrong !="));
    check((x < y) == (a < b), cat("codes ", a, " and ", b, ": wrong <"));
    check(!x == (a != 0), cat("code ", a, ": wrong !"));
    check(printed(x) == cat("<", codes[a], ">"), cat("code ", a, " is printed ", show(printed(x))));
    ReturnCode copy(x);
    copy = y;
    check(copy() == unsigned(b) && x() == unsigned(a), "copying a code");
    check(ReturnCode()() == 0, "a code made of nothing is not Ok");
}
static void policy(uint32_t id)
{
    at(cat("name of the policy ", id));
    std::string want = id < dds::NEXT_QOS_POLICY_ID ? policies[id] : "Invalid";
    std::string is = qos_policy_id_to_string(dds::QosPolicyId_t(id));
    check(is == want, cat("the policy ", id, " is called ", show(is), ", not ", show(want)));
}
static void mask(const dds::PolicyMask& m)
{
    at(cat("mask ", m));
    std::string want;
    for (unsigned i = 0; i < dds::NEXT_QOS_POLICY_ID; ++i) { if (m[i]) { want += (want.empty() ? "" : ", ") + std::string(policies[i]); } }
    if (want.empty()) { want = "Invalid"; }
    std::string is = qos_policy_mask_to_string(m);
    check(is == want, cat("the mask ", m, " is ", show(is), ", not ", show(want)));
}
static std::string text() { std::string s = rng.str("ab \n<", 6); if (rng.flip(4)) { s.insert(rng.below(s.size() + 1), 1, '\0'); } return s; }

static void formatter()
{
    Formatter f;
    std::string want;
    at("formatter");
    int n = int(rng.below(8));
    for (int i = 0; i < n; ++i)
    {
        switch (rng.below(5))
        {
            case 0: { std::string s = text(); Formatter& r = f << s; want += s; check(&r == &f, "operator<< does not return the formatter"); break; }
            case 1: { long long v = (long long)rng.num(40) - 20; f << v; want += std::to_string(v); break; }
            case 2: f << "literal" << 'c'; want += "literalc"; break;
            case 3: { ReturnCode c{Value(rng.below(6))}; f << c; want += codes[c()]; break; }
            default: { Formatter g; std::string s = text(); g << s; f << g; want += s; }
        }
        check(f.to_string() == want, cat("the formatter holds ", show(f.to_string()), ", not ", show(want)));
    }
    std::string s = f;
    check(s == want, cat("the formatter is the string ", show(s), ", not ", show(want)));
    check(printed(f) == "<" + want + ">", cat("the formatter is printed ", show(printed(f)), ", not ", show(want)));
}

template <class E> static void exception(const char* kind)
{
    std::string s = rng.str("ab \n%", 9), t = rng.str("xyz", 9);
    at(cat(kind, " of message ", show(s)));
    Formatter f;
    f << s;
    for (int how = 0; how < 3; ++how)
    {
        std::unique_ptr<E> e;
        {
            std::string gone = s;
            e.reset(how == 0 ? new E(gone.c_str()) : how == 1 ? new E(gone) : new E(f));
            gone.assign(gone.size(), '!');
        }
        check(e->what() == s, cat(kind, " made in way ", how, " says ", show(e->what()), ", not ", show(s)));
        E copy(*e), other(t);
        const char* held = e->what();
        const char* held_other = other.what();
        std::string again = copy.what();
        check(held == s && held_other == t && again == s, cat("a ", kind, " said ", show(s), ", and ", show(held), " after others were asked"));
        check(copy.what() == s && other.what() == t, cat("a copy of a ", kind, " says ", show(copy.what())));
        other = *e;
        e.reset();
        check(copy.what() == s && other.what() == s, cat("a ", kind, " assigned says ", show(other.what())));
        bool caught = false;
        try { throw other; }
        catch (const Exception& x) { caught = dynamic_cast<const E*>(&x) && x.what() == s; }
        check(caught, cat(kind, " is not caught as an Exception with its message"));
        caught = false;
        try { throw other; }
        catch (const std::exception& x) { caught = x.what() == s; }
        check(caught, cat(kind, " is not caught as a std::exception with its message"));
    }
}

int main(int argc, char** argv)
{
    start(argc, argv);
    for (int v = -3; v < 20; ++v) { dds_code(v); }
    for (int v : {std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 256, 65536}) { dds_code(v); }
    for (uint32_t i = 0; i < 40; ++i) { policy(i); }
    for (uint32_t i : {255u, 256u, 292u, 65536u, 0x80000000u, 0xffffffffu}) { policy(i); }
    for (unsigned i = 0; i < dds::NEXT_QOS_POLICY_ID; ++i)
    {
        dds::PolicyMask m;
        mask(m);
        m.set(i);
        mask(m);
        for (unsigned j = 0; j < i; ++j) { dds::PolicyMask k(m); k.set(j); mask(k); }
        mask(~m);
    }
    do
    {
        compare();
        dds_code(int(rng.below(30)) - 8);
        dds::PolicyMask m;
        int n = int(rng.below(4));
        for (int i = 0; i < n; ++i) { m.set(rng.below(dds::NEXT_QOS_POLICY_ID)); }
        mask(rng.flip(3) ? ~m : m);
        formatter();
        exception<Exception>("Exception");
        exception<ConfigurationException>("ConfigurationException");
        exception<DNSException>("DNSException");
        exception<DisabledException>("DisabledException");
        exception<InconsistencyException>("InconsistencyException");
        exception<InitializationException>("InitializationException");
        exception<PreconditionNotMet>("PreconditionNotMet");
        exception<TimeoutException>("TimeoutException");
        exception<UnsupportedException>("UnsupportedException");
        exception<ValueAccessException>("ValueAccessException");
        exception<ValueNotAllowedException>("ValueNotAllowedException");
    } while (more());
    return finish();
}
