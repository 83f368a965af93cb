// C28: what the log configuration, the consumers and the log handlers do with each entry, against a model.
#include <atomic>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <regex>
#include <thread>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/testing/LogChecker.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using namespace eprosima::utils::event;
using Kind = Log::Kind;

static const char* categories[] = {"NET", "UTILS_EVENT", "a", "", "x.y"};
static Log::Entry random_entry()
{
    Log::Entry e;
    e.message = rng.str("abxy. ", 5);
    e.kind = Kind(rng.below(3));
    e.context = {"file", 3, "function", categories[rng.below(5)]};
    e.timestamp = "now";
    return e;
}
static std::string describe(const Log::Entry& e) { return cat("entry of kind ", int(e.kind), " message ", show(e.message), " category ", show(e.context.category)); }
static void queue(const Log::Entry& e) { Log::QueueLog(e.message, e.context, e.kind); }
static std::string random_filter()
{
    static const char* f[] = {"", "a", "ab", "^a", "b$", "x.y", "x\\.y", "NET|b", "UTILS.*", "[xy]", "^$", "zzz"};
    return f[rng.below(12)];
}
static FuzzyLevelType random_level() { static const FuzzyLevelType l[] = {-20, 0, 20, 40, 60, -1, 1, 32767, -32768}; return l[rng.below(9)]; }
static std::string text(const Fuzzy<std::string>& f) { return cat(show(f.get_value()), " at ", f.get_level()); }

static void configuration()
{
    BaseLogConfiguration c;
    Fuzzy<Kind> v(Kind::Warning, FuzzyLevelValues::fuzzy_level_default);
    std::map<Kind, Fuzzy<std::string>> f;
    for (int k = 0; k < 3; ++k) { f[Kind(k)] = Fuzzy<std::string>("", FuzzyLevelValues::fuzzy_level_default); }
    int n = int(rng.below(6));
    for (int i = 0; i <= n; ++i)
    {
        check(c.verbosity.get_value() == v.get_value() && c.verbosity.get_level() == v.get_level(),
            cat("the verbosity of the configuration is ", int(c.verbosity.get_value()), " at ", c.verbosity.get_level(), ", not ", int(v.get_value()), " at ", v.get_level()));
        for (int k = 0; k < 3; ++k)
        {
            check(c.filter.count(Kind(k)) && text(c.filter[Kind(k)]) == text(f[Kind(k)]), cat("the filter of kind ", k, " is ", text(c.filter[Kind(k)]), ", not ", text(f[Kind(k)])));
        }
        check(c.filter.size() == 3, "the configuration does not have the filters of three kinds");
        if (i == n) { break; }
        at(cat("configuration, step ", i));
        if (rng.flip(3))
        {
            Fuzzy<Kind> w(Kind(rng.below(3)), random_level());
            if (v.get_level() <= w.get_level()) { v = w; }
            c.set(w);
        }
        else
        {
            LogFilter w;
            for (int k = 0; k < 3; ++k) { w[Kind(k)] = Fuzzy<std::string>(random_filter(), random_level()); if (f[Kind(k)].get_level() <= w[Kind(k)].get_level()) { f[Kind(k)] = w[Kind(k)]; } }
            c.set(w);
        }
    }
    StdLogConsumer consumer(&c);
    for (int i = 0; i < 6; ++i)
    {
        Log::Entry e = random_entry();
        at(cat("consume ", describe(e), " filter ", show(f[e.kind].get_value()), " verbosity ", int(v.get_value())));
        std::regex r(f[e.kind].get_value());
        bool ok = int(e.kind) <= int(v.get_value()) && (std::regex_search(e.message, r) || std::regex_search(e.context.category, r));
        std::ostringstream out, err;
        auto* o = std::cout.rdbuf(out.rdbuf());
        auto* x = std::cerr.rdbuf(err.rdbuf());
        consumer.Consume(e);
        std::cout.rdbuf(o);
        std::cerr.rdbuf(x);
        std::string want = ok ? cat("now ", e.message, e.context.category, "\n") : "";
        bool info = e.kind == Kind::Info;
        check((info ? out : err).str() == want && (info ? err : out).str().empty(), cat("consumer with filter ", show(f[e.kind].get_value()), " and verbosity ", int(v.get_value()), ", ",
            describe(e), ": printed ", show(out.str()), " and on the error output ", show(err.str())));
    }
}

struct H
{
    std::unique_ptr<LogEventHandler> h;
    int threshold = 2;
    bool set = false;
    std::vector<std::string> told, want;
    unsigned count = 0;
};

static void handlers()
{
    std::vector<std::unique_ptr<H>> hs;
    Kind verbosity = Kind(rng.below(3));
    Log::SetVerbosity(verbosity);
    int n = int(rng.below(20));
    for (int i = 0; i < n; ++i)
    {
        int what = int(rng.below(8));
        if (what == 0)
        {
            hs.emplace_back(new H);
            H* h = hs.back().get();
            auto f = [h](Log::Entry e) { h->told.push_back(describe(e)); };
            h->set = true;
            switch (rng.below(4))
            {
                case 0: at("a handler without callback"); h->set = false; h->h.reset(new LogEventHandler()); break;
                case 1: at("a handler"); h->h.reset(new LogEventHandler(f)); break;
                case 2: at("a severe handler"); h->threshold = 1; h->h.reset(new LogSevereEventHandler(f)); break;
                default: h->threshold = int(rng.below(3)); at(cat("a severe handler of ", h->threshold)); h->h.reset(new LogSevereEventHandler(f, Kind(h->threshold)));
            }
            if (dynamic_cast<LogSevereEventHandler*>(h->h.get()) && h->threshold > int(verbosity)) { verbosity = Kind(h->threshold); }
            check(Log::GetVerbosity() == verbosity, cat("after making a handler of threshold ", h->threshold, " the Log has verbosity ", int(Log::GetVerbosity()), ", not ", int(verbosity)));
        }
        else if (what == 1 && !hs.empty())
        {
            H* h = hs[rng.below(hs.size())].get();
            if (h->set) { at("unset"); h->h->unset_callback(); h->set = false; }
            else { at("set"); h->h->set_callback([h](Log::Entry e) { h->told.push_back(describe(e)); }); h->set = true; }
        }
        else if (what == 2 && !hs.empty()) { at("destroy a handler"); hs.erase(hs.begin() + long(rng.below(hs.size()))); }
        else
        {
            Log::Entry e = random_entry();
            at(describe(e));
            if (e.kind > Log::GetVerbosity()) { continue; }
            for (auto& h : hs) { if (h->set && int(e.kind) <= h->threshold) { h->want.push_back(describe(e)); ++h->count; } }
            queue(e);
            for (auto& h : hs)
            {
                check(h->told == h->want, cat("a handler of threshold ", h->threshold, (h->set ? "" : " (unset)"), " was told of ", h->told.size(), " entries, not ", h->want.size(), "; last: ", describe(e)));
                check(h->h->event_count() == h->count, cat("a handler counts ", h->h->event_count(), " events, not ", h->count));
            }
        }
    }
    hs.clear();
    queue(random_entry());
    Log::ClearConsumers();
}

// a callback that takes its time to be copied, while entries arrive
static std::atomic<bool> armed{false};
static std::atomic<int> low{0}, high{0};
static std::vector<std::thread> senders;
static void send(Kind k) { Log::QueueLog("m", {"f", 1, "g", "C"}, k); }
struct Slow
{
    Slow() {}
    Slow(const Slow&)
    {
        if (armed)
        {
            senders.emplace_back([]() { send(Kind::Info); send(Kind::Warning); });
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
    }
    Slow& operator=(const Slow&) = default;
    void operator()(const Log::Entry& e) const { ++(e.kind > Kind::Warning ? low : high); }
};

static std::atomic<bool> entered{false}, gate{false};
template <class P> struct Waiting : P
{
    using P::P;
    ~Waiting() { this->unset_callback(); }
    void consume_(const Log::Entry& e) override
    {
        if (e.message == "wait") { entered = true; while (!gate) { std::this_thread::sleep_for(std::chrono::microseconds(100)); } }
        P::consume_(e);
    }
};

template <class P> static void destroyed_meanwhile(const char* what)
{
    at(cat(what, " destroyed while the Log thread gives it an entry"));
    entered = gate = false;
    auto told = std::make_shared<std::atomic<int>>(0);
    auto* h = new Waiting<P>([told](Log::Entry) { ++*told; });
    for (int i = 0; i < 5; ++i) { send(Kind::Error); }
    check(*told == 5, cat(what, " was told of ", told->load(), " entries, not 5"));
    std::thread log([]() { Log::QueueLog("wait", {"f", 1, "g", "C"}, Kind::Error); });
    while (!entered) { std::this_thread::yield(); }
    std::thread opener([]() { std::this_thread::sleep_for(std::chrono::milliseconds(5)); gate = true; });
    delete h;
    opener.join();
    log.join();
    check(*told <= 6, cat(what, " was told of more entries than there were"));
    Log::ClearConsumers();
}

static void together()
{
    at("a severe handler made while entries arrive");
    low = high = 0;
    {
        std::function<void(Log::Entry)> f = Slow();
        armed = true;
        std::unique_ptr<LogSevereEventHandler> h(new LogSevereEventHandler(f, Kind::Warning));
        armed = false;
        for (auto& t : senders) { t.join(); }
        senders.clear();
        int n = high;
        send(Kind::Warning);
        send(Kind::Info);
        check(high == n + 1, "a severe handler is not told of a severe entry");
    }
    check(low == 0, cat("a severe handler of threshold Warning was told of ", low.load(), " entries of kind Info"));
    Log::ClearConsumers();
    at("severe handlers made and destroyed while entries arrive");
    std::atomic<bool> stop{false};
    std::thread t([&stop]() { while (!stop) { send(Kind::Info); send(Kind::Error); std::this_thread::yield(); } });
    for (int i = 0; i < 30; ++i)
    {
        LogSevereEventHandler h([](Log::Entry e) { if (e.kind > Kind::Warning) { ++low; } }, Kind::Warning);
        if (rng.flip()) { std::this_thread::yield(); }
    }
    stop = true;
    t.join();
    check(low == 0, cat("severe handlers of threshold Warning were told of ", low.load(), " entries of kind Info"));
    Log::ClearConsumers();
    destroyed_meanwhile<LogEventHandler>("a handler");
    destroyed_meanwhile<LogSevereEventHandler>("a severe handler");
}

static void checker()
{
    unsigned expected = unsigned(rng.below(4)), max = unsigned(rng.below(5)), n = 0;
    Kind threshold = Kind(rng.below(3));
    at(cat("LogChecker of threshold ", int(threshold), " expected ", expected, " max ", max));
    Log::SetVerbosity(Kind(rng.below(3)));
    {
        testing::LogChecker c(threshold, expected, max);
        check(Log::GetVerbosity() >= threshold, "the entries that a LogChecker counts are not let through");
        int k = int(rng.below(7));
        for (int i = 0; i <= k; ++i)
        {
            bool want = n >= expected && n <= std::max(expected, max);
            check(c.check_valid() == want, cat("a LogChecker that expects ", expected, " to ", std::max(expected, max), " entries and got ", n, " is ", want ? "not " : "", "valid"));
            Log::Entry e = random_entry();
            if (e.kind <= threshold) { ++n; }
            if (e.kind <= Log::GetVerbosity()) { queue(e); }
        }
    }
    Log::ClearConsumers();
}

int main(int argc, char** argv)
{
    stall_limit = 30;
    start(argc, argv);
    do
    {
        configuration();
        handlers();
        checker();
        if (rng.flip(40)) { together(); }
    }
    while (more());
    together();
    sample("configurations, consumers and handlers");
    return finish();
}
