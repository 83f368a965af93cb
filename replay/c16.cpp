#include "vp.hpp"
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
using namespace vp;
using Clock = std::chrono::steady_clock;

extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

struct Hooked : EventHandler<int>
{
    std::string h;
    void callback_set_nts_() noexcept override { h += "s"; }
    void callback_change_nts_() noexcept override { h += "c"; }
    void callback_unset_nts_() noexcept override { h += "u"; }
    ~Hooked() { unset_callback(); }
};

static void single()
{
    std::string w = "EventHandler:", hooks;
    std::vector<int> got, want;
    Hooked e;
    unsigned count = 0;
    bool set = false;
    int cur = 0, n = 1 + rng.below(30);
    for (int k = 0; k < n; ++k)
    {
        switch (rng.below(7))
        {
            case 0: { ++cur; int c = cur; w += " set"; at(w); hooks += set ? "c" : "s"; set = true; e.set_callback([&got, c](int x) { got.push_back(c * 1000 + x); }); break; }
            case 1: w += " unset"; at(w); if (set) { hooks += "u"; } set = false; e.unset_callback(); break;
            case 2: w += " reset"; at(w); e.reset_event_count(); count = 0; break;
            case 3: w += " decrement"; at(w); e.decrement_event_count(); if (count) { --count; } break;
            default: { int x = rng.below(1000); w += cat(" event(", x, ")"); at(w); e.simulate_event_occurred(x); if (set) { want.push_back(cur * 1000 + x); ++count; } break; }
        }
        check(got == want, w + ": not the expected calls of the callback");
        check(e.event_count() == count, w + cat(": event_count() ", e.event_count(), ", expected ", count));
        check(e.h == hooks, w + ": hooks " + e.h + ", expected " + hooks);
        // waiting for what has already happened, or without callback, does not block
        unsigned t = rng.below(4);
        if (!set || t <= count) { at(w + cat(" wait_for_event(", t, ")")); check(e.wait_for_event(t) == (count >= t), w + cat(": wait_for_event(", t, ")")); }
    }
    // a callback may unset or change itself
    EventHandler<int> r;
    int a = 0, b = 0;
    bool change = rng.flip();
    at(change ? "a callback that sets another one" : "a callback that unsets itself");
    r.set_callback([&](int) { ++a; if (change) { r.set_callback([&](int) { ++b; }); } else { r.unset_callback(); } });
    r.simulate_event_occurred(1);
    r.simulate_event_occurred(2);
    check(a == 1 && b == change, change ? "a callback that sets another one" : "a callback that unsets itself");
    check(r.event_count() == (change ? 2u : 1u), "event_count with a callback that changes the handler");
    r.unset_callback();
}

static void waiters()
{
    int n = 1 + rng.below(4);
    unsigned need = 1 + rng.below(4), have = rng.below(6);
    int way = rng.below(3);
    std::string w = cat(n, " threads in wait_for_event(", need, "), ", have, " events, then the handler is ", way == 0 ? "unset" : way == 1 ? "destroyed" : "unset and reset");
    at(w);
    auto* h = new Hooked();
    h->set_callback([](int) {});
    std::atomic<int> yes{0}, no{0}, begun{0};
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) { t.emplace_back([&] { ++begun; (h->wait_for_event(need) ? yes : no)++; }); }
    while (begun < n) { std::this_thread::yield(); }
    // (a thread that has not started waiting may not use a handler that is destroyed)
    if (have < need || rng.flip()) { std::this_thread::sleep_for(std::chrono::milliseconds(way == 1 ? 50 : 10)); }
    for (unsigned i = 0; i < have; ++i) { h->simulate_event_occurred(i); }
    if (have >= need)
    {
        for (auto& x : t) { x.join(); }
        t.clear();
        check(yes == n, w + cat(": ", yes.load(), " returned true"));
    }
    if (way == 1) { delete h; }
    else { h->unset_callback(); if (way == 2) { h->reset_event_count(); } }
    for (auto& x : t) { x.join(); }
    check(have >= need ? yes == n : no == n, w + cat(": ", yes.load(), " returned true, ", no.load(), " false"));
    if (way != 1) { delete h; }
}

// events from several threads while another one sets and unsets
static void storm()
{
    int n = 1 + rng.below(3), each = 20 + rng.below(200), rounds = 1 + rng.below(20);
    std::string w = cat(n, " threads of ", each, " events, and ", rounds, " times set and unset");
    at(w);
    Hooked h;
    std::atomic<int> inside{0}, overlap{0}, late{0};
    std::atomic<bool> on{false};
    int calls = 0;             // (serialised by the handler: the sanitizer would tell)
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) { t.emplace_back([&] { for (int k = 0; k < each; ++k) { h.simulate_event_occurred(k); if (k % 16 == 0) { std::this_thread::yield(); } } }); }
    for (int r = 0; r < rounds; ++r)
    {
        on = true;
        h.set_callback([&](int) { if (++inside > 1) { ++overlap; } if (!on) { ++late; } ++calls; --inside; });
        std::this_thread::sleep_for(std::chrono::microseconds(rng.below(200)));
        h.unset_callback();
        on = false;
    }
    for (auto& x : t) { x.join(); }
    check(!overlap, w + ": two callbacks at a time");
    check(!late, w + ": a callback ran after unset_callback returned");
    check(int(h.event_count()) == calls, w + cat(": ", calls, " calls but event_count() ", h.event_count()));
}

// unset_callback waits for the callback that is running
static void unset_running()
{
    std::string w = "unset_callback while the callback runs in another thread";
    at(w);
    Hooked h;
    std::atomic<int> in{0};
    h.set_callback([&](int) { in = 1; std::this_thread::sleep_for(std::chrono::milliseconds(5)); in = 2; });
    std::thread t([&] { h.simulate_event_occurred(1); });
    while (in == 0) { std::this_thread::yield(); }
    h.unset_callback();
    int s = in;
    t.join();
    check(s == 2, w + ": it returned before the callback ended");
}

static double ms_since(Clock::time_point t) { return std::chrono::duration<double, std::milli>(Clock::now() - t).count(); }

static void periodic()
{
    unsigned p = 1 + rng.below(8);
    std::string w = cat("PeriodicEventHandler of ", p, " ms");
    at(w);
    std::atomic<unsigned> calls{0};
    auto t = Clock::now();
    std::unique_ptr<PeriodicEventHandler> h;
    if (rng.flip()) { h.reset(new PeriodicEventHandler([&] { ++calls; }, p)); }
    else { h.reset(new PeriodicEventHandler(p)); check(h->event_count() == 0, w + ": events before it has a callback"); t = Clock::now(); h->set_callback([&] { ++calls; }); }
    unsigned k = 1 + rng.below(3);
    check(h->wait_for_event(k), w + ": wait_for_event gives false");
    double el = ms_since(t);
    unsigned c = calls;
    check(c >= k, w + cat(": ", c, " calls"));
    check(el >= double(k) * p, w + cat(": ", k, " events after ", el, " ms"));
    if (rng.flip())
    {
        h->set_callback([&] { ++calls; });      // a change goes on with the same thread
        check(h->wait_for_event(h->event_count() + 1), w + ": no event after the callback was changed");
    }
    h->unset_callback();
    c = calls;
    unsigned n = h->event_count();
    std::this_thread::sleep_for(std::chrono::milliseconds(2 * p + 2));
    check(calls == c && h->event_count() == n, w + ": an event after unset_callback");
    if (rng.flip())
    {
        h->set_callback([&] { ++calls; });
        check(h->wait_for_event(n + 1), w + ": no event after the callback was set again");
    }
    h.reset();
    c = calls;
    std::this_thread::sleep_for(std::chrono::milliseconds(p + 2));
    check(calls == c, w + ": an event after destruction");
    bool thrown = false;
    try { PeriodicEventHandler z(0); } catch (const InitializationException&) { thrown = true; }
    check(thrown, "PeriodicEventHandler(0) is not refused");
}

static void multiple()
{
    int n = 1 + rng.below(4);
    std::string w = cat("MultipleEventHandler of ", n, " handlers");
    at(w);
    std::atomic<unsigned> calls{0};
    auto m = std::make_unique<MultipleEventHandler>([&] { ++calls; });
    bool bare = rng.below(4) == 0;          // by default a callback is set that does nothing
    if (bare) { m = std::make_unique<MultipleEventHandler>(); }
    static std::atomic<int> ended;
    ended = 0;
    struct Kid : public Hooked { ~Kid() { ++ended; } };
    std::vector<EventHandler<int>*> hs;
    unsigned want = 0;
    for (int i = 0; i < n; ++i)
    {
        auto h = std::make_unique<Kid>();
        hs.push_back(h.get());
        if (rng.flip()) { h->set_callback([&](int) { calls += 1000; }); }
        m->register_event_handler<Kid, int>(std::move(h));
        for (int k = rng.below(4); k > 0; --k) { hs[rng.below(hs.size())]->simulate_event_occurred(k); ++want; }
    }
    check(calls == (bare ? 0 : want) && m->event_count() == want, w + cat(": ", want, " events, ", calls.load(), " calls"));
    bool yes = true;
    std::thread t([&yes, want, h = m.get()] { yes = h->wait_for_event(want + 1); });
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    bool event = rng.flip();
    if (event) { hs[0]->simulate_event_occurred(1); t.join(); m.reset(); } else { m.reset(); t.join(); }
    check(yes == event, w + ": wait_for_event");
    check(ended == n, w + cat(": ", ended.load(), " handlers end with it"));
}

int main(int argc, char** argv)
{
    stall_limit = 20;
    start(argc, argv);
    do
    {
        for (int i = 0; i < 20; ++i) { single(); }
        waiters();
        storm();
        unset_running();
        if (rng.flip()) { periodic(); } else { multiple(); }
    } while (more());
    finish();
}
