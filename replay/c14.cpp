#include "vp.hpp"
#include <atomic>
#include <thread>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
using namespace vp;

extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

static const char* name(AwakeReason r) { return r == AwakeReason::disabled ? "disabled" : r == AwakeReason::timeout ? "timeout" : "condition_met"; }
using Clock = std::chrono::steady_clock;
static double ms_since(Clock::time_point t) { return std::chrono::duration<double, std::milli>(Clock::now() - t).count(); }

struct Str { std::string s; };

// one thread: what a wait gives at once
static void immediate()
{
    int v = int(rng.below(7)) - 3, x = int(rng.below(7)) - 3;
    bool en = !rng.flip(4);
    IntWaitHandler h(v, en);
    bool rel[5] = {v == x, v > x, v >= x, v < x, v <= x};
    const char* nm[5] = {"wait_equal", "wait_greater_than", "wait_greater_equal_than", "wait_lower_than", "wait_lower_equal_than"};
    for (int k = 0; k < 5; ++k)
    {
        std::string w = cat("IntWaitHandler(", v, en ? ", enabled)." : ", disabled).", nm[k], "(", x, ", 2 ms)");
        at(w);
        auto t = Clock::now();
        AwakeReason r = k == 0 ? h.wait_equal(x, 2) : k == 1 ? h.wait_greater_than(x, 2) : k == 2 ? h.wait_greater_equal_than(x, 2)
            : k == 3 ? h.wait_lower_than(x, 2) : h.wait_lower_equal_than(x, 2);
        AwakeReason e = !en ? AwakeReason::disabled : rel[k] ? AwakeReason::condition_met : AwakeReason::timeout;
        check(r == e, w + " gives " + name(r));
        check(r != AwakeReason::timeout || ms_since(t) > 1, w + ": timeout before its time");
    }
    check(h.get_value() == v && h.enabled() == en, "a wait changed the handler");
    ++h; check(h.get_value() == v + 1, "++ of IntWaitHandler"); --h; --h; check(h.get_value() == v - 1, "-- of IntWaitHandler");
    h.set_value(x); check(h.get_value() == x, "set_value of IntWaitHandler");

    unsigned th = rng.below(3), c = rng.below(5);
    CounterWaitHandler cw(th, c, en);
    std::string w = cat("CounterWaitHandler(", th, ", ", c, ", ", en, ").wait_and_decrement(2)");
    at(w);
    AwakeReason r = cw.wait_and_decrement(2), e = !en ? AwakeReason::disabled : c > th ? AwakeReason::condition_met : AwakeReason::timeout;
    check(r == e, w + " gives " + name(r));
    check(cw.get_value() == c - (e == AwakeReason::condition_met), w + ": value");
    c = cw.get_value();
    w = cat("CounterWaitHandler(", th, ", ", c, ", ", en, ").wait_threshold_reached(2)");
    at(w);
    r = cw.wait_threshold_reached(2);
    e = !en ? AwakeReason::disabled : c == th ? AwakeReason::condition_met : AwakeReason::timeout;
    check(r == e, w + " gives " + name(r));
    check(cw.get_value() == c, w + ": value");

    bool open = rng.flip();
    BooleanWaitHandler b(open, en);
    w = cat("BooleanWaitHandler(", open, ", ", en, ").wait(2)");
    at(w);
    r = b.wait(2);
    e = !en ? AwakeReason::disabled : open ? AwakeReason::condition_met : AwakeReason::timeout;
    check(r == e, w + " gives " + name(r));
    check(b.is_open() == open, w + ": open");
    b.open(); check(b.is_open(), "open()"); b.close(); check(!b.is_open(), "close()");
}

template <class H, class F> struct Waiters
{
    std::vector<std::thread> t;
    std::atomic<int> done{0}, met{0}, dis{0}, tim{0};
    Waiters(H& h, int n, F f) { for (int i = 0; i < n; ++i) t.emplace_back([this, &h, f] {
        AwakeReason r = f(h);
        (r == AwakeReason::condition_met ? met : r == AwakeReason::disabled ? dis : tim)++; ++done; }); }
    void join() { for (auto& x : t) x.join(); t.clear(); }
    ~Waiters() { join(); }
};
template <class H, class F> static Waiters<H, F>* waiters(H& h, int n, F f) { return new Waiters<H, F>(h, n, f); }
static void nap() { std::this_thread::sleep_for(std::chrono::microseconds(rng.below(400))); }

// what happens to the value after the handler was disabled does not matter
static void disabled_then_met()
{
    std::string w = "a thread in IntWaitHandler::wait_equal(1), the handler is disabled and then set to 1";
    at(w);
    IntWaitHandler h(0);
    AwakeReason r;
    std::thread t([&] { r = h.wait_equal(1); });
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    h.disable();
    h.set_value(1);
    t.join();
    check(r == AwakeReason::disabled, w + ": " + name(r));
}

// waiting threads end when the value is right, when the handler is disabled and when it is destroyed
static void threads()
{
    int n = 1 + rng.below(4);
    switch (rng.below(10))
    {
        case 0: case 1:
        {
            unsigned th = rng.below(2);
            std::string w = cat(n, " threads in wait_and_decrement, threshold ", th, ", ", n, " increments");
            at(w);
            CounterWaitHandler h(th, th);
            auto* ws = waiters(h, n, [](CounterWaitHandler& h) { return h.wait_and_decrement(); });
            nap();
            for (int i = 0; i < n; ++i) { ++h; if (rng.flip(3)) nap(); }
            ws->join();
            check(ws->met == n && h.get_value() == th, w + cat(": ", ws->met, " met, value ", h.get_value()));
            delete ws;
            break;
        }
        case 2:
        {
            unsigned k = rng.below(4);
            std::string w = cat(n, " threads in wait_and_decrement from ", k, ", then disabled");
            at(w);
            CounterWaitHandler h(0, k);
            auto* ws = waiters(h, n, [](CounterWaitHandler& h) { return h.wait_and_decrement(); });
            nap();
            h.blocking_disable();
            ws->join();
            check(ws->met + ws->dis == n && h.get_value() + ws->met == k, w + cat(": ", ws->met, " met, value ", h.get_value()));
            delete ws;
            break;
        }
        case 3:
        {
            std::string w = cat(n, " threads in wait_threshold_reached, one below the threshold, and one increment");
            at(w);
            CounterWaitHandler h(2, 1);
            auto* ws = waiters(h, n, [](CounterWaitHandler& h) { return h.wait_threshold_reached(); });
            nap();
            ++h;
            ws->join();
            check(ws->met == n, w + cat(": ", ws->met, " met"));
            delete ws;
            break;
        }
        case 4:
        {
            std::string w = cat(n, " threads in wait_threshold_reached above the threshold, and one wait_and_decrement");
            at(w);
            CounterWaitHandler h(0, 1);
            auto* ws = waiters(h, n, [](CounterWaitHandler& h) { return h.wait_threshold_reached(); });
            nap();
            h.wait_and_decrement();
            ws->join();
            check(ws->met == n, w + cat(": ", ws->met, " met"));
            delete ws;
            break;
        }
        case 5:
        {
            bool des = rng.flip();
            std::string w = cat(n, " threads in wait_threshold_reached, then the handler is ", des ? "destroyed" : "disabled");
            at(w);
            auto* h = new CounterWaitHandler(0, 3);
            auto* ws = waiters(*h, n, [](CounterWaitHandler& h) { return h.wait_threshold_reached(); });
            std::this_thread::sleep_for(std::chrono::milliseconds(30));     // (a thread that has not started waiting may not use it)
            if (des) { delete h; }
            else { h->disable(); }
            ws->join();
            check(ws->dis == n, w + cat(": ", ws->dis, " disabled"));
            delete ws;
            if (!des) { delete h; }
            break;
        }
        case 6:
        {
            std::string w = cat(n, " threads in IntWaitHandler::wait_greater_than(2), then the value grows to 3");
            at(w);
            IntWaitHandler h(0);
            auto* ws = waiters(h, n, [](IntWaitHandler& h) { return h.wait_greater_than(2); });
            nap();
            if (rng.flip()) { ++h; ++h; ++h; } else { h.set_value(4); --h; }
            ws->join();
            check(ws->met == n, w + cat(": ", ws->met, " met"));
            delete ws;
            break;
        }
        case 7:
        {
            std::string w = cat(n, " threads in IntWaitHandler::wait_lower_equal_than(-1), then -- or disable");
            at(w);
            IntWaitHandler h(0);
            auto* ws = waiters(h, n, [](IntWaitHandler& h) { return h.wait_lower_equal_than(-1); });
            nap();
            bool off = rng.flip();
            if (off) { h.disable(); } else { --h; }
            ws->join();
            check(off ? ws->dis == n : ws->met == n, w);
            delete ws;
            break;
        }
        case 8:
        {
            std::string w = cat(n, " threads in BooleanWaitHandler::wait, then open or stop_and_continue");
            at(w);
            BooleanWaitHandler h(false);
            auto* ws = waiters(h, n, [](BooleanWaitHandler& h) { return h.wait(); });
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
            bool off = rng.flip();
            if (off) { h.stop_and_continue(); check(h.enabled(), "not enabled after stop_and_continue"); h.open(); } else { h.open(); }
            ws->join();
            check(ws->dis + ws->met == n, w);
            delete ws;
            break;
        }
        default:
        {
            std::string w = cat(n, " threads waiting for a text of 3 letters, then the handler is destroyed or the text set");
            at(w);
            auto* h = new WaitHandler<Str>(Str{"a"});
            auto* ws = waiters(*h, n, [](WaitHandler<Str>& h) { return h.wait([](const Str& s) { return s.s.size() == 3; }); });
            bool des = rng.flip();
            if (des) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); delete h; } else { h->set_value(Str{"xyz"}); }
            ws->join();
            check(des ? ws->dis == n : ws->met == n, w);
            delete ws;
            if (!des) { delete h; }
        }
    }
}

int main(int argc, char** argv)
{
    stall_limit = 8;
    start(argc, argv);
    do
    {
        immediate();
        for (int i = 0; i < 3; ++i) { threads(); }
        for (int i = 0; i < 5; ++i) { disabled_then_met(); }
    } while (more());
    finish();
}
