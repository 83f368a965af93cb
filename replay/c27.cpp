// C27: signals, against a model that counts which handler must have been told of which signal.
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using namespace eprosima::utils::event;
using namespace std::chrono;

// A signal that arrives just before a thread begins to wait (after it has looked at what it waits for).
static std::atomic<int> before_wait{0};
static void inject()
{
    int s = before_wait.exchange(0);
    if (s) { raise(s); }
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    inject();
    return real(c, m);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    inject();
    return real(c, m, t);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    inject();
    return real(c, m, k, t);
}

template <class F> static bool eventually(F f, int ms = 5000)
{
    auto end = steady_clock::now() + milliseconds(ms);
    while (!f())
    {
        if (steady_clock::now() > end) { return f(); }
        std::this_thread::sleep_for(microseconds(20));
    }
    return true;
}

static const char* name(int s) { return s == SIGUSR1 ? "usr1" : s == SIGUSR2 ? "usr2" : s == SIGTERM ? "term" : "int"; }

// what all the handlers of one signal must have seen
template <Signal S>
struct World
{
    static constexpr int num = int(S);
    struct H
    {
        std::unique_ptr<SignalEventHandler<S>> h;
        std::atomic<int> told{0};          // times the current callback has been called
        std::atomic<int> old{0};           // times a replaced or unset callback has been called
        std::atomic<int> generation{0};
        int want = 0;                      // signals raised since the callback was set
        unsigned count = 0;                // event_count
        bool set = false, counts = true;
    };
    SignalManager<S>& m = SignalManager<S>::get_instance();
    std::atomic<int> seen{0};
    int raised = 0;
    UniqueCallbackId first, last = 0;
    std::set<UniqueCallbackId> ids;
    std::vector<std::unique_ptr<H>> hs;
    std::vector<std::pair<UniqueCallbackId, std::unique_ptr<std::atomic<int>>>> direct;
    std::vector<int> direct_want;

    World() { first = m.register_callback([this]() { ++seen; }); ids.insert(first); }

    void fresh(UniqueCallbackId id) { check(ids.insert(id).second, cat("the id ", id, " is given to two callbacks of ", name(num))); }

    // every signal raised has been handled, and no callback is running
    void drain()
    {
        check(eventually([this]() { return seen.load() >= raised; }), cat(raised, " signals ", name(num), " raised, only ", seen.load(), " handled"));
        UniqueCallbackId id = m.register_callback([]() {});
        fresh(id);
        m.unregister_callback(id);
        check(seen.load() <= raised, cat(raised, " signals ", name(num), " raised, but ", seen.load(), " handled"));
    }

    void audit(const char* after)
    {
        drain();
        for (size_t i = 0; i < hs.size(); ++i)
        {
            H& h = *hs[i];
            check(!h.counts || h.told == h.want, cat("after ", after, ": handler ", i, " of ", name(num), " was told of ", h.told.load(), " signals, not ", h.want));
            check(h.old == 0, cat("after ", after, ": a callback of ", name(num), " that was replaced or unset is called"));
            check(h.h->event_count() == h.count, cat("after ", after, ": handler ", i, " of ", name(num), " counts ", h.h->event_count(), " events, not ", h.count));
        }
        for (size_t i = 0; i < direct.size(); ++i)
        {
            check(*direct[i].second == direct_want[i], cat("after ", after, ": callback ", i, " of ", name(num), " was called ", direct[i].second->load(),
                " times, not ", direct_want[i]));
        }
    }

    std::function<void(Signal)> callback(H* h)
    {
        int g = ++h->generation;
        h->told = 0;
        h->want = 0;
        h->counts = true;
        return [h, g](Signal s)
               {
                   if (s != S) { fail(cat("a handler of ", name(num), " is told of the signal ", int(s))); }
                   ++(g == h->generation && h->set ? h->told : h->old);
               };
    }

    void emit(int n)
    {
        for (int i = 0; i < n; ++i) { raise(num); }
        raised += n;
        for (auto& h : hs) { if (h->set) { h->want += n; h->count += n; } }
        for (auto& w : direct_want) { w += n; }
    }

    void step()
    {
        switch (rng.below(9))
        {
            case 0:
            {
                at(cat("new handler of ", name(num)));
                hs.emplace_back(new H);
                H* h = hs.back().get();
                h->set = true;
                if (rng.flip(4)) { h->counts = false; h->h.reset(new SignalEventHandler<S>()); }
                else { h->h.reset(new SignalEventHandler<S>(callback(h))); }
                break;
            }
            case 1:
            {
                if (hs.empty()) { return; }
                at(cat("set callback of ", name(num)));
                audit("signals");
                H* h = hs[rng.below(hs.size())].get();
                auto f = callback(h);
                h->set = true;
                h->h->set_callback(f);
                break;
            }
            case 2:
            {
                if (hs.empty()) { return; }
                at(cat("unset callback of ", name(num)));
                audit("signals");
                H* h = hs[rng.below(hs.size())].get();
                h->h->unset_callback();
                h->set = false;
                break;
            }
            case 3:
            {
                if (hs.empty()) { return; }
                at(cat("destroy handler of ", name(num)));
                audit("signals");
                hs.erase(hs.begin() + long(rng.below(hs.size())));
                break;
            }
            case 4:
            {
                at(cat("register callback of ", name(num)));
                std::unique_ptr<std::atomic<int>> n(new std::atomic<int>(0));
                auto* p = n.get();
                UniqueCallbackId id = m.register_callback([p]() { ++*p; });
                fresh(id);
                direct.emplace_back(id, std::move(n));
                direct_want.push_back(0);
                break;
            }
            case 5:
            {
                if (direct.empty()) { return; }
                at(cat("unregister callback of ", name(num)));
                audit("signals");
                size_t i = rng.below(direct.size());
                m.unregister_callback(direct[i].first);
                last = direct[i].first;
                direct.erase(direct.begin() + long(i));
                direct_want.erase(direct_want.begin() + long(i));
                break;
            }
            case 6:
            {
                UniqueCallbackId id = last && rng.flip() ? last : UniqueCallbackId(rng.flip() ? 0 : 0xfffffff0u + rng.below(16));
                at(cat("unregister unknown ", id, " of ", name(num)));
                bool thrown = false;
                try { m.unregister_callback(id); }
                catch (const InconsistencyException&) { thrown = true; }
                check(thrown, cat("unregister_callback(", id, ") of ", name(num), ", which is not registered, does not throw"));
                break;
            }
            case 7:
            {
                at(cat("signal ", name(num), " before the wait"));
                drain();
                // the next thread that waits gets the signal after it has looked and before it waits
                emit_before_wait();
                audit("a signal just before the wait");
                break;
            }
            default:
            {
                int n = int(rng.below(6));
                at(cat(n, " signals ", name(num)));
                emit(n);
                audit("signals");
                if (!hs.empty() && n)
                {
                    H& h = *hs[rng.below(hs.size())];
                    bool r = h.h->wait_for_event(h.count);
                    check(r || h.count > h.h->event_count(), "wait_for_event of a number that has come is false");
                }
            }
        }
    }

    void emit_before_wait()
    {
        if (!rng.flip(6)) { return; }
        // one signal awakes the thread that handles them; the other arrives when it is about to wait again
        int was = seen;
        before_wait = num;
        emit(1);
        bool injected = eventually([]() { return before_wait == 0; }, 300);
        if (!injected && before_wait.exchange(0)) { return; }        // nothing waits on a condition here
        raised += 1;
        for (auto& h : hs) { if (h->set) { h->want += 1; h->count += 1; } }
        for (auto& w : direct_want) { w += 1; }
        check(eventually([this, was]() { return seen >= was + 2; }),
            cat("a signal ", name(num), " that arrives when the thread of the signals is about to wait is not handled until another one comes"));
    }

    void together()
    {
        audit("the start");
        at(cat("handlers of ", name(num), " set and unset while signals arrive"));
        const int n = 200;
        std::atomic<bool> stop{false};
        std::atomic<int> late{0};
        uint64_t seed = rng.next();
        std::vector<std::thread> ts;
        std::mutex mine;
        std::vector<UniqueCallbackId> got;
        for (int k = 0; k < 3; ++k)
        {
            ts.emplace_back([&, k]()
                    {
                        Rng r{seed + uint64_t(k)};
                        std::atomic<bool> on{false};
                        SignalEventHandler<S> h;
                        while (!stop)
                        {
                            on = true;
                            h.set_callback([&](Signal) { if (!on) { ++late; } });
                            if (r.flip(3)) { std::this_thread::yield(); }
                            h.unset_callback();
                            on = false;
                            UniqueCallbackId id = m.register_callback([&]() { if (!on) { ++late; } });
                            on = true;
                            { std::lock_guard<std::mutex> l(mine); got.push_back(id); }
                            m.unregister_callback(id);
                            on = false;
                        }
                    });
        }
        for (int k = 0; k < 2; ++k)
        {
            ts.emplace_back([&]() { for (int i = 0; i < n; ++i) { raise(num); if (i % 16 == 0) { std::this_thread::yield(); } } });
        }
        raised += 2 * n;
        for (auto& h : hs) { if (h->set) { h->want += 2 * n; h->count += 2 * n; } }
        for (auto& w : direct_want) { w += 2 * n; }
        ts[3].join();
        ts[4].join();
        stop = true;
        for (int k = 0; k < 3; ++k) { ts[size_t(k)].join(); }
        for (auto i : got) { fresh(i); }
        audit("threads that set and unset handlers");
    }
};

int main(int argc, char** argv)
{
    stall_limit = 30;
    start(argc, argv);
    static World<Signal::sigusr1> a;
    static World<Signal::sigusr2> b;
    static World<Signal::sigterm> c;
    do
    {
        int n = int(rng.below(30));
        for (int i = 0; i < n; ++i)
        {
            switch (rng.below(3)) { case 0: a.step(); break; case 1: b.step(); break; default: c.step(); }
            if (rng.flip(5)) { a.audit("others"); b.audit("others"); c.audit("others"); }
        }
        if (rng.flip(6)) { a.together(); b.audit("signals of another"); }
        if (rng.flip(6)) { c.together(); }
        while (a.hs.size() > 6) { a.audit("signals"); a.hs.pop_back(); }
        while (c.hs.size() > 6) { c.audit("signals"); c.hs.pop_back(); }
        while (b.hs.size() > 6) { b.audit("signals"); b.hs.pop_back(); }
        if (rng.flip(50)) { sample(cat(a.raised, " signals usr1, ", a.hs.size(), " handlers")); }
    }
    while (more());
    a.audit("all"); b.audit("all"); c.audit("all");
    a.hs.clear(); b.hs.clear(); c.hs.clear();
    return finish();
}
