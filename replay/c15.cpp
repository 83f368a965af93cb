#include "vp.hpp"
#include <atomic>
#include <deque>
#include <thread>
#include <functional>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
using namespace vp;

extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

// an element whose moved-from state is visible
struct El
{
    int v = -1;
    El(int x = -1) : v(x) {}
    El(const El& o) : v(o.v) {}
    El(El&& o) : v(o.v) { o.v = -7; }
    El& operator=(const El& o) { v = o.v; return *this; }
    El& operator=(El&& o) { v = o.v; o.v = -7; return *this; }
};

// one thread, against two std::deque
static void single()
{
    DBQueue<El> q;
    std::deque<int> fg, bg;
    std::string h = "DBQueue:";
    int n = 1 + rng.below(40), next = 0;
    for (int k = 0; k < n; ++k)
    {
        switch (rng.below(fg.empty() ? 5 : 8))
        {
            case 0: case 1:
            {
                h += cat(" push(", next, ")");
                at(h);
                if (rng.flip()) { El x(next); q.push(x); check(x.v == next, h + ": the pushed element changed"); }
                else { q.push(El(next)); }
                bg.push_back(next++);
                break;
            }
            case 2: case 3: h += " swap"; at(h); q.swap(); fg = bg; bg.clear(); break;
            case 4: if (rng.flip(4)) { h += " clear"; at(h); q.clear(); fg.clear(); bg.clear(); } break;
            case 5: h += " pop"; at(h); q.pop(); fg.pop_front(); break;
            case 6: { h += " front_and_pop"; at(h); El x = q.front_and_pop(); check(x.v == fg.front(), h + cat(" gives ", x.v)); fg.pop_front(); break; }
            default: h += " front()=9000"; at(h); q.front() = El(9000 + next); fg.front() = 9000 + next; ++next; break;
        }
        const DBQueue<El>& c = q;
        check(c.size() == fg.size(), h + cat(": size() ", c.size(), ", expected ", fg.size()));
        check(c.empty() == fg.empty(), h + ": empty()");
        check(c.both_empty() == (fg.empty() && bg.empty()), h + ": both_empty()");
        if (!fg.empty()) { check(c.front().v == fg.front() && q.front().v == fg.front(), h + cat(": front() ", q.front().v, ", expected ", fg.front())); }
    }
}

// one consumer and several producers over the queue alone
static void mpsc()
{
    int np = 1 + rng.below(3), each = 1 + rng.below(60);
    std::string w = cat("DBQueue: ", np, " producers of ", each, " elements");
    at(w);
    DBQueue<El> q;
    std::vector<std::thread> t;
    for (int p = 0; p < np; ++p) { t.emplace_back([&q, p, each] { for (int i = 0; i < each; ++i) { if (i % 2) { q.push(El(p * 1000 + i)); } else { El x(p * 1000 + i); q.push(x); } } }); }
    std::vector<int> last(np, -1);
    int got = 0;
    std::string bad;
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (got < np * each && bad.empty() && std::chrono::steady_clock::now() < end)
    {
        if (q.empty()) { q.swap(); }
        while (!q.empty())
        {
            int v = q.front_and_pop().v, p = v / 1000;
            if (v < 0 || p >= np || v % 1000 != last[p] + 1) { bad = cat(w, ": got ", v); break; }
            last[p] = v % 1000;
            ++got;
        }
    }
    for (auto& x : t) { x.join(); }
    if (bad.empty() && got < np * each) { bad = cat(w, ": only ", got, " arrived"); }
    check(bad.empty(), bad);
    check(q.both_empty(), w + ": not empty at the end");
}

// several producers and consumers over the handler
static void handler()
{
    int np = 1 + rng.below(3), nc = 1 + rng.below(3), each = 1 + rng.below(50);
    std::string w = cat("DBQueueWaitHandler: ", np, " producers of ", each, " elements, ", nc, " consumers");
    at(w);
    DBQueueWaitHandler<El> q;
    std::vector<std::thread> t;
    std::vector<std::atomic<int>> seen(np * 1000);
    for (auto& s : seen) { s = 0; }
    std::atomic<int> dis{0};
    std::vector<std::string> bad(nc);
    for (int c = 0; c < nc; ++c)
    {
        t.emplace_back([&, c] {
            std::vector<int> last(np, -1);
            for (;;)
            {
                try
                {
                    int v = q.consume().v;
                    if (v < 0 || v >= np * 1000) { bad[c] = cat("got ", v); return; }
                    if (v % 1000 <= last[v / 1000]) { bad[c] = cat(v, " after ", v / 1000 * 1000 + last[v / 1000]); }
                    last[v / 1000] = v % 1000;
                    ++seen[v];
                }
                catch (const DisabledException&) { ++dis; return; }
                catch (const std::exception& e) { bad[c] = cat("consume threw ", e.what()); return; }
            }
        });
    }
    std::vector<std::thread> pr;
    for (int p = 0; p < np; ++p) { pr.emplace_back([&q, p, each] { for (int i = 0; i < each; ++i) { if (i % 2) { q.produce(El(p * 1000 + i)); } else { El x(p * 1000 + i); q.produce(x); } } }); }
    for (auto& x : pr) { x.join(); }
    AwakeReason r = q.wait_all_consumed(15000);
    bool ready = q.elements_ready_to_consume() == 0;
    q.blocking_disable();
    for (auto& x : t) { x.join(); }
    for (auto& b : bad) { check(b.empty(), w + ": " + b); }
    check(r == AwakeReason::condition_met, w + ": wait_all_consumed did not finish");
    check(ready, w + ": elements ready after wait_all_consumed");
    check(dis == nc, w + ": a consumer did not end by DisabledException");
    for (int p = 0; p < np; ++p) { for (int i = 0; i < each; ++i) { check(seen[p * 1000 + i] == 1, w + cat(": element ", p * 1000 + i, " consumed ", seen[p * 1000 + i].load(), " times")); } }
}

static void alone()
{
    bool en = !rng.flip(4);
    int n = rng.below(4);
    std::string w = cat("DBQueueWaitHandler(0, ", en, ") with ", n, " elements");
    at(w);
    DBQueueWaitHandler<El> q(0, en);
    for (int i = 0; i < n; ++i) { q.produce(El(i)); }
    check(int(q.elements_ready_to_consume()) == n, w + ": elements_ready_to_consume");
    if (!en)
    {
        bool d = false;
        try { q.consume(2); } catch (const DisabledException&) { d = true; } catch (const TimeoutException&) {}
        check(d, w + ": consume while disabled gives no DisabledException");
        check(q.wait_all_consumed(2) == AwakeReason::disabled, w + ": wait_all_consumed while disabled");
        q.enable();
    }
    check(q.wait_all_consumed(2) == (n ? AwakeReason::timeout : AwakeReason::condition_met), w + ": wait_all_consumed");
    for (int i = 0; i < n; ++i)
    {
        int v = q.consume(i % 2 ? 0 : 1000).v;
        check(v == i, w + cat(": consume gives ", v, " as element ", i));
        check(int(q.elements_ready_to_consume()) == n - i - 1, w + ": elements_ready_to_consume after consume");
    }
    bool t = false;
    try { q.consume(2); } catch (const TimeoutException&) { t = true; } catch (const DisabledException&) {}
    check(t, w + ": consume of an empty queue gives no TimeoutException");
    // the notification of an element that is produced while a thread waits
    std::atomic<int> got{-1};
    at(w + ", then a waiting consumer");
    std::thread c([&] { try { got = q.consume().v; } catch (const std::exception&) { got = -2; } });
    std::this_thread::sleep_for(std::chrono::microseconds(rng.below(600)));
    bool off = rng.flip(3);
    if (off) { q.disable(); } else { q.produce(El(77)); }
    c.join();
    check(got == (off ? -2 : 77), w + cat(", then a waiting consumer: it got ", got.load()));
}

int main(int argc, char** argv)
{
    stall_limit = 40;
    start(argc, argv);
    do
    {
        switch (rng.below(4))
        {
            case 0: for (int i = 0; i < 50; ++i) { single(); } break;
            case 1: mpsc(); break;
            case 2: handler(); break;
            default: alone(); break;
        }
    } while (more());
    finish();
}
