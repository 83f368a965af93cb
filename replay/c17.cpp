#include "vp.hpp"
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#include <cpp_utils/thread_pool/task/TaskId.hpp>
using namespace eprosima::utils;
using namespace vp;

extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

template <class F> static bool refused(const std::string& h, F f)
{
    at(h);
    try { f(); }
    catch (const ValueNotAllowedException&) { return true; }
    catch (const std::exception& e) { fail(h + ": throws " + e.what()); return true; }
    return false;
}

static void wait_for(const std::string& h, std::vector<std::unique_ptr<std::atomic<int>>>& ran, const std::vector<int>& want)
{
    for (int ms = 0; ms < 4000; ++ms)
    {
        bool all = true;
        for (size_t i = 0; i < want.size(); ++i) { all = all && *ran[i] >= want[i]; }
        if (all) { break; }
        ++beat;
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    for (size_t i = 0; i < want.size(); ++i)
    {
        check(*ran[i] == want[i], h + cat(": task ", i, " emitted ", want[i], " times has run ", int(*ran[i]), " times"));
    }
}

// one thread drives the pool through a random history
static void history()
{
    unsigned nth = 1 + rng.below(3);
    std::string h = cat("SlotThreadPool(", nth, "):");
    std::vector<std::unique_ptr<std::atomic<int>>> ran;
    std::vector<int> want;
    std::atomic<int> inside{0};
    std::atomic<bool> on{false};
    std::atomic<bool> late{false};
    std::vector<TaskId> ids;
    {
        SlotThreadPool pool(nth);
        int steps = 3 + rng.below(14);
        for (int k = 0; k < steps; ++k)
        {
            switch (rng.below(7))
            {
                case 0:
                {
                    TaskId id = new_unique_task_id();
                    h += cat(" slot(#", ids.size(), ")");
                    ran.emplace_back(new std::atomic<int>(0));
                    want.push_back(0);
                    std::atomic<int>* c = ran.back().get();
                    Task t([c, &inside, &on, &late]()
                            {
                                ++inside;
                                if (!on) { late = true; }
                                ++*c;
                                --inside;
                            });
                    check(!refused(h, [&] { pool.slot(id, std::move(t)); }), h + ": a new slot is refused");
                    for (TaskId o : ids) { check(o != id, h + ": the same id twice"); }
                    ids.push_back(id);
                    break;
                }
                case 1: case 2: case 3:
                {
                    if (ids.empty()) { break; }
                    size_t i = rng.below(ids.size());
                    h += cat(" emit(#", i, ")");
                    check(!refused(h, [&] { pool.emit(ids[i]); }), h + ": a registered task is refused");
                    ++want[i];
                    break;
                }
                case 4:
                {
                    if (rng.flip(2) || ids.empty())
                    {
                        h += " emit(unknown)";
                        check(refused(h, [&] { pool.emit(4000000000u - rng.below(100)); }), h + ": not refused");
                    }
                    else
                    {
                        size_t i = rng.below(ids.size());
                        h += cat(" slot(#", i, " again)");
                        check(refused(h, [&] { pool.slot(ids[i], Task([]() {})); }), h + ": not refused");
                    }
                    break;
                }
                case 5:
                    h += " enable"; at(h);
                    on = true;
                    pool.enable();
                    if (rng.flip()) { wait_for(h, ran, want); }
                    break;
                default:
                    h += " disable"; at(h);
                    pool.disable();
                    check(inside == 0, h + ": a task is still running");
                    on = false;
                    break;
            }
        }
        if (rng.flip())
        {
            h += " enable"; at(h);
            on = true;
            pool.enable();
            wait_for(h, ran, want);
        }
        h += " destroy"; at(h);
    }
    check(inside == 0, h + ": a task is still running");
    check(!late, h + ": a task ran while the pool was disabled");
    for (size_t i = 0; i < want.size(); ++i)
    {
        check(*ran[i] <= want[i], h + cat(": task ", i, " emitted ", want[i], " times has run ", int(*ran[i]), " times"));
    }
}

// several threads register and emit
static void several()
{
    unsigned nth = 1 + rng.below(4), emitters = 2 + rng.below(3), per = 20 + rng.below(40);
    std::string h = cat("SlotThreadPool(", nth, "): ", emitters, " threads register and emit ", per, " tasks each, twice");
    at(h);
    SlotThreadPool pool(nth);
    pool.enable();
    std::vector<std::unique_ptr<std::atomic<int>>> ran;
    for (unsigned i = 0; i < emitters * per; ++i) { ran.emplace_back(new std::atomic<int>(0)); }
    std::vector<std::vector<TaskId>> ids(emitters);
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < emitters; ++t)
    {
        ts.emplace_back([&, t]()
                {
                    for (unsigned i = 0; i < per; ++i)
                    {
                        TaskId id = new_unique_task_id();
                        ids[t].push_back(id);
                        std::atomic<int>* c = ran[t * per + i].get();
                        pool.slot(id, Task([c]() { ++*c; }));
                        pool.emit(id);
                        pool.emit(id);
                    }
                });
    }
    for (auto& t : ts) { t.join(); }
    std::set<TaskId> all;
    for (auto& v : ids) { all.insert(v.begin(), v.end()); }
    check(all.size() == emitters * per, h + ": the same id twice");
    pool.wait_all_consumed();
    wait_for(h, ran, std::vector<int>(emitters * per, 2));
}

int main(int argc, char** argv)
{
    stall_limit = 8;
    start(argc, argv);
    do
    {
        for (int k = 0; k < 5; ++k) { history(); }
        several();
    } while (more());
    finish();
}
