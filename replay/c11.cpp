#include "vp.hpp"
#include <atomic>
#include <functional>
#include <thread>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
using namespace vp;

extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

struct Data { int v; std::atomic<bool> alive{true}; Data(int v) : v(v) {} };
static std::map<Data*, int> deleted;
static std::mutex dm;
static void del(Data* d) { std::lock_guard<std::mutex> g(dm); d->alive = false; ++deleted[d]; }

// random single-threaded histories of two owners, three lessees, two guards
static void history()
{
    deleted.clear();
    std::vector<Data*> all;
    struct Own { OwnerPtr<Data> p; Data* d = nullptr; };
    struct Les { LesseePtr<Data> p; Data* d = nullptr; };
    struct Gua { std::unique_ptr<GuardedPtr<Data>> p; Data* d = nullptr; };
    Own o[2];
    Les l[3];
    Gua g[2];
    std::string w;
    auto live = [&](Data* d) { return d && !deleted.count(d); };
    auto fresh = [&] { all.push_back(new Data(all.size())); return all.back(); };
    auto guarded = [&](Data* d) { return d && ((g[0].d == d && g[0].p) || (g[1].d == d && g[1].p)); };
    for (int s = 0; s < 40; ++s)
    {
        int i = rng.below(2), j = rng.below(3), k = rng.below(2);
        auto free_to_drop = [&](int i) { return !guarded(o[i].d); };
        switch (rng.below(13))
        {
            case 0: if (free_to_drop(i)) { w = cat("owner", i, ".reset(new)"); at(w); Data* old = o[i].d; Data* d = fresh(); o[i].p.reset(d, del); o[i].d = d;
                        check(!old || deleted[old] == 1, w + ": the old data is not destroyed once"); } break;
            case 1: if (free_to_drop(i)) { w = cat("owner", i, ".reset()"); at(w); Data* old = o[i].d; o[i].p.reset(); o[i].d = nullptr;
                        check(!old || deleted[old] == 1, w + ": the data is not destroyed once"); } break;
            case 2: if (free_to_drop(i)) { w = cat("owner", i, " = move(other)"); at(w); Data* old = o[i].d; o[i].p = std::move(o[1 - i].p); o[i].d = o[1 - i].d; o[1 - i].d = nullptr;
                        check(!old || deleted[old] == 1, w + ": the old data is not destroyed once"); } break;
            case 3: if (free_to_drop(i)) { w = cat("owner", i, " destroyed"); at(w); Data* old = o[i].d; { OwnerPtr<Data> x(std::move(o[i].p)); } o[i].d = nullptr;
                        check(!old || deleted[old] == 1, w + ": the data is not destroyed once"); } break;
            case 4: case 5: w = cat("lessee", j, " = owner", i, ".lease()"); at(w); l[j].p = o[i].p.lease(); l[j].d = o[i].d; break;
            case 6: w = cat("lessee", j, " = lessee", k); at(w); l[j].p = l[k].p; l[j].d = l[k].d; break;
            case 7: case 8:
                if (!g[k].p) { w = cat("guard", k, " = lessee", j, ".lock()"); at(w); g[k].p.reset(new GuardedPtr<Data>(l[j].p.lock())); g[k].d = l[j].d;
                    check(bool(*g[k].p) == live(l[j].d), w + ": validity"); if (live(l[j].d)) check(g[k].p->get() == l[j].d, w + ": other data"); }
                break;
            case 9: w = cat("guard", k, " destroyed"); at(w); g[k].p.reset(); g[k].d = nullptr; break;
            case 10: if (g[k].p && g[1 - k].p) { w = cat("guard", k, " = move(other guard)"); at(w); *g[k].p = std::move(*g[1 - k].p); g[k].d = g[1 - k].d; g[1 - k].p.reset(); g[1 - k].d = nullptr; } break;
            case 11:
                w = cat("*lessee", j); at(w);
                try { int v = l[j].p->v; int u = (*l[j].p).v; check(live(l[j].d) && v == l[j].d->v && u == v, w + ": of data not available"); }
                catch (const ValueAccessException&) { check(!live(l[j].d), w + " throws"); }
                break;
            default: w = cat("owner", i, ".reset(nullptr)"); at(w);
                if (free_to_drop(i)) { Data* old = o[i].d; try { o[i].p.reset(nullptr, del); fail(w + " is accepted"); } catch (const InitializationException&) {}
                    o[i].d = nullptr; check(!old || deleted[old] == 1, w + ": the old data is not destroyed once"); }
        }
        for (int a = 0; a < 3; ++a) { check(bool(l[a].p) == live(l[a].d), w + cat(": validity of lessee", a)); }
        for (int a = 0; a < 2; ++a) { check(bool(o[a].p) == (o[a].d != nullptr) && (o[a].p == nullptr) == (o[a].d == nullptr), w + cat(": validity of owner", a));
                                      if (o[a].d) check(o[a].p.get() == o[a].d, w + cat(": data of owner", a)); }
        for (auto& x : deleted) { check(x.second == 1, w + ": data destroyed twice"); }
    }
    g[0].p.reset(); g[1].p.reset();
    at("end of history: destruction of owners");
    for (int i = 0; i < 2; ++i) { OwnerPtr<Data> x(std::move(o[i].p)); }
    for (Data* d : all) { check(deleted[d] == 1, "data not destroyed exactly once with its owner"); delete d; }
}

// a guard keeps the data alive against a concurrent reset; validity may be asked at any time
static void threads()
{
    at("threads lock and ask for validity while the owner resets");
    std::atomic<int> bad{0};
    std::vector<std::unique_ptr<Data>> all;
    OwnerPtr<Data> owner;
    std::atomic<bool> stop{false};
    for (int r = 0; r < 15; ++r)
    {
        all.emplace_back(new Data(r));
        owner.reset(all.back().get(), del);
        std::vector<std::thread> ts;
        for (int t = 0; t < 3; ++t)
        {
            LesseePtr<Data> l = owner.lease();
            ts.emplace_back([&bad, l]
                {
                    for (int i = 0; i < 40; ++i)
                    {
                        bool before = l;
                        {
                            auto g = l.lock();
                            if (g) { if (!g->alive) ++bad; std::this_thread::yield(); if (!g->alive) ++bad; if (!before) ++bad; }
                        }
                        try { auto g = l.lock_with_exception(); if (!g->alive) ++bad; } catch (const ValueAccessException&) {}
                    }
                });
        }
        if (rng.flip()) std::this_thread::yield();
        if (rng.flip()) owner.reset(); else owner = OwnerPtr<Data>();
        check(!all.back()->alive, "after the owner is reset the data is still there");
        for (auto& t : ts) t.join();
    }
    check(!bad, "data destroyed while a guard was held");
}

int main()
{
    start();
    sample("random histories of owners, lessees and guards; three lessee threads against a resetting owner under ThreadSanitizer");
    do { for (int i = 0; i < 40; ++i) history(); threads(); } while (more());
    return finish();
}
