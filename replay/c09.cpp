#include "vp.hpp"
#include <atomic>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
#include <thread>
using namespace eprosima::utils;
using namespace vp;
typedef SafeDatabase<int, std::string> DB;

// sequential: against std::map
static void sequence()
{
    DB db;
    std::map<int, std::string> m;
    std::string w;
    for (int i = 0; i < 40; ++i)
    {
        int k = rng.below(6);
        std::string v = std::to_string(rng.below(9));
        bool has = m.count(k) != 0, r = false, want = false;
        switch (rng.below(9))
        {
            case 0: w = cat("add(", k, ")"); at(w); r = db.add(k, v); want = !has; if (!has) m[k] = v; break;
            case 1: { w = cat("add&&(", k, ")"); at(w); int kk = k; std::string vv = v; r = db.add(std::move(kk), std::move(vv)); want = !has; if (!has) m[k] = v; break; }
            case 2: { w = cat("modify(", k, ")"); at(w); std::string vv = v; r = db.modify(k, std::move(vv)); want = has; if (has) m[k] = v; break; }
            case 3: w = cat("add_or_modify(", k, ")"); at(w); r = db.add_or_modify(k, v); want = !has; m[k] = v; break;
            case 4: w = cat("erase(", k, ")"); at(w); r = db.erase(k); want = has; m.erase(k); break;
            case 5: w = cat("is(", k, ")"); at(w); r = db.is(k); want = has; break;
            case 6: w = cat("find(", k, ")"); at(w); { auto it = db.find(k); auto e = db.end(); r = it != e; want = has;
                        if (r && has) { check(it->first == k && it->second == m[k], w + " designates another element"); } } break;
            case 7: w = cat("at(", k, ")"); at(w); want = has;
                    try { std::string x = db.at(k); r = true; if (has) check(x == m[k], w + " gives another value"); }
                    catch (const std::out_of_range&) { r = false; } break;
            default: w = "begin()/copy"; at(w);
                { auto it = db.begin(); auto e = db.end(); auto copy = it; r = want = true;
                  check((it == e) == m.empty(), "begin() of a database of " + std::to_string(m.size()));
                  check(copy == it, "copy of an iterator"); }
        }
        check(r == want, w + (r ? " gives true" : " gives false"));
        check(db.size() == m.size(), "size after " + w);
        size_t n = 0;
        { auto e = db.end(); for (auto it = db.begin(); it != e; ++it) { ++n; auto f = m.find(it->first);
            if (f == m.end() || f->second != it->second) { fail("content after " + w); break; } } }
        check(n == m.size(), "elements after " + w);
    }
}

// threads: a data race is reported by the thread sanitizer, and counts must add up
static void threads()
{
    DB db;
    std::atomic<int> added{0}, erased{0}, bad{0};
    std::vector<std::thread> ts;
    at("concurrent calls of add, modify, erase, lookups and iterators on the same keys");
    for (int t = 0; t < 4; ++t)
    {
        ts.emplace_back([&, t]
            {
                Rng g{uint64_t(t) * 77 + rng.x};
                for (int i = 0; i < 60; ++i)
                {
                    int k = g.below(3);
                    switch (g.below(10))
                    {
                        case 0: case 1: if (db.add(k, "x")) ++added; break;
                        case 2: if (db.erase(k)) ++erased; break;
                        case 3: { std::string v = "y"; db.modify(k, std::move(v)); break; }
                        case 4: if (db.add_or_modify(k, "z")) ++added; break;
                        case 5: { volatile bool b = db.is(k); volatile unsigned n = db.size(); (void)b; (void)n; break; }
                        case 9: { volatile unsigned n = db.size(); (void)n; break; }
                        case 6: { auto it = db.find(k); auto e = db.end(); if (it != e && it->first != k) ++bad; break; }
                        case 7: { auto it = db.begin(); auto c = it; auto e = db.end(); if (c != e) { volatile int f = c->first; (void)f; } break; }
                        default: try { db.at(k); } catch (const std::out_of_range&) {}
                    }
                }
            });
    }
    for (auto& t : ts) t.join();
    check(int(db.size()) == added - erased, cat("after ", added.load(), " additions and ", erased.load(), " removals the size is ", db.size()));
    check(!bad, "find designates another key");
}

// several threads write the same absent key: one adds it, and the value is that of another one, unless it is alone
static void same_key()
{
    at("three threads add_or_modify the same absent key");
    DB db;
    for (int k = 0; k < 8; ++k) { db.add(k, "x"); }
    std::atomic<int> ready{0};
    bool added[3];
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t)
    {
        ts.emplace_back([&, t] { std::string v = std::to_string(t); ++ready; while (ready < 3) {} added[t] = db.add_or_modify(100, v); });
    }
    for (auto& t : ts) t.join();
    std::string v = db.at(100);
    check(added[0] + added[1] + added[2] == 1, cat("three threads add_or_modify an absent key: ", added[0] + added[1] + added[2], " added it"));
    check(!added[v[0] - '0'], "three threads add_or_modify an absent key: the value is that of the one that added it, the later ones are lost");
}

// no update gets in while an iterator is there
static void held()
{
    DB db;
    db.add(1, "a"); db.add(2, "b");
    for (int mode = 0; mode < 4; ++mode)
    {
        at(cat("erase while an iterator is alive, mode ", mode));
        std::atomic<bool> done{false};
        std::thread th;
        {
            auto a = mode == 0 ? db.begin() : mode == 1 ? db.find(1) : db.end();
            if (mode == 3) { auto c = a; (void)c; }
            th = std::thread([&] { db.modify(2, "c"); done = true; });
            usleep(3000);
            check(!done, cat("the database changed while an iterator was alive, mode ", mode));
        }
        th.join();
        check(done, "modify never ended");
    }
}

int main()
{
    start();
    sample("random sequences of calls against std::map; four threads on three keys under ThreadSanitizer; updates while iterators live");
    held();
    do { for (int i = 0; i < 30; ++i) sequence(); for (int i = 0; i < 10; ++i) { threads(); for (int j = 0; j < 10; ++j) same_key(); } } while (more());
    return finish();
}
