// C19: random managers against std::mt19937; the thread-safe one under the thread sanitizer.
#include <atomic>
#include <mutex>
#include <random>
#include <thread>
#include <algorithm>
#include "vp.hpp"
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace vp;
using namespace eprosima::utils;
extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

static unsigned some_seed()
{
    static const unsigned s[] = {0, 1, 2, 5489, 0x7fffffff, 0x80000000u, 0xffffffffu};
    return rng.flip() ? s[rng.below(7)] : unsigned(rng.next());
}

template <class M> static void sequence(const char* name)
{
    bool given = rng.flip(4) == false;
    unsigned s = given ? some_seed() : 1;
    M* m = given ? new M(s) : new M();
    std::mt19937 ref(s);
    std::string log = cat(name, given ? cat("(", s, ")") : "()");
    unsigned n = 1 + rng.below(40);
    for (unsigned k = 0; k < n; ++k)
    {
        unsigned got, want;
        unsigned x = some_seed();
        switch (rng.below(8))
        {
            case 0: log += " pure_rand"; m->pure_rand(); continue;
            case 1: log += " rand<true>"; m->template rand<true>(); continue;
            case 2: log += cat(" seed(", x, ")"); m->seed(x); ref.seed(x); continue;
            case 3: log += cat(" seeded_rand(", x, ")"); got = m->seeded_rand(x); want = std::mt19937(x)(); break;
            case 4: log += cat(" rand(", x, ")"); got = m->rand(x); want = std::mt19937(x)(); break;
            case 5: log += " rand"; got = m->rand(); want = ref(); break;
            case 6: log += " rand<false>"; got = m->template rand<false>(); want = ref(); break;
            default: log += " sequence_rand"; got = m->sequence_rand(); want = ref(); break;
        }
        at(log);
        check(got == want, log + cat(": ", got, " instead of ", want));
        if (got != want) { break; }
    }
    delete m;
    sample(log);
}

static void race()
{
    unsigned s = some_seed(), x = some_seed(), y = some_seed();
    TSafeRandomManager m(s);
    const int n = 4, each = 30;
    std::string log = cat("TSafeRandomManager(", s, ") in ", n, " threads: sequence_rand, seeded_rand(", x, "), seeded_rand(", y, "), pure_rand");
    at(log);
    std::vector<std::vector<unsigned>> got(n);
    std::atomic<int> ready(0), wrong(0);
    std::vector<std::thread> ts;
    unsigned wx = std::mt19937(x)(), wy = std::mt19937(y)();
    for (int k = 0; k < n; ++k)
    {
        ts.emplace_back([&, k]
                {
                    ++ready;
                    while (ready < n) {}
                    for (int i = 0; i < each; ++i)
                    {
                        if (k < 2) { got[k].push_back(m.sequence_rand()); }
                        if (k == 1 || k == 2) { wrong += m.seeded_rand(x) != wx; }
                        if (k == 0 || k == 3) { wrong += m.rand(y) != wy; }
                        if (k == 3 && i % 10 == 0) { m.pure_rand(); }
                    }
                });
    }
    for (auto& t : ts) { t.join(); }
    std::vector<unsigned> all(got[0]), want;
    all.insert(all.end(), got[1].begin(), got[1].end());
    std::mt19937 ref(s);
    for (int i = 0; i < 2 * each; ++i) { want.push_back(ref()); }
    std::sort(all.begin(), all.end());
    std::sort(want.begin(), want.end());
    check(wrong == 0, log + cat(": ", int(wrong), " numbers are not those of the seed"));
    check(all == want, log + ": the numbers taken together are not the sequence");
    // seeding at the same time: a race only the sanitizer sees
    std::thread a([&] { for (int i = 0; i < 20; ++i) { m.seed(7); } }), b([&] { for (int i = 0; i < 20; ++i) { m.rand(); } });
    a.join();
    b.join();
    m.seed(s);
    check(m.rand() == std::mt19937(s)(), log + ": seed does not restart the sequence");
}

int main(int argc, char** argv)
{
    start(argc, argv);
    do
    {
        for (int i = 0; i < 5; ++i) { sequence<RandomManager>("RandomManager"); sequence<TSafeRandomManager>("TSafeRandomManager"); }
        race();
    } while (more());
    finish();
}
