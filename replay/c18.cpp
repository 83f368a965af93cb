// C18: singletons: sequences of calls, and races of the thread-safe one (thread sanitizer).
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include "vp.hpp"
#include <cpp_utils/types/Singleton.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace vp;
using namespace eprosima::utils;
extern "C" const char* __tsan_default_options() { return "detect_deadlocks=0"; }

static std::atomic<int> made(0), gone(0);
struct Obj
{
    int a, b;
    Obj() : a(-1), b(-1) { work(); }
    Obj(int a, int b) : a(a), b(b) { work(); }
    ~Obj() { ++gone; }
    void work() { ++made; if (slow) { for (volatile int i = 0; i < 2000; ++i) {} std::this_thread::yield(); } }
    static bool slow;
};
bool Obj::slow = false;

struct Ops      // the operations of one singleton
{
    Obj* (*get)(bool);
    std::shared_ptr<Obj> (*shared)(bool);
    bool (*init0)();
    bool (*init2)(int, int);
};
template <class S> static Ops plain_ops()
{
    return {[](bool) { return S::get_instance(); }, [](bool) { return S::get_shared_instance(); }, nullptr, nullptr};
}
template <class S> static Ops init_ops()
{
    return {[](bool) { return S::get_instance(); }, [](bool) { return S::get_shared_instance(); },
            []() { return S::initialize(); }, [](int a, int b) { return S::initialize(a, b); }};
}
template <class S> static Ops safe_ops()
{
    return {[](bool c) { return c ? S::get_instance() : S::get_instance(false); },
            [](bool c) { return c ? S::get_shared_instance() : S::get_shared_instance(false); },
            []() { return S::initialize(); }, [](int a, int b) { return S::initialize(a, b); }};
}

static void plain(int I, Ops S, Ops R)
{
    int m = made;
    std::vector<Obj*> got(4);
    Obj::slow = true;
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; ++k)
    {
        ts.emplace_back([&, k] { got[k] = k % 2 ? S.get(true) : S.shared(true).get(); });
    }
    for (auto& t : ts) { t.join(); }
    Obj::slow = false;
    at(cat("Singleton ", I, " asked for by 4 threads"));
    check(made == m + 1, at_buf + cat(": ", made - m, " instances made"));
    for (auto p : got) { check(p && p == S.get(true) && p->a == -1, std::string(at_buf) + ": not one instance for all"); }
    check(R.get(true) != got[0], std::string(at_buf) + ": the instance of another index is the same");
    check(R.shared(true).get() == R.get(true), std::string(at_buf) + ": two instances");
}

static void init(int I, Ops S, Ops R)
{
    std::string log = "InitializableSingleton";
    Obj* cur = nullptr;
    std::shared_ptr<Obj> held;
    int x = 0, y = 0;
    for (int k = 0; k < 6; ++k)
    {
        int m = made, g = gone;
        switch (rng.below(4))
        {
            case 0:
                log += " initialize()";
                at(log);
                check(S.init0(), log + ": says no");
                check(made == m + 1, log + ": not one instance made");
                x = y = -1;
                cur = S.get(true);
                break;
            case 1:
                x = int(rng.below(1000)); y = int(rng.below(1000));
                log += cat(" initialize(", x, ",", y, ")");
                at(log);
                check(S.init2(x, y), log + ": says no");
                check(made == m + 1, log + ": not one instance made");
                cur = S.get(true);
                break;
            case 2: log += " hold"; held = S.shared(true); check(held.get() == cur, log + ": another instance"); break;
            default: log += " drop"; held.reset(); break;
        }
        (void)g;
        at(log);
        Obj* p = S.get(true);
        check(p == cur, log + ": the instance changed without initialize");
        check(p == S.shared(true).get(), log + ": two instances");
        if (cur) { check(p && p->a == x && p->b == y, log + ": not made of the arguments"); }
        check(R.get(true) == nullptr || R.get(true) != p, log + ": shared with another index");
        if (k == 0) { check(I > 0 || R.get(true) == nullptr, log + ": another index was initialized"); }
    }
}

static void safe(int I, Ops S, Ops R)
{
    std::string log = cat("SafeInitializableSingleton ", I);
    at(log);
    int m = made, g = gone;
    check(S.get(false) == nullptr && !S.shared(false), log + ": an instance before it was asked for");
    check(made == m, log + ": get_instance(false) makes an instance");
    const int n = 4;
    std::vector<Obj*> got(n);
    std::vector<int> said(n, 2);
    std::vector<int> kind(n);
    for (auto& k : kind) { k = int(rng.below(5)); }
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int k = 0; k < n; ++k)
    {
        ts.emplace_back([&, k]
                {
                    ++ready;
                    while (ready < n) {}
                    switch (kind[k])
                    {
                        case 0: said[k] = S.init0(); got[k] = S.get(false); break;
                        case 1: said[k] = S.init2(k, k + 10); got[k] = S.get(false); break;
                        case 2: got[k] = S.get(true); break;
                        case 3: got[k] = S.shared(true).get(); break;
                        default: got[k] = S.get(false); break;
                    }
                });
    }
    for (auto& t : ts) { t.join(); }
    for (int k = 0; k < n; ++k) { log += cat(" ", kind[k]); }
    at(log);
    Obj* p = S.get(false);
    int yes = 0, asked = 0;
    for (int k = 0; k < n; ++k)
    {
        yes += said[k] == 1;
        asked += kind[k] < 4;
        if (kind[k] < 4) { check(got[k] == p, log + ": not the same instance for all"); }
        else { check(!got[k] || got[k] == p, log + ": another instance"); }
        if (said[k] == 1) { check(p->a == (kind[k] ? k : -1) && p->b == (kind[k] ? k + 10 : -1), log + ": not made of the arguments"); }
    }
    check((p != nullptr) == (asked > 0), log + ": whether there is an instance");
    check(made == m + (asked ? 1 : 0) && gone == g, log + cat(": ", made - m, " made, ", gone - g, " destroyed"));
    check(yes <= 1, log + ": initialize says yes twice");
    if (p)
    {
        check(yes == 1 || p->a == -1, log + ": made by nobody");
        check(!S.init2(5, 6) && S.get(true) == p && p->a != 5, log + ": initialized again");
    }
    check(R.get(false) == nullptr, log + ": the instance of another index");
    check(R.init2(7, 8) && R.get(true)->b == 8 && R.get(true) != p, log + ": initialize of another index");
    check(S.get(false) == p, log + ": changed by another index");
}

template <int... I> static void all(std::integer_sequence<int, I...>)
{
    (void)std::initializer_list<int>{(
        plain(I, plain_ops<Singleton<Obj, 2 * I>>(), plain_ops<Singleton<Obj, 2 * I + 1>>()),
        safe(I, safe_ops<SafeInitializableSingleton<Obj, 2 * I>>(), safe_ops<SafeInitializableSingleton<Obj, 2 * I + 1>>()),
        init(I, init_ops<InitializableSingleton<Obj, 2 * I>>(), init_ops<InitializableSingleton<Obj, 2 * I + 1>>()), 0)...};
}

int main(int argc, char** argv)
{
    start(argc, argv);
    all(std::make_integer_sequence<int, 60>());
    finish();
}
