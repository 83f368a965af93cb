// Small runtime of the replay drivers: runs the real code of /repo on concrete inputs.
#pragma once
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vp {

inline char at_buf[4096];
// (the signal may be handled in any thread; relaxed, so that it orders nothing of what is watched for races)
struct Beat
{
    std::atomic<unsigned long> n{0};
    void operator ++() { n.fetch_add(1, std::memory_order_relaxed); }
    unsigned long get() const { return n.load(std::memory_order_relaxed); }
    void set(unsigned long v) { n.store(v, std::memory_order_relaxed); }
};
inline Beat beat;
inline unsigned long evals = 0;
inline unsigned fails = 0;
inline std::chrono::steady_clock::time_point t_end;

inline void put_at()
{
    const char* p = "AT ";
    (void)!write(1, "\n", 1);
    (void)!write(1, p, 3);
    (void)!write(1, at_buf, strlen(at_buf));
    (void)!write(1, "\n", 1);
}

inline void on_signal(int s)
{
    put_at();
    _exit(128 + s);
}

inline unsigned stall_limit = 20;
inline void on_alarm(int)
{
    static Beat last, same;
    if (beat.get() == last.get()) { ++same; if (same.get() >= stall_limit) { put_at(); _exit(124); } }
    else { last.set(beat.get()); same.set(0); }
    alarm(1);
}

inline std::string show(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s.substr(0, 300))
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c >= 32 && c < 127) { o += char(c); }
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    if (s.size() > 300) { o += "...(" + std::to_string(s.size()) + ")"; }
    return o + "\"";
}

template <class... A> std::string cat(const A&... a)
{
    std::ostringstream os;
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

inline void at(const std::string& s)
{
    ++beat; ++evals;
    strncpy(at_buf, s.c_str(), sizeof at_buf - 1);
}

inline void fail(const std::string& s)
{
    std::string t;
    for (char c : s) { t += (c == '\n' ? ' ' : c); }
    printf("FAIL %s\n", t.c_str());
    fflush(stdout);
    if (++fails >= 4) { printf("EVALS %lu\n", evals); fflush(stdout); _exit(1); }
}

inline void check(bool ok, const std::string& s) { if (!ok) fail(s); }
inline void sample(const std::string& s)
{
    static int n = 0;
    if (n++ < 6) { printf("SAMPLE %s\n", s.c_str()); }
}

struct Rng
{
    uint64_t x;
    uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool flip(unsigned k = 2) { return below(k) == 0; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    uint64_t num(unsigned bits)      // biased to the interesting
    {
        uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
        switch (below(6))
        {
            case 0: return next() & m;
            case 1: return below(20) & m;
            case 2: return ((1ull << below(bits)) + below(5) - 2) & m;
            case 3: return (m - below(20)) & m;
            case 4: return (next() >> below(64)) & m;
            default: return (below(10) * 1000 + below(3) - 1) & m;
        }
    }
    std::string str(const std::string& alpha, unsigned maxlen)
    {
        std::string s;
        unsigned n = below(maxlen + 1);
        for (unsigned i = 0; i < n; ++i) { s += alpha[below(alpha.size())]; }
        return s;
    }
    std::string toks(const std::vector<std::string>& t, unsigned maxn)
    {
        std::string s;
        unsigned n = below(maxn + 1);
        for (unsigned i = 0; i < n; ++i) { s += t[below(t.size())]; }
        return s;
    }
};
inline Rng rng{1};

struct Hint { std::string obligation; std::map<std::string, std::string> s; std::map<std::string, long long> i; };
inline std::vector<Hint> hints;

inline void start(int argc = 0, char** argv = nullptr)
{
    (void)argc; (void)argv;
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    if (getenv("VP_SEED")) { rng.x = strtoull(getenv("VP_SEED"), nullptr, 10) * 7919 + 17; }
    double secs = getenv("VP_SECONDS") ? atof(getenv("VP_SECONDS")) : 3;
    t_end = std::chrono::steady_clock::now() + std::chrono::milliseconds(long(secs * 1000));
    if (getenv("VP_HINTS"))
    {
        std::ifstream f(getenv("VP_HINTS"));
        std::string l;
        while (std::getline(f, l))
        {
            std::istringstream is(l);
            std::string nm, k, v;
            is >> nm >> k;
            if (nm == "m") { hints.emplace_back(); hints.back().obligation = l.substr(2); continue; }
            if (hints.empty()) continue;
            is >> v;
            if (k == "s")
            {
                std::string s;
                for (size_t j = 0; j + 1 < v.size(); j += 2) { s += char(strtol(v.substr(j, 2).c_str(), nullptr, 16)); }
                hints.back().s[nm] = s;
            }
            else if (k == "i" || k == "b") { hints.back().i[nm] = strtoll(v.c_str(), nullptr, 10); }
        }
    }
    if (__sanitizer_set_death_callback) { __sanitizer_set_death_callback(put_at); }
    for (int s : {SIGFPE, SIGABRT, SIGILL}) { signal(s, on_signal); }
    if (!__sanitizer_set_death_callback) { signal(SIGSEGV, on_signal); }
    signal(SIGALRM, on_alarm);
    alarm(1);
}

inline bool more() { ++beat; return std::chrono::steady_clock::now() < t_end; }

inline int finish()
{
    printf("EVALS %lu\n", evals);
    fflush(stdout);
    _exit(fails ? 1 : 0);
}

} // namespace vp
