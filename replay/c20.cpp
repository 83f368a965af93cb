// C20: timers under a clock of our own (the readings are chosen here).
#include <chrono>
#include <ctime>
#include <cmath>
#include <cpp_utils/time/PausableTimer.hpp>

static bool fake = false;
static int64_t fake_ns = 0;
static int64_t tick = 0;        // the clock advances this much at each reading

static int64_t reading(clockid_t c)
{
    if (fake) { int64_t r = fake_ns; fake_ns += tick; return r; }
    timespec t;
    clock_gettime(c, &t);
    return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(reading(CLOCK_REALTIME)));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(reading(CLOCK_MONOTONIC)));
}
} } }

#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;

struct Model
{
    bool playing;
    int64_t since;
    double stored = 0;
};

static double ms(int64_t ns) { return double(ns) / 1e6; }
static bool near(double a, double lo, double hi)
{
    double eps = 1e-9 * (std::fabs(hi) + 1);
    return a >= lo - eps && a <= hi + eps;
}

static void advance()
{
    static const int64_t steps[] = {0, 1, 999, 1000, 999999, 1000000, 1000001, 5000000, 999999999, 1000000000, 60000000000ll, 86400000000000ll};
    fake_ns += steps[rng.below(12)];
    if (rng.flip()) { fake_ns += int64_t(rng.below(3000000)); }
}

int main(int argc, char** argv)
{
    start(argc, argv);
    do
    {
        fake_ns = 1700000000000000000ll + int64_t(rng.below(1000000000000ull));
        tick = 0;
        fake = true;
        bool play = rng.flip();
        int64_t born = fake_ns;
        Timer t;
        PausableTimer p(play);
        Model m{play, born};
        std::string log = cat("PausableTimer(", play, ")");
        std::vector<std::string> bad;
        auto see = [&](bool ok, const std::string& s) { if (!ok) { bad.push_back(s + " after " + log); } };
        unsigned steps = 1 + rng.below(14);
        for (unsigned k = 0; k < steps && bad.empty(); ++k)
        {
            advance();
            double expect = m.stored + (m.playing ? ms(fake_ns - m.since) : 0);
            switch (rng.below(7))
            {
                case 0: log += " play"; p.play(); if (!m.playing) { m.playing = true; m.since = fake_ns; } break;
                case 1: log += " pause"; p.pause(); m.stored = expect; m.playing = false; break;
                case 2: log += " reset"; p.reset(); m.stored = 0; m.since = fake_ns; break;
                case 3: log += " t.reset"; t.reset(); born = fake_ns; break;
                case 4: { Timer& b = p; if (rng.flip(3)) { log += " virtual-reset"; b.reset(); m.stored = 0; m.since = fake_ns; } break; }
                default: break;
            }
            expect = m.stored + (m.playing ? ms(fake_ns - m.since) : 0);
            double got = p.elapsed(), gott = t.elapsed();
            see(near(got, expect, expect), cat("elapsed() ", got, " instead of ", expect));
            see(p.playing() == m.playing, "playing() is wrong");
            see(near(gott, ms(fake_ns - born), ms(fake_ns - born)), cat("Timer::elapsed() ", gott, " instead of ", ms(fake_ns - born)));
            if (gott < 4294967295.0)
            {
                Duration_ms e = t.elapsed_ms();
                see(e == Duration_ms(gott), cat("Timer::elapsed_ms() ", e, " instead of ", gott));
            }
            if (expect < 4294967295.0)
            {
                Duration_ms e = p.elapsed_ms();
                see(near(e, std::floor(expect) - (std::fabs(expect - std::round(expect)) < 1e-6), std::floor(expect)
                        + (std::fabs(expect - std::round(expect)) < 1e-6)), cat("PausableTimer::elapsed_ms() ", e, " instead of ", expect));
            }
        }
        fake = false;
        at(log);
        for (auto& b : bad) { fail(b); }
        sample(log);
    } while (more());
    finish();
}
