// C26: moments, dates and their texts, against a calendar of its own.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <time.h>
#include <vector>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using Seconds = long long;

struct Date { Seconds y; int mo, d, h, mi, s; };

static bool leap(Seconds y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int month_days(Seconds y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : n[m - 1]; }
static Seconds floordiv(Seconds a, Seconds b) { return a / b - (a % b < 0); }
//! days from 1970-01-01 to the first day of the year
static Seconds year_days(Seconds y) { Seconds p = y - 1; return 365 * (y - 1970) + (floordiv(p, 4) - 492) - (floordiv(p, 100) - 19) + (floordiv(p, 400) - 4); }
static Seconds seconds_of(const Date& x)
{
    Seconds days = year_days(x.y) + x.d - 1;
    for (int m = 1; m < x.mo; ++m) days += month_days(x.y, m);
    return ((days * 24 + x.h) * 60 + x.mi) * 60 + x.s;
}
static Date date_of(Seconds t)
{
    Seconds days = floordiv(t, 86400), rest = t - days * 86400;
    Date x;
    x.y = 1970 + floordiv(days, 366);
    while (year_days(x.y + 1) <= days) ++x.y;
    while (year_days(x.y) > days) --x.y;
    Seconds left = days - year_days(x.y);
    for (x.mo = 1; left >= month_days(x.y, x.mo); ++x.mo) left -= month_days(x.y, x.mo);
    x.d = int(left) + 1;
    x.h = int(rest / 3600); x.mi = int(rest / 60 % 60); x.s = int(rest % 60);
    return x;
}
static std::string text(const Date& x, const char* f = "%04lld-%02d-%02d_%02d-%02d-%02d")
{
    char b[99];
    snprintf(b, sizeof b, f, x.y, x.mo, x.d, x.h, x.mi, x.s);
    return b;
}
static Timestamp stamp(Seconds t) { return Timestamp(std::chrono::seconds(t)); }
static Seconds secs(const Timestamp& t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
//! hours that local time is ahead, -1 in the months when that changes, and before glibc knows the zone
static int ahead(const Date& d) { return d.y < 1971 || d.mo == 3 || d.mo == 10 ? -1 : d.mo > 3 && d.mo < 10 ? 2 : 1; }
static constexpr Seconds LAST = 9223372036LL;

static Seconds any_second()
{
    switch (rng.below(6))
    {
        case 0: return Seconds(rng.below(5)) - 2;                       // around 1970
        case 1: return LAST - Seconds(rng.below(100));
        case 2: return -LAST + Seconds(rng.below(100));
        case 3: { Date x{1678 + Seconds(rng.below(584)), rng.flip() ? 2 : 12, 28, 23, 59, 59}; return seconds_of(x) + Seconds(rng.below(4 * 86400)); }
        case 4: return Seconds(1700000000) + Seconds(rng.below(100000000));
        default: return Seconds(rng.below(2 * LAST)) - LAST;
    }
}

//! "throws P", "throws V" or the second
static std::string reading(const std::string& s, const std::string& f, bool local = false)
{
    try { return std::to_string(secs(string_to_timestamp(s, f, local))); }
    catch (const PreconditionNotMet&) { return "throws P"; }
    catch (const ValueNotAllowedException&) { return "throws V"; }
}

int main(int argc, char** argv)
{
    stall_limit = 30;
    start(argc, argv);
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    tzset();
    const std::string std_format = "%Y-%m-%d_%H-%M-%S";
    unsigned round = 0;
    do
    {
        Seconds t = any_second();
        Date d = date_of(t);
        at("timestamp_to_string");
        long long frac = Seconds(rng.below(1000000000));
        if (t == LAST || t == -LAST) frac = 0;
        // the fraction of a second is dropped towards 1970
        Timestamp ts = stamp(t) + std::chrono::nanoseconds(t > 0 || (t == 0 && rng.flip()) ? frac : -frac);
        check(timestamp_to_string(ts) == text(d), cat("second ", t, " is written ", timestamp_to_string(ts), " in place of ", text(d)));
        std::string slashes = timestamp_to_string(ts, "%d/%m/%Y %H:%M:%S");
        char b[99];
        snprintf(b, sizeof b, "%02d/%02d/%04lld %02d:%02d:%02d", d.d, d.mo, d.y, d.h, d.mi, d.s);
        check(slashes == b, cat("second ", t, " is written ", slashes, " in place of ", b));
        Date there = date_of(t + 3600 * ahead(d));
        if (t < LAST - 20000 && ahead(d) > 0 && ahead(there) > 0) check(timestamp_to_string(ts, std_format, true) == text(there), cat("second ", t, " is written ",
                timestamp_to_string(ts, std_format, true), " in local time in place of ", text(there)));

        at("string_to_timestamp");
        check(reading(text(d), std_format) == std::to_string(t), cat(text(d), " is read ", reading(text(d), std_format), " in place of ", t));
        check(reading(b, "%d/%m/%Y %H:%M:%S") == std::to_string(t), cat(b, " is read ", reading(b, "%d/%m/%Y %H:%M:%S"), " in place of ", t));
        if (t > -LAST + 20000 && ahead(d) > 0) check(reading(text(d), std_format, true) == std::to_string(t - 3600 * ahead(d)), cat(text(d), " is read ", reading(text(d), std_format, true),
                " in local time in place of ", t - 3600 * ahead(d)));
        std::string bad = rng.flip() ? rng.str("abc-_:x", 12) : "x" + text(d);
        check(reading(bad, std_format) == "throws P", cat("the text ", show(bad), " is read ", reading(bad, std_format)));
        Date far = d;
        far.y = rng.flip() ? 2263 + Seconds(rng.below(7000)) : 1000 + Seconds(rng.below(676));
        far.d = 1;
        bool local = rng.flip();
        check(reading(text(far), std_format, local) == "throws V", cat("the date ", text(far), ", which is no Timestamp, is read ", reading(text(far), std_format, local)));

        at("date_to_timestamp");
        if (d.y >= 1678 && d.y <= 2261) check(secs(date_to_timestamp(unsigned(d.y), d.mo, d.d, d.h, d.mi, d.s)) == t,
                cat(text(d), " is made ", secs(date_to_timestamp(unsigned(d.y), d.mo, d.d, d.h, d.mi, d.s)), " in place of ", t));
        if (d.y >= 1678 && d.y <= 2261) check(secs(date_to_timestamp(unsigned(d.y), d.mo, d.d)) == t - d.h * 3600 - d.mi * 60 - d.s, "a date is made without the time 0:00:00");

        at("time_to_timestamp");
        Seconds today = floordiv(secs(now()), 86400);
        Seconds made = secs(time_to_timestamp(d.h, d.mi, d.s)), want = today * 86400 + d.h * 3600 + d.mi * 60 + d.s;
        if (floordiv(secs(now()), 86400) == today) check(made == want, cat("the time ", d.h, ":", d.mi, ":", d.s, " is made ", made, " in place of ", want));

        at("durations and limits");
        Duration_ms ms = rng.flip() ? Duration_ms(rng.below(5000)) : Duration_ms(rng.below(1ull << 32));
        check(duration_to_ms(ms).count() == (long long)(ms), cat("a duration of ", ms, " ms is ", duration_to_ms(ms).count()));
        check(the_end_of_time() == Timestamp::max() && the_beginning_of_time() == Timestamp::min(), "the limits of time are others");
        auto before = std::chrono::system_clock::now();
        Timestamp n = now();
        auto after = std::chrono::system_clock::now();
        check(before <= n && n <= after, "now is another moment");
        if (round % 64 == 0)
        {
            Duration_ms z = Duration_ms(rng.below(12));
            auto s0 = std::chrono::steady_clock::now();
            sleep_for(z);
            check(std::chrono::steady_clock::now() - s0 >= std::chrono::milliseconds(z), cat("sleep_for ", z, " ms returns earlier"));
        }
        if (round % 16 == 0)
        {
            at("threads that write dates");
            std::vector<std::thread> ths;
            std::atomic<int> wrong{0};
            for (int k = 0; k < 4; ++k)
            {
                Seconds mine = any_second();
                if (mine > LAST - 20000) mine -= 20000;
                int h = k % 2 ? ahead(date_of(mine)) : 0;
                if (h < 0 || ahead(date_of(mine + h * 3600)) < 0) continue;
                ths.emplace_back([mine, h, k, &wrong, &std_format]
                        {
                            std::string w = text(date_of(mine + h * 3600));
                            for (int i = 0; i < 300; ++i) if (timestamp_to_string(stamp(mine), std_format, k % 2) != w) ++wrong;
                        });
            }
            for (auto& th : ths) th.join();
            check(wrong == 0, cat(int(wrong), " dates written by four threads are wrong"));
        }
        ++round;
        sample(cat("second ", t, " text ", text(d)));
        if (fails > 5) break;
    } while (more());
    return finish();
}
