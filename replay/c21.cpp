// C21: keys given through the standard input, against a model of the line being edited and of the history.
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <cstdarg>
#include <sys/ioctl.h>
#include <cpp_utils/event/StdinEventHandler.hpp>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;

// the terminal of these runs: any width, or none
static std::atomic<int> columns{-1};
extern "C" int ioctl(int, unsigned long what, ...) noexcept
{
    va_list l;
    va_start(l, what);
    void* p = va_arg(l, void*);
    va_end(l);
    if (what != TIOCGWINSZ || columns < 0) { return -1; }
    *static_cast<winsize*>(p) = winsize{24, static_cast<unsigned short>(columns.load()), 0, 0};
    return 0;
}

struct History
{
    std::vector<std::string> h;
    size_t p = 0;
    void add(const std::string& s) { if (!s.empty()) { h.push_back(s); p = h.size(); } }
    std::string prev() { if (p > 0) { return h[--p]; } return ""; }
    std::string next() { if (p + 1 < h.size()) { return h[++p]; } p = h.size(); return ""; }
};

struct Editor
{
    History hist;
    // reads one line from keys (from i on); what is given
    std::string line(const std::string& keys, size_t& i, bool ignoring)
    {
        std::string s;
        size_t c = 0;
        auto get = [&]() { return i < keys.size() ? int(static_cast<unsigned char>(keys[i++])) : -1; };
        auto set = [&](const std::string& t) { s = t; c = s.size(); };
        while (true)
        {
            int k = get();
            if (k == '\n' || k == '\r' || k == -1)
            {
                if (!ignoring) { hist.add(s); }
                return s;
            }
            if (k == 3) { return ""; }
            if (k == 8 || k == 127) { if (c > 0) { s.erase(--c, 1); } continue; }
            if (k != 27) { s.insert(c++, 1, char(k)); continue; }
            get();
            std::string t;
            switch (get())
            {
                case 'A': t = hist.prev(); if (!t.empty()) { set(t); } break;
                case 'B': set(hist.next()); break;
                case 'D': if (c > 0) { --c; } break;
                case 'C': if (c < s.size()) { ++c; } break;
                case 'H': c = 0; break;
                case 'F': c = s.size(); break;
                case '2': get(); break;
                case '3': if (get() == '~' && c < s.size()) { s.erase(c, 1); } break;
                case '5': if (get() == '~') { t = hist.prev(); if (!t.empty()) { set(t); } } break;
                case '6': if (get() == '~') { set(hist.next()); } break;
            }
        }
    }
};

static std::string keys_of_line(bool last)
{
    static const char* seq[] = {"\033[A", "\033[B", "\033[C", "\033[D", "\033[H", "\033[F", "\033[2~", "\033[3~", "\033[5~", "\033[6~",
                                "\b", "\x7f", "\033[A", "\033[B", "\033[D", "\033[D", "\033[3x", "\033[5x", "\033[Z", "\033OA"};
    std::string k;
    int n = int(rng.below(rng.flip(6) ? 200 : 12));
    for (int i = 0; i < n; ++i)
    {
        if (rng.flip()) { k += seq[rng.below(20)]; }
        else if (rng.flip(12)) { char c = char(rng.below(256)); if (c != '\033') { k += c; } }
        else { k += "ab \"~[A\t"[rng.below(8)]; }
    }
    if (last) { return k; }
    return k + (rng.flip(6) ? "\x03" : rng.flip(5) ? "\r" : "\n");
}

static void reading()
{
    int fd[2];
    if (pipe(fd)) { return; }
    dup2(fd[0], 0);
    close(fd[0]);
    clearerr(stdin);
    std::cin.clear();
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::string> got;
    Editor ed;
    std::string all;
    std::vector<std::string> want;
    int asked = 0;
    columns = int(rng.flip(3) ? rng.below(120) : rng.flip() ? 80 : -1);
    {
        int first = int(rng.below(4));
        event::StdinEventHandler h([&](std::string s) { std::lock_guard<std::mutex> l(m); got.push_back(s); cv.notify_all(); }, true, first);
        asked = first;
        int phases = 1 + int(rng.below(3));
        for (int ph = 0; ph < phases; ++ph)
        {
            bool ign = rng.flip(3), last = ph == phases - 1;
            h.set_ignore_input(ign);
            check(h.is_ignoring_input() == ign, "is_ignoring_input does not tell what was set");
            std::string keys;
            int lines = 1 + int(rng.below(5));
            if (ph == 0 && lines < first) { lines = first; }
            bool eof = last && rng.flip(3);
            size_t have = want.size();
            for (int i = 0; i < lines; ++i) { keys += keys_of_line(eof && i == lines - 1); }
            if (!last) { keys += "\x03"; }
            // the keys may make more lines than this: every line is read if it was asked for
            size_t i = 0, k = 0;
            while (i < keys.size() || (eof && k == 0) || int(want.size()) < asked)
            {
                if (i >= keys.size() && !eof) { keys += '\n'; }
                want.push_back(ed.line(keys, i, ign));
                ++k;
            }
            at(cat("keys of ", show(all + keys), ign ? " (the last ones ignored)" : "", " asked at first ", first));
            all += keys;
            for (; asked < int(want.size()); ++asked) { h.read_one_more_line(); }
            (void)!write(fd[1], keys.data(), keys.size());
            if (eof) { close(fd[1]); fd[1] = -1; }
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait_for(l, std::chrono::seconds(10), [&]() { return got.size() >= want.size(); });
                if (got.size() < want.size())
                {
                    fail(cat("line ", got.size(), " was never given: keys ", show(all)));
                    printf("EVALS %lu\n", evals);
                    fflush(stdout);
                    _exit(1);
                }
            }
            for (size_t j = have; j < want.size(); ++j)
            {
                check(got[j] == want[j], cat("keys ", show(all), ": line ", j, " is ", show(got[j]), ", not ", show(want[j])));
            }
        }
        if (fd[1] >= 0) { close(fd[1]); }
    }
    check(got.size() == want.size(), cat(got.size(), " lines given, ", want.size(), " asked for: keys ", show(all)));
    if (rng.flip(40)) { sample(cat("keys ", show(all), " -> ", got.empty() ? "" : show(got.back()))); }
}

static void commands()
{
    history::CommandHistoryHandler* h = new history::CommandHistoryHandler;
    History m;
    std::string ops;
    int n = int(rng.below(25));
    for (int i = 0; i < n; ++i)
    {
        std::string a, b;
        switch (rng.below(4))
        {
            case 0: { std::string s = rng.str("ab", 3); ops += cat("add(", s, ") "); at(ops); h->add_command(s); m.add(s); break; }
            case 1: ops += "previous "; at(ops); a = h->get_previous_command(); b = m.prev(); break;
            default: ops += "next "; at(ops); a = h->get_next_command(); b = m.next(); break;
        }
        check(a == b, cat(ops, "gives ", show(a), ", not ", show(b)));
    }
    delete h;
}

int main(int argc, char** argv)
{
    stall_limit = 30;
    setvbuf(stdin, nullptr, _IONBF, 0);
    std::cout.rdbuf(nullptr);
    start(argc, argv);
    do
    {
        for (int i = 0; i < 20; ++i) { commands(); }
        reading();
    }
    while (more());
    finish();
}
