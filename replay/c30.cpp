// C30: files are read line by line, and watched: everything happens in a scratch directory in the current one.
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <atomic>
#include <bits/stdc++.h>
#include <FileWatch.hpp>
#include <cpp_utils/event/FileWatcherHandler.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/utils.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using Watch = filewatch::FileWatch<std::string>;
using Kind = filewatch::Event;

static std::string scratch;

static void put(const std::string& name, const std::string& text, bool more = false)
{
    std::ofstream f(name, more ? std::ios::app | std::ios::binary : std::ios::binary);
    f << text;
}

// ------------------------------------------------------------ reading

static std::vector<std::string> lines_of(const std::string& text, bool strip, bool drop)
{
    std::vector<std::string> r;
    for (size_t p = 0; p < text.size();)
    {
        size_t q = text.find('\n', p);
        std::string l = text.substr(p, q == std::string::npos ? q : q - p);
        p = q == std::string::npos ? text.size() : q + 1;
        if (strip)
        {
            l.erase(std::remove(l.begin(), l.end(), '\r'), l.end());
        }
        if (!drop || !l.empty())
        {
            r.push_back(l);
        }
    }
    return r;
}

static std::string list(const std::vector<std::string>& v)
{
    std::string s = cat(v.size(), " lines");
    for (auto& x : v) { s += " " + show(x); }
    return s.substr(0, 600);
}

static void reading()
{
    static const std::string alphabet("\n\n\r\r a b\0\xff", 9);
    std::string text = rng.flip(20) ? "" : rng.flip(12) ? std::string(rng.below(70000), 'x') + rng.str(alphabet, 9) : rng.str(alphabet, 30);
    std::string name = scratch + "/text";
    put(name, text);
    for (int k = 0; k < 4; ++k)
    {
        bool strip = k & 1, drop = k & 2;
        at(cat("file_to_strings of ", show(text), ", strip_chars ", strip, ", strip_empty_lines ", drop));
        auto want = lines_of(text, strip, drop);
        auto got = file_to_strings(name.c_str(), strip, drop);
        check(got == want, cat("file_to_strings of ", show(text), ", strip_chars ", strip, ", strip_empty_lines ", drop, ", gives ", list(got), ", not ", list(want)));
    }
    for (int strip = 0; strip < 2; ++strip)
    {
        at(cat("file_to_string of ", show(text), ", strip_chars ", strip));
        std::string want;
        for (auto& l : lines_of(text, strip, false)) { want += l + "\n"; }
        std::string got = file_to_string(name.c_str(), strip);
        check(got == want, cat("file_to_string of ", show(text), ", strip_chars ", strip, ", gives ", show(got), ", not ", show(want)));
    }
    check(file_to_strings(name.c_str()) == lines_of(text, true, false), cat("file_to_strings of ", show(text), ": wrong defaults"));
    sample(cat("read ", show(text).substr(0, 60)));
}

static void unreadable(const std::string& name, const char* what)
{
    for (int k = 0; k < 3; ++k)
    {
        at(cat(k ? "file_to_strings" : "file_to_string", " of ", what));
        bool refused = false;
        try
        {
            if (k == 0) { file_to_string(name.c_str()); }
            else { file_to_strings(name.c_str(), rng.flip(), k == 2); }
        }
        catch (const PreconditionNotMet&)
        {
            refused = true;
        }
        check(refused, cat(k ? "file_to_strings" : "file_to_string", " of ", what, " does not throw PreconditionNotMet"));
    }
}

// ------------------------------------------------------------ watching

struct Seen
{
    std::mutex m;
    std::condition_variable c;
    std::vector<std::pair<std::string, Kind>> v;
    void add(const std::string& n, Kind k)
    {
        std::lock_guard<std::mutex> l(m);
        v.emplace_back(n, k);
        c.notify_all();
    }
    // inotify merges equal consecutive changes: so does this
    std::vector<std::pair<std::string, Kind>> merged()
    {
        std::vector<std::pair<std::string, Kind>> r;
        for (auto& x : v) { if (r.empty() || r.back() != x) { r.push_back(x); } }
        return r;
    }
    template <class P> bool until(P p, int ms = 8000)
    {
        std::unique_lock<std::mutex> l(m);
        return c.wait_for(l, std::chrono::milliseconds(ms), p);
    }
};

static std::string list(const std::vector<std::pair<std::string, Kind>>& v)
{
    static const char* names[] = {"added", "removed", "modified", "renamed_old", "renamed_new"};
    std::string s = cat(v.size(), " changes");
    for (auto& x : v) { s += cat(" ", names[int(x.second)], ":", show(x.first)); }
    return s.substr(0, 600);
}

static int fds()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d)) { ++n; }
        closedir(d);
    }
    return n;
}

// a directory (or one file of it, or the names that match a pattern) through random changes
static void changes()
{
    static int count = 0;
    std::string dir = cat(scratch, "/d", count++);
    mkdir(dir.c_str(), 0700);
    std::vector<std::string> files = {"a", "b", "ab", "a.txt", "xa", "da"};
    std::set<std::string> exist;
    for (auto& f : files) { if (rng.flip()) { put(dir + "/" + f, "x"); exist.insert(f); } }
    int mode = int(rng.below(4));
    std::string single, pattern;
    if (mode == 1 || mode == 2)
    {
        single = rng.pick(files);
        if (exist.insert(single).second) { put(dir + "/" + single, "x"); }
    }
    if (mode == 3) { static std::vector<std::string> ps = {"a.*", ".*a", "a", "b|ab"}; pattern = rng.pick(ps); }
    Seen seen;
    std::vector<std::pair<std::string, Kind>> want;
    std::string did, how = mode == 0 ? "a directory" : mode == 3 ? cat("the names ", show(pattern), " of a directory") : cat("the file ", show(single));
    auto passes = [&](const std::string& f)
            {
                return mode == 0 ? true : mode == 3 ? std::regex_match(f, std::regex(pattern)) : f == single;
            };
    auto note = [&](const std::string& f, Kind k)
            {
                if (passes(f) && (want.empty() || want.back() != std::make_pair(f, k))) { want.emplace_back(f, k); }
            };
    at(cat("watching ", how));
    bool stops = rng.flip(4);
    char old[4096] = "";
    bool relative = mode == 2 && getcwd(old, sizeof old) && chdir(dir.c_str()) == 0;
    int every = rng.flip() ? int(1 + rng.below(4)) : 0;
    int thrown = 0;
    {
        auto cb = [&](const std::string& f, const Kind k)
                {
                    seen.add(f, k);
                    if (every && ++thrown % every == 0) { throw std::runtime_error("callback"); }
                };
        std::unique_ptr<Watch> w(
            mode == 3 ? new Watch(dir, std::regex(pattern), cb) : new Watch(relative ? single : single.empty() ? dir : dir + "/" + single, cb));
        for (unsigned i = 0, n = unsigned(rng.below(30)); i < n; ++i)
        {
            const std::string& f = rng.pick(files);
            std::string p = dir + "/" + f;
            bool there = exist.count(f);
            if (there && rng.flip(3))
            {
                unlink(p.c_str());
                exist.erase(f);
                note(f, Kind::removed);
                did += " rm:" + f;
            }
            else
            {
                put(p, "y", true);
                if (!there) { note(f, Kind::added); exist.insert(f); did += " new:" + f; }
                note(f, Kind::modified);
                did += " mod:" + f;
            }
            at(cat("watching ", how, ":", did));
            if (rng.flip(6)) { std::this_thread::sleep_for(std::chrono::microseconds(rng.below(2000))); }
        }
        if (!stops)
        {
            bool all = seen.until([&]() { return seen.merged() == want; });
            std::unique_lock<std::mutex> l(seen.m);
            check(all, cat("watching ", how, ":", did, ": gives ", list(seen.v), ", not ", list(want)));
        }
    }
    at(cat("watching ", how, ":", did, ", destroyed"));
    size_t then = seen.v.size();
    auto got = seen.merged();
    check(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()),
            cat("watching ", how, ":", did, ": gives ", list(got), ", not in order the changes ", list(want)));
    put(dir + "/a", "z", true);
    if (relative && chdir(old) != 0) {}
    if (rng.flip(4)) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
    check(seen.v.size() == then, "a watch that was destroyed still reports changes");
    for (auto& f : files) { unlink((dir + "/" + f).c_str()); }
    rmdir(dir.c_str());
    sample(cat("watched ", how, ":", did));
}

// what is watched goes away, and it is destroyed
static void gone()
{
    std::string dir = scratch + "/gone", file = dir + "/f";
    mkdir(dir.c_str(), 0700);
    put(file, "x");
    bool one = rng.flip();
    at(cat("destroying the watch of ", one ? "a file" : "a directory", " whose directory was removed"));
    Seen seen;
    {
        Watch w(one ? file : dir, [&](const std::string& f, const Kind k) { seen.add(f, k); });
        unlink(file.c_str());
        rmdir(dir.c_str());
        if (rng.flip()) { std::this_thread::sleep_for(std::chrono::milliseconds(rng.below(20))); }
        if (rng.flip())
        {
            check(seen.until([&]() { return !seen.v.empty(); }) && seen.v[0] == std::make_pair(std::string("f"), Kind::removed),
                    "the removal of a file is not reported when its directory is removed next");
        }
    }
}

static void failing()
{
    std::string none = scratch + "/none/f";
    at("watching a file that does not exist");
    int before = fds();
    for (int i = 0; i < 5; ++i)
    {
        bool refused = false;
        try { Watch w(none, [](const std::string&, const Kind) {}); } catch (const std::exception&) { refused = true; }
        check(refused, "watching a file that does not exist is no error");
    }
    if (geteuid() != 0)
    {
        std::string locked = scratch + "/locked";
        mkdir(locked.c_str(), 0);
        for (int i = 0; i < 5; ++i) { try { Watch w(locked, [](const std::string&, const Kind) {}); } catch (const std::exception&) {} }
        rmdir(locked.c_str());
    }
    {
        at("watching a directory, twenty times");
        for (int i = 0; i < 20; ++i) { Watch w(scratch, [](const std::string&, const Kind) {}); }
    }
    check(fds() == before, "a watch leaves a file descriptor open");
}

// the handler: one event per modification of its file, and of nothing else
static void handler()
{
    std::string dir = scratch + "/h", file = dir + "/f", other = dir + "/of";
    mkdir(dir.c_str(), 0700);
    put(file, "x");
    at("a FileWatcherHandler");
    std::mutex m;
    std::condition_variable c;
    std::vector<std::string> got;
    auto cb = [&](std::string s) { std::lock_guard<std::mutex> l(m); got.push_back(s); c.notify_all(); };
    auto some = [&](size_t n) { std::unique_lock<std::mutex> l(m); return c.wait_for(l, std::chrono::seconds(8), [&]() { return got.size() >= n; }); };
    {
        bool late = rng.flip();
        std::unique_ptr<event::FileWatcherHandler> h(late ? new event::FileWatcherHandler(file) : new event::FileWatcherHandler(cb, file));
        if (late)
        {
            put(file, "before", true);
            h->set_callback(cb);
        }
        unsigned rounds = 1 + unsigned(rng.below(4));
        for (unsigned i = 0; i < rounds; ++i)
        {
            size_t n;
            { std::lock_guard<std::mutex> l(m); n = got.size(); }
            put(other, "o", true);
            if (rng.flip()) { unlink(other.c_str()); }
            at(cat("a FileWatcherHandler: its file modified, ", i));
            put(file, "m", true);
            check(some(n + 1), cat("a FileWatcherHandler misses that its file was modified (", i, ")"));
            check(h->wait_for_event(1) && h->event_count() >= 1, "a FileWatcherHandler does not count its events");
            if (rng.flip(3))
            {
                at("a FileWatcherHandler: its callback unset");
                h->unset_callback();
                size_t then = got.size();
                put(file, "u", true);
                if (rng.flip()) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
                check(got.size() == then, "a FileWatcherHandler calls a callback that was unset");
                if (rng.flip(3)) { break; }
                h->set_callback(cb);
            }
        }
        {
            std::lock_guard<std::mutex> l(m);
            for (auto& s : got) { check(s == "f", cat("a FileWatcherHandler of \"f\" reports ", show(s))); }
            check(got.size() <= rounds, cat("a FileWatcherHandler gives ", got.size(), " events for ", rounds, " modifications"));
        }
        at("a FileWatcherHandler: destroyed");
    }
    size_t then = got.size();
    put(file, "d", true);
    check(got.size() == then, "a FileWatcherHandler that was destroyed calls its callback");
    unlink(other.c_str());
    unlink(file.c_str());
    rmdir(dir.c_str());
}

int main(int argc, char** argv)
{
    stall_limit = 14;
    char d[] = "scratch_XXXXXX", here[4000];            // (the check runs this in a directory that it removes)
    if (!mkdtemp(d) || !getcwd(here, sizeof here)) { return 3; }
    scratch = cat(here, "/", d);
    start(argc, argv);
    int in = inotify_init();
    bool watches = in >= 0;
    if (watches) { close(in); }
    unreadable(scratch, "a directory");
    unreadable(scratch + "/none", "a file that does not exist");
    do
    {
        for (int i = 0; i < 30; ++i) { reading(); }
        if (watches)
        {
            changes();
            handler();
            if (rng.flip(3)) { gone(); }
            if (rng.flip(8)) { failing(); }
        }
    } while (more());
    return finish();
}
