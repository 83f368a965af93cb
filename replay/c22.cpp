// C22: commands read from the standard input, against a model that works on the text of the line.
#include <atomic>
#include <iostream>
#include <thread>
#include <cpp_utils/utils.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/user_interface/CommandReader.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;

enum class Verb { none, go, stop, say };
static const std::map<Verb, std::set<std::string>>& table()
{
    static const std::map<Verb, std::set<std::string>> t{{Verb::go, {"go", "g", "let us go"}}, {Verb::stop, {"stop", ""}}, {Verb::say, {"say", "s"}}};
    return t;
}

// the arguments of a line: words between spaces; one that begins with a quote goes on to the next word that ends with one
static std::vector<std::string> arguments(const std::string& line)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (true)
    {
        size_t end;
        if (i < line.size() && line[i] == '"')
        {
            // the first quote after this one that is followed by a space or by the end
            size_t j = i + 1;
            while (j < line.size() && !(line[j] == '"' && (j + 1 == line.size() || line[j + 1] == ' '))) { ++j; }
            r.push_back(line.substr(i + 1, j - i - 1));
            end = j < line.size() ? j + 1 : j;
        }
        else
        {
            size_t j = i;
            while (j < line.size() && line[j] != ' ') { ++j; }
            r.push_back(line.substr(i, j - i));
            end = j;
        }
        if (end >= line.size()) { return r; }
        i = end + 1;
    }
}

static std::string random_line()
{
    static const char* words[] = {"go", "stop", "say", "s", "g", "\"", "\"\"", "\"a", "a\"", "\"b\"", "c", "", " ", "\"let", "us", "go\"", "\"let us go\"", "a\"b", "\" ", "x"};
    std::string s;
    int n = int(rng.below(8));
    for (int i = 0; i < n; ++i) { s += (i ? " " : ""); s += words[rng.below(20)]; }
    if (rng.flip(4)) { s += rng.str("ab \"", 10); }
    return s;
}

static std::string show(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) { s += (s.empty() ? "" : ", ") + vp::show(x); }
    return "[" + s + "]";
}

int main(int argc, char** argv)
{
    stall_limit = 30;
    setvbuf(stdin, nullptr, _IONBF, 0);
    std::cout.rdbuf(nullptr);
    start(argc, argv);
    do
    {
        int fd[2];
        if (pipe(fd)) { break; }
        dup2(fd[0], 0);
        close(fd[0]);
        clearerr(stdin);
        std::cin.clear();
        auto* reader = new CommandReader<Verb>(EnumBuilder<Verb>(table()));
        int n = int(rng.below(12));
        for (int i = 0; i < n; ++i)
        {
            std::string line = random_line();
            at(cat("line ", vp::show(line)));
            std::string keys = line + "\n";
            (void)!write(fd[1], keys.data(), keys.size());
            Command<Verb> c;
            c.command = Verb::none;
            c.arguments = {"stale"};
            bool r = reader->read_next_command(c);
            std::vector<std::string> want = arguments(line);
            Verb verb = Verb::none;
            for (auto& t : table()) { if (t.second.count(want[0])) { verb = t.first; } }
            check(c.arguments == want, cat("line ", vp::show(line), ": arguments ", show(c.arguments), ", not ", show(want)));
            check(r == (verb != Verb::none), cat("line ", vp::show(line), ": ", r ? "a" : "no", " command"));
            check(!r || c.command == verb, cat("line ", vp::show(line), ": command ", int(c.command), ", not ", int(verb)));
            if (rng.flip(200)) { sample(cat(vp::show(line), " -> ", show(c.arguments))); }
        }
        bool pending = rng.flip(6);
        if (pending)
        {
            // destroyed while a line that was asked for has not been read
            at("reader destroyed while a line is awaited");
            reader->stdin_handler().read_one_more_line();
            std::thread t([reader]() { delete reader; });
            std::this_thread::sleep_for(std::chrono::milliseconds(1 + rng.below(3)));
            (void)!write(fd[1], "go\n", 3);
            t.join();
        }
        else { delete reader; }
        close(fd[1]);
    }
    while (more());
    finish();
}
