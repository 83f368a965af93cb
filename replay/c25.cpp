// C25: containers and pointers as text, sets and raw memory, letters and access, against direct computations.
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;

struct Val
{
    int v, id;
    bool operator ==(const Val& o) const { return v == o.v; }
    bool operator <(const Val& o) const { return v != o.v ? v < o.v : id < o.id; }
};
static std::ostream& operator <<(std::ostream& os, const Val& x) { return os << "<" << x.v << "," << x.id << ">"; }
struct Parent { int p; Parent(int p) : p(p) {} virtual ~Parent() {} };
struct Child : Parent { int c; Child(int p, int c) : Parent(p), c(c) {} bool operator <(const Child& o) const { return p != o.p ? p < o.p : c < o.c; } };
struct Other : Parent { using Parent::Parent; };
using P = std::shared_ptr<Val>;

static std::set<P> pointers(std::vector<P>& shared)
{
    std::set<P> s;
    for (unsigned k = rng.below(5); k; --k)
    {
        if (rng.below(6) == 0) s.insert(nullptr);
        else if (!shared.empty() && rng.below(3) == 0) s.insert(shared[rng.below(shared.size())]);
        else { P p = std::make_shared<Val>(Val{int(rng.below(3)), int(rng.below(2))}); s.insert(p); shared.push_back(p); }
    }
    return s;
}

static bool has(const std::set<P>& s, const P& p)
{
    for (const P& x : s) if (x == p || (x && p && x->v == p->v)) return true;
    return false;
}

static std::string pretty(const std::set<P>& s)
{
    std::string o = "{ ";
    for (const P& x : s) o += x ? std::to_string(x->v) + " " : std::string("null ");
    return o + "}";
}

template <class F> static std::string printed(F f)
{
    std::ostringstream os;
    os << "before ";
    f(os);
    os << "|";
    return os.str();
}

int main(int argc, char** argv)
{
    start(argc, argv);
    char dir[] = "/tmp/vp_c25_XXXXXX";
    if (!mkdtemp(dir)) return 2;
    std::string file = std::string(dir) + "/file";
    { std::ofstream(file) << "x"; }
    do
    {
        at("sets of pointers");
        std::vector<P> shared;
        std::set<P> a = pointers(shared), b = pointers(shared);
        std::vector<P> probes(shared);
        probes.push_back(nullptr);
        probes.push_back(std::make_shared<Val>(Val{int(rng.below(4)), 7}));
        for (const P& p : probes)
        {
            at(cat("set_of_ptr_contains ", pretty(a), " ", p ? std::to_string(p->v) : "null"));
            bool got = set_of_ptr_contains<Val>(a, p);
            check(got == has(a, p), cat("set_of_ptr_contains(", pretty(a), ", ", p ? std::to_string(p->v) : "null", ") is ", got));
        }
        bool eq = a.size() == b.size();
        for (const P& x : a) eq = eq && has(b, x);
        for (const P& x : b) eq = eq && has(a, x);
        at(cat("are_set_of_ptr_equal ", pretty(a), " ", pretty(b)));
        bool got = are_set_of_ptr_equal<Val>(a, b);
        check(got == eq, cat("are_set_of_ptr_equal(", pretty(a), ", ", pretty(b), ") is ", got));
        check(are_set_of_ptr_equal<Val>(a, a), cat("a set is not equal to itself: ", pretty(a)));

        at("convert_set_to_shared");
        std::set<Child> cs;
        for (unsigned k = rng.below(5); k; --k) cs.insert(Child(int(rng.below(3)), int(rng.below(3))));
        auto sh = convert_set_to_shared<Parent, Child>(cs);
        check(sh.size() == cs.size(), cat(cs.size(), " elements become ", sh.size(), " pointers"));
        std::set<Child> back;
        for (const auto& p : sh)
        {
            const Child* c = dynamic_cast<const Child*>(p.get());
            check(c != nullptr, "convert_set_to_shared loses the class of an element");
            if (c) back.insert(*c);
        }
        check(back.size() == cs.size() && std::equal(back.begin(), back.end(), cs.begin(), [](const Child& x, const Child& y)
            { return x.p == y.p && x.c == y.c; }), "convert_set_to_shared changes the elements");

        at("get_keys");
        std::map<int, int> m;
        std::unordered_map<std::string, int> um;
        std::set<int> mk;
        std::set<std::string> uk;
        for (unsigned k = rng.below(5); k; --k)
        {
            int x = int(rng.below(9)) - 4;
            m[x] = int(k);
            mk.insert(x);
            std::string t = rng.str("ab", 2);
            um[t] = int(k);
            uk.insert(t);
        }
        check(get_keys(m) == mk && m.size() == mk.size(), "get_keys of a map");
        check(get_keys(um) == uk, "get_keys of an unordered map");

        at("container_to_stream");
        std::vector<Val> vs;
        std::vector<P> ps;
        for (unsigned k = rng.below(5); k; --k) { vs.push_back(Val{int(rng.below(3)), int(k)}); ps.push_back(std::make_shared<Val>(vs.back())); }
        std::set<Val> ss(vs.begin(), vs.end());
        std::string sep = rng.flip() ? rng.str(" ,;{}", 3) : std::string(", ");
        auto want = [&](const auto& c, const std::string& s) { std::ostringstream o; o << "before {"; bool first = true; for (const auto& x : c) { if (!first) o << s; first = false; o << x; } o << "}|"; return o.str(); };
        auto same = [&](const std::string& g, const std::string& w) { check(g == w, cat("printed ", show(g), " in place of ", show(w))); };
        same(printed([&](std::ostream& o) { container_to_stream<Val>(o, vs, sep); }), want(vs, sep));
        same(printed([&](std::ostream& o) { container_to_stream<Val>(o, vs); }), want(vs, ";"));
        same(printed([&](std::ostream& o) { container_to_stream<Val>(o, ss, sep); }), want(ss, sep));
        same(printed([&](std::ostream& o) { container_to_stream<Val>(o, ss); }), want(ss, ";"));
        same(printed([&](std::ostream& o) { container_to_stream<P, true>(o, ps, sep); }), want(vs, sep));
        if (!vs.empty()) same(generic_to_string(vs[0]), [&] { std::ostringstream o; o << vs[0]; return o.str(); }());

        at("copy_to_void_ptr");
        unsigned char block[64];
        for (auto& x : block) x = (unsigned char)(rng.below(256));
        size_t n = 1 + rng.below(64);
        void* copy = copy_to_void_ptr<unsigned char>(block, n);
        check(copy != block && memcmp(copy, block, n) == 0, cat("copy_to_void_ptr of ", n, " bytes"));
        free(copy);
        Val whole{3, 4};
        Val* other = static_cast<Val*>(copy_to_void_ptr<Val>(&whole));
        check(other->v == 3 && other->id == 4, "copy_to_void_ptr of an object");
        free(other);
        const Val constant{1, 2};
        check(cast_to_void_ptr<Val>(&constant) == static_cast<const void*>(&constant), "cast_to_void_ptr gives another address");
        check(cast_to_void_ptr<Val>(nullptr) == nullptr, "cast_to_void_ptr of a null pointer");
        Child c(1, 2);
        Other o(1);
        check(can_cast<Child, Parent>(c) && !can_cast<Child, Parent>(o) && can_cast<Other, Parent>(o), "can_cast");

        at("letters");
        std::string t;
        for (unsigned k = rng.below(12); k; --k) t += char(rng.below(256));
        for (int up = 0; up < 2; ++up)
        {
            std::string w = t, g = t;
            for (char& ch : w) if (up ? (ch >= 'a' && ch <= 'z') : (ch >= 'A' && ch <= 'Z')) ch = char(up ? ch - 32 : ch + 32);
            if (up) to_uppercase(g); else to_lowercase(g);
            check(g == w, cat(show(t), " in ", up ? "upper" : "lower", " case is ", show(g)));
        }

        at("file access");
        int mode = int(rng.below(8));
        chmod(file.c_str(), mode_t(0777 & (rng.below(8) * 0111)));
        std::string path = rng.below(4) == 0 ? file + "_absent" : file;
        check(is_file_accessible(path.c_str(), FileAccessMode(mode)) == (access(path.c_str(), mode) == 0), cat("is_file_accessible with mode ", mode));
        int x = int(rng.below(8)), y = int(rng.below(8));
        check(int(FileAccessMode(x) | FileAccessMode(y)) == (x | y) && int(FileAccessMode(x) & FileAccessMode(y)) == (x & y), cat("FileAccessMode ", x, " and ", y));
        sample(cat("sets ", pretty(a), " ", pretty(b), " text ", show(t)));
        if (fails > 5) break;
    } while (more());
    unlink(file.c_str());
    rmdir(dir);
    return finish();
}
