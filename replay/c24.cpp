// C24: several Heritable over objects of a class and its children, against the object that each must have.
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <typeinfo>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/memory/Heritable.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;

static std::map<const void*, int> alive;
struct Base
{
    int v;
    Base(int v) : v(v) { alive[this] = 1; }
    Base(const Base& o) : v(o.v) { alive[this] = 1; }
    virtual ~Base() { alive.erase(this); }
    virtual int kind() const { return 0; }
    bool operator ==(const Base& o) const { return kind() == o.kind() && v == o.v; }
    bool operator <(const Base& o) const { return kind() != o.kind() ? kind() < o.kind() : v < o.v; }
};
struct Child : public Base { using Base::Base; int more = 7; int kind() const override { return 1; } };
struct GrandChild : public Child { using Child::Child; int kind() const override { return 2; } };
struct Other : public Base { using Base::Base; int kind() const override { return 3; } };
static std::ostream& operator <<(std::ostream& os, const Base& b) { return os << b.kind() << ":" << b.v; }
using H = Heritable<Base>;

static Base* object()
{
    int v = int(rng.below(3));
    switch (rng.below(4))
    {
        case 0: return new Base(v);
        case 1: return new Child(v);
        case 2: return new GrandChild(v);
        default: return new Other(v);
    }
}

template <class T> static bool dyn(const H& h, const Base* b)
{
    bool can = h.can_cast<T>(), is = dynamic_cast<const T*>(b) != nullptr;
    check(can == is, cat("can_cast of an object of kind ", b->kind(), " is ", can));
    try { T& t = h.dyn_cast<T>(); check(is && &t == b, "dyn_cast gives another object"); }
    catch (const std::bad_cast&) { check(!is, cat("dyn_cast refused for kind ", b->kind())); }
    return can;
}

int main(int argc, char** argv)
{
    start(argc, argv);
    do
    {
        {
            std::vector<std::unique_ptr<H>> h;
            std::vector<Base*> own;
            std::string w;
            auto add = [&](H* x, Base* b) { h.emplace_back(x); own.push_back(b); };
            for (int step = 0; step < 20; ++step)
            {
                size_t i = h.empty() ? 0 : rng.below(h.size()), j = h.empty() ? 0 : rng.below(h.size());
                unsigned op = h.empty() ? 0 : rng.below(10);
                w += cat(op, "(", i, ",", j, ") ");
                at(w);
                switch (op)
                {
                    case 0: { Base* b = object(); add(new H(b), b); break; }
                    case 1: { GrandChild* b = new GrandChild(5); add(new H(b), b); break; }
                    case 2: add(new H(*h[i]), own[i]); break;
                    case 3: { H c(*h[i]); add(new H(std::move(c)), own[i]); break; }
                    case 4: { Child* b = new Child(1); Heritable<Child> c(b); add(new H(c), b); check(&c.get_reference() == b, w + "the child is lost"); break; }
                    case 5: { Child* b = new Child(2); add(new H(Heritable<Child>(b)), b); break; }
                    case 6: *h[i] = *h[j]; own[i] = own[j]; break;
                    case 7: { H c(*h[j]); *h[i] = std::move(c); own[i] = own[j]; break; }
                    case 8: { H c = H::make_heritable(int(rng.below(3))); Base* b = &*c; check(b->kind() == 0, w + "made of another class"); add(new H(c), b); break; }
                    default: h.erase(h.begin() + i); own.erase(own.begin() + i); break;
                }
                for (size_t a = 0; a < h.size(); ++a)
                {
                    const H& x = *h[a];
                    check(&x.get_reference() == own[a] && &*x == own[a] && x.operator ->() == own[a], w + cat(a, " has another object"));
                    check(alive.count(own[a]), w + cat(a, ": its object was destroyed"));
                    if (fails) { return finish(); }
                    std::ostringstream os, want;
                    os << x;
                    want << "{" << *own[a] << "}";
                    check(os.str() == want.str(), w + "printed as " + os.str());
                    dyn<Child>(x, own[a]); dyn<GrandChild>(x, own[a]); dyn<Other>(x, own[a]); dyn<Base>(x, own[a]);
                    for (size_t b = 0; b < h.size(); ++b)
                    {
                        const H& y = *h[b];
                        check((x == y) == (*own[a] == *own[b]) && (x == *own[b]) == (*own[a] == *own[b]), w + "operator==");
                        check((x < y) == (*own[a] < *own[b]) && (x < *own[b]) == (*own[a] < *own[b]), w + "operator<");
                    }
                }
                std::set<Base*> distinct(own.begin(), own.end());
                check(alive.size() == distinct.size(), w + cat(alive.size(), " objects alive for ", distinct.size(), " held"));
            }
            sample(w);
        }
        check(alive.empty(), "objects not destroyed");
    } while (more());
    return finish();
}
