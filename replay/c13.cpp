#include "vp.hpp"
#include <algorithm>
#include <set>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
using namespace vp;
namespace eprosima { namespace utils {
ENUMERATION_BUILDER(E1, lone);
ENUMERATION_BUILDER(E2, a, aa);
ENUMERATION_BUILDER(E3, Apple, apple, APPLE);
ENUMERATION_BUILDER(E9, n1, n2, n3, n4, n5, n6, n7, n8, n9);
ENUMERATION_BUILDER(E10, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10);
ENUMERATION_BUILDER(E18, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17);
} }
using namespace eprosima::utils;

static std::string near(const std::string& s)
{
    std::string t = s;
    switch (rng.below(7))
    {
        case 0: t += "x"; break;
        case 1: if (!t.empty()) t.pop_back(); break;
        case 2: if (!t.empty()) t[rng.below(t.size())] ^= 32; break;
        case 3: t = " " + t; break;
        case 4: t += t; break;
        case 5: if (!t.empty()) t[rng.below(t.size())] = char(rng.below(256)); break;
        default: t += std::string(1, '\0');
    }
    return t;
}

template <class E, class F, class V>
static void generated(const char* what, const std::vector<std::string>& names, F from, V all)
{
    std::string w = what;
    check(all.size() == names.size(), w + cat(": ", all.size(), " values"));
    for (size_t i = 0; i < names.size(); ++i)
    {
        E e = static_cast<E>(i);
        at(w + cat(": to_string(", i, ")"));
        check(to_string(e) == names[i], w + cat(": to_string of enumerator ", i, " is ", show(to_string(e))));
        std::ostringstream os;
        os << e;
        check(os.str() == names[i], w + cat(": << of enumerator ", i, " is ", show(os.str())));
        check(all[i] == e, w + cat(": value ", i, " of all values"));
    }
    std::vector<std::string> texts(names);
    texts.push_back("");
    for (int r = 0; r < 60; ++r) texts.push_back(near(names[rng.below(names.size())]));
    for (auto& s : texts)
    {
        at(w + ": " + show(s));
        auto it = std::find(names.begin(), names.end(), s);
        E e = static_cast<E>(names.size() - 1), was = e;
        bool ok = string_to_enumeration(s, e);
        check(ok == (it != names.end()), w + ": string_to_enumeration(" + show(s) + cat(") is ", ok));
        check(e == (ok ? static_cast<E>(it - names.begin()) : was), w + ": string_to_enumeration(" + show(s) + ") gives another enumerator");
        try { E f = from(s); check(it != names.end() && f == static_cast<E>(it - names.begin()), w + ": from_string(" + show(s) + ")"); }
        catch (const InitializationException&) { check(it == names.end(), w + ": from_string(" + show(s) + ") throws"); }
    }
}

static std::vector<std::string> numbered(const std::string& p, int a, int b)
{
    std::vector<std::string> r;
    for (int i = a; i <= b; ++i) r.push_back(p + cat(i));
    return r;
}

enum class Col { red, green, blue, grey };
typedef EnumBuilder<Col> ColBuilder;

static void look(const ColBuilder& b, const std::map<std::string, Col>& want, const std::string& w)
{
    std::vector<std::string> texts{"", "red"};
    for (auto& x : want) { texts.push_back(x.first); texts.push_back(near(x.first)); }
    for (auto& s : texts)
    {
        at(w + " " + show(s));
        auto it = want.find(s);
        Col c = Col::grey;
        bool ok = b.string_to_enumeration(s, c);
        check(ok == (it != want.end()), w + ": " + show(s) + cat(" found: ", ok));
        check(c == (it != want.end() ? it->second : Col::grey), w + ": " + show(s) + " gives another enumerator");
        try { Col d = b.string_to_enumeration(s); check(it != want.end() && d == it->second, w + ": " + show(s) + " gives another enumerator"); }
        catch (const ValueNotAllowedException&) { check(it == want.end(), w + ": " + show(s) + " throws"); }
    }
}

static void builders()
{
    std::map<std::string, Col> keys;
    std::map<Col, std::set<std::string>> vals;
    int n = rng.below(8);
    for (int i = 0; i < n; ++i)
    {
        std::string s;
        for (int k = rng.below(4); k > 0; --k) s += char('a' + rng.below(3));
        keys.emplace(s, static_cast<Col>(rng.below(4)));
    }
    for (auto& x : keys) vals[x.second].insert(x.first);
    if (rng.flip()) vals[Col::blue];
    look(ColBuilder(keys), keys, "builder of keys");
    look(ColBuilder(vals), keys, "builder of values");
    ColBuilder b(std::map<std::string, Col>{{"old", Col::red}, {"a", Col::blue}});
    b.refactor_values(keys);
    look(b, keys, "builder refactored with keys");
    ColBuilder c(std::map<std::string, Col>{{"old", Col::red}, {"a", Col::blue}});
    c.refactor_values(vals);
    look(c, keys, "builder refactored with values");
}

int main()
{
    start();
    sample("enumerations of 1, 2, 3, 9, 10 and 18 enumerators with their names and texts near them; builders of random keys");
    do
    {
        generated<E1>("E1", {"lone"}, from_string_E1, VALUES_E1);
        generated<E2>("E2", {"a", "aa"}, from_string_E2, VALUES_E2);
        generated<E3>("E3", {"Apple", "apple", "APPLE"}, from_string_E3, VALUES_E3);
        generated<E9>("E9", numbered("n", 1, 9), from_string_E9, VALUES_E9);
        generated<E10>("E10", numbered("n", 1, 10), from_string_E10, VALUES_E10);
        generated<E18>("E18", numbered("v", 0, 17), from_string_E18, VALUES_E18);
        check(N_VALUES_E18 == 18 && N_VALUES_E1 == 1 && string_vector_E3() == std::vector<std::string>({"Apple", "apple", "APPLE"}), "tables");
        for (int i = 0; i < 100; ++i) builders();
    }
    while (more());
    return finish();
}
