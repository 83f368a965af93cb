"""C12: fuzzy values."""
from .common import *
from .monitor import method

PROGS = {"main": '''#include <sstream>
#include <string>
#include <utility>
#include <cpp_utils/types/Fuzzy.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(); bool operator==(const OpVal&) const; int x; };
} namespace utils {
template class Fuzzy<eprosima::vp::OpVal>;
#define V eprosima::vp::OpVal
Fuzzy<V> vp_new() { return Fuzzy<V>(); }
Fuzzy<V> vp_value(const V& v) { return Fuzzy<V>(v); }
Fuzzy<V> vp_moved(V& v) { return Fuzzy<V>(std::move(v)); }
Fuzzy<V> vp_level(const V& v, FuzzyLevelType l) { return Fuzzy<V>(v, l); }
Fuzzy<V> vp_moved_level(V& v, FuzzyLevelType l) { return Fuzzy<V>(std::move(v), l); }
Fuzzy<V> vp_copy(const Fuzzy<V>& f) { return Fuzzy<V>(f); }
Fuzzy<V> vp_move(Fuzzy<V>& f) { return Fuzzy<V>(std::move(f)); }
void vp_assign(Fuzzy<V>& a, const Fuzzy<V>& b) { a = b; }
void vp_move_assign(Fuzzy<V>& a, Fuzzy<V>& b) { a = std::move(b); }
void vp_assign_value(Fuzzy<V>& a, const V& v) { a = v; }
void vp_set(Fuzzy<V>& a, const V& v) { a.set_value(v); }
void vp_set_level(Fuzzy<V>& a) { a.set_level(); }
void vp_write(Fuzzy<V>& a, const V& v) { static_cast<V&>(a) = v; }
bool vp_eq(const Fuzzy<V>& a, const Fuzzy<V>& b) { return a == b; }
bool vp_ne(const Fuzzy<V>& a, const Fuzzy<V>& b) { return a != b; }
bool vp_eqv(const Fuzzy<V>& a, const V& b) { return a == b; }
bool vp_nev(const Fuzzy<V>& a, const V& b) { return a != b; }
V vp_get(const Fuzzy<V>& a) { return a.operator V(); }
void vp_print(std::ostream& os, const Fuzzy<std::string>& f) { os << f; }
} }
'''}
DRIVER = {"src": "c12.cpp", "repo": []}
ASSUMPTIONS = ["the stored type is opaque: copies are equal to what was copied, its operator== is an arbitrary relation"]
V = T("eprosima::vp::OpVal")
FZ = parse_type("eprosima::utils::Fuzzy<eprosima::vp::OpVal>")
FS = parse_type("eprosima::utils::Fuzzy<std::string>")
LV_T = T("short")
UNSET, DEFAULT, FUZZY, SET, HARD = -20, 0, 20, 40, 60


class Ext:
    def __init__(self, e):
        self.e = e
        v = e.sort_of(V)
        self.eq = z3.Function("value_eq", v, v, z3.BoolSort())

    def opaque_op(self, name, base, o, args, n):
        if name in ("operator==", "operator!="):
            r = self.eq(o, rvalue(args[0]))
            return r if name == "operator==" else z3.Not(r)

    def moved_from(self, v):
        if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            return self.e.fresh("moved", v.sort())


def setup(e):
    x = Ext(e)
    e.lib.ext.append(x)
    e.value_eq = x.eq


def parts(e, o):
    v = [c for c in o.byname.values() if c.t.name in (V.name, "std::string")]
    l = [c for c in o.byname.values() if c.t.name == "short"]
    if len(v) != 1 or len(l) != 1:
        raise Unsupported("not one value and one level")
    return v[0].v, l[0].v


def fz(e, name, t=FZ):
    o = e.sym_obj(e.prog.record(t), name)
    return o, *parts(e, o)


def made(name, level):
    def unit(e):
        v = e.sym(V, "value")
        l = e.sym(LV_T, "level")
        c = arg(e, V, v, "value")
        args = [] if name == "vp_new" else [c] + ([arg(e, LV_T, l, "level")] if level == "given" else [])
        o = rvalue(run(e, fn(e, name), args))
        e.cover("made")
        w, k = parts(e, o)
        if name != "vp_new":
            e.prove("it has the value given", w == v)
        e.prove("its level is %s" % level, k == (l if level == "given" else level))
        if name in ("vp_value", "vp_level"):
            e.prove("the value given is kept", c.v == v)
    return unit


def copied(name):
    def unit(e):
        a, v, l = fz(e, "a")
        r = rvalue(run(e, fn(e, name), [a]))
        e.cover("copied")
        e.prove("value and level of the original", z3.And(parts(e, r)[0] == v, parts(e, r)[1] == l))
        if name == "vp_copy":
            e.prove("the original is kept", z3.And(parts(e, a)[0] == v, parts(e, a)[1] == l))
    return unit


def assigned(name):
    def unit(e):
        a, v, l = fz(e, "a")
        b, w, k = fz(e, "b")
        run(e, fn(e, name), [a, b])
        e.cover("assigned")
        e.prove("value and level of the other", z3.And(parts(e, a)[0] == w, parts(e, a)[1] == k))
        if name == "vp_assign":
            e.prove("the other is kept", z3.And(parts(e, b)[0] == w, parts(e, b)[1] == k))
    return unit


def changes(e):
    for nm, args, val, lev in (("vp_assign_value", 1, True, SET), ("vp_set", 1, True, SET), ("vp_set_level", 0, False, SET),
                               ("vp_write", 1, True, None), ("unset", 0, False, UNSET), ("set_value", 2, True, "l"), ("set_level", 1, False, "l")):
        a, v, l = fz(e, "a_" + nm)
        w, k = e.sym(V, "value"), e.sym(LV_T, "level")
        if nm.startswith("vp_"):
            run(e, fn(e, nm), [a] + [arg(e, V, w)] * args)
        else:
            ps = [arg(e, V, w), arg(e, LV_T, k)] if args == 2 else [arg(e, LV_T, k)] if args else []
            run(e, method(e, e.prog.record(FZ), nm, args), ps, this=a)
        x, m = parts(e, a)
        e.prove(nm + ": value", x == (w if val else v))
        e.prove(nm + ": level", m == (l if lev is None else k if lev == "l" else lev))
    e.cover("changed")


def compares(e):
    a, v, l = fz(e, "a")
    b, w, k = fz(e, "b")
    x = e.sym(V, "x")
    eq = e.value_eq
    want = z3.If(z3.And(l < FUZZY, k < FUZZY), True, z3.And(l == k, eq(v, w)))
    e.prove("fuzzies are equal when both are not set, or both level and value are", rvalue(run(e, fn(e, "vp_eq"), [a, b])) == want)
    e.prove("!= is the opposite", rvalue(run(e, fn(e, "vp_ne"), [a, b])) == z3.Not(want))
    wantv = z3.And(l >= DEFAULT, eq(v, x))
    e.prove("a value is equal to a valid fuzzy that has it", rvalue(run(e, fn(e, "vp_eqv"), [a, arg(e, V, x)])) == wantv)
    e.prove("!= of a value is the opposite", rvalue(run(e, fn(e, "vp_nev"), [a, arg(e, V, x)])) == z3.Not(wantv))
    e.cover("compared")
    for o, y, z in ((a, v, l), (b, w, k)):
        e.prove("comparing changes nothing", z3.And(parts(e, o)[0] == y, parts(e, o)[1] == z))


def reads(e):
    a, v, l = fz(e, "a")
    rec = e.prog.record(FZ)
    for nm, want in (("is_valid", l >= DEFAULT), ("is_set", l >= FUZZY), ("get_level", l), ("get_value", v)):
        e.prove(nm, rvalue(run(e, method(e, rec, nm, 0), [], this=a)) == want)
    e.prove("conversion: the value", rvalue(run(e, fn(e, "vp_get"), [a])) == v)
    cell = [c for c in a.byname.values() if c.t.name == V.name][0]
    for q in (True, False):
        r = run(e, method(e, rec, "get_reference", 0, lambda d: qualtype(d).endswith("const noexcept") == q), [], this=a)
        e.prove("get_reference: of the value itself", z3.BoolVal(isinstance(r, LV) and r.root() is cell))
        r = rvalue(run(e, method(e, rec, "operator->", 0, lambda d: qualtype(d).endswith("const noexcept") == q), [], this=a))
        e.prove("operator->: the value itself", z3.BoolVal(isinstance(r, Ptr) and r.target is cell))
    e.cover("read")
    s = rvalue(run(e, method(e, rec, "get_level_as_str", 0), [], this=a))
    name = sv("")
    for n, t in ((UNSET, "UNSET"), (DEFAULT, "DEFAULT"), (FUZZY, "FUZZY"), (SET, "SET"), (HARD, "HARD")):
        name = z3.If(l == n, sv(t), name)
    e.prove("get_level_as_str: the name of the level, if it has one", s == name)
    e.prove("reading changes nothing", z3.And(parts(e, a)[0] == v, parts(e, a)[1] == l))


def prints(e):
    a, v, l = fz(e, "a", FS)
    c = arg(e, T("std::ostringstream"), StreamV(z3.StringVal("")), "os")
    run(e, fn(e, "vp_print"), [c, a])
    e.cover("printed")
    name = sv("")
    for n, t in ((UNSET, "UNSET"), (DEFAULT, "DEFAULT"), (FUZZY, "FUZZY"), (SET, "SET"), (HARD, "HARD")):
        name = z3.If(l == n, sv(t), name)
    e.prove("printed as its level and its value", c.v.s == z3.Concat(sv("Fuzzy{Level("), name, sv(") "), v, sv("}")))


UNITS = [Unit("default construction", made("vp_new", DEFAULT), setup), Unit("construction from a value", made("vp_value", SET), setup),
         Unit("construction from a moved value", made("vp_moved", SET), setup),
         Unit("construction with a level", made("vp_level", "given"), setup),
         Unit("construction with a level, moving", made("vp_moved_level", "given"), setup),
         Unit("copy", copied("vp_copy"), setup), Unit("move", copied("vp_move"), setup),
         Unit("assignment", assigned("vp_assign"), setup), Unit("move assignment", assigned("vp_move_assign"), setup),
         Unit("changes", changes, setup), Unit("comparison", compares, setup), Unit("reading", reads, setup), Unit("printing", prints, setup)]
