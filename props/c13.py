"""C13: builders and generated enumerations."""
from .common import *
from .monitor import method

SIZES = (1, 2, 3, 5, 11, 18)
PROGS = {"main": '''#include <functional>
#include <string>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(); OpVal& operator=(const OpVal&); bool operator<(const OpVal&) const; int x; };
} namespace utils {
template class Builder<std::string, eprosima::vp::OpVal>;
template class EnumBuilder<eprosima::vp::OpVal>;
using Bu = EnumBuilder<eprosima::vp::OpVal>;
Bu vp_keys(const std::map<std::string, eprosima::vp::OpVal>& m) { return Bu(m); }
Bu vp_values(const std::map<eprosima::vp::OpVal, std::set<std::string>>& m) { return Bu(m); }
} }
''', "macro": '''#include <string>
#include <vector>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
namespace eprosima { namespace utils {
%s
} }
''' % "\n".join("ENUMERATION_BUILDER(Vp%d, %s);\nstd::ostream& vp_print%d(std::ostream& os, const Vp%d& e) { return os << e; }" %
                (k, ", ".join("%s%d" % (w, i) for i in range(k)), k, k)
                for k, w in zip(SIZES, ("lone", "pair", "third", "fifth", "e", "name")))}
NAMES = {k: ["%s%d" % (w, i) for i in range(k)] for k, w in zip(SIZES, ("lone", "pair", "third", "fifth", "e", "name"))}
DRIVER = {"src": "c13.cpp", "repo": ["cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["enumerators of a builder are an opaque ordered type", "generated enumerations are instantiated with %s enumerators" %
               ", ".join(map(str, SIZES))]
V = T("eprosima::vp::OpVal")
BU = parse_type("eprosima::utils::EnumBuilder<eprosima::vp::OpVal>")
MAPKV = parse_type("std::map<std::string, eprosima::vp::OpVal>")
MAPVS = parse_type("std::map<eprosima::vp::OpVal, std::set<std::string>>")


def sets(e):
    """elements of a set that is a value of a map"""
    ss = e.sort_of(MAPVS.args[1])
    return ss, z3.Function("elements", ss, z3.ArraySort(z3.StringSort(), z3.BoolSort())), z3.Function("size", ss, z3.IntSort())


class Ext:
    def __init__(self, e):
        self.e = e

    def method(self, base, o, name, argn, n, bt):
        e = self.e
        if isinstance(o, z3.ExprRef) and bt.name == "std::set":
            ss, dom, size = sets(e)
            if o.sort() != ss:
                return None
            known = e.path_state.setdefault("known_sets", [])
            for t, v in known:
                if z3.eq(t, o):
                    break
            else:
                v = TempLV(SetV(dom(o), size(o), S), MAPVS.args[1])
                e.lib.wf_assoc(v.v)
                known.append((o, v))
            return e.lib.assoc_method(v, v.v, name, argn, n)


def setup(e):
    e.lib.ext.append(Ext(e))

    def inv(ctx):
        m = e.path_state.get("values_to_keys")
        if m is None:
            return
        ss, dom, size = sets(e)
        k, v = z3.String("k!q"), z3.Const("v!q", e.sort_of(V))
        for r in ctx.kind(MapV, True):
            if r.v.dom.sort().domain() != z3.StringSort():
                continue
            yield r.label + ": what is there was registered", z3.ForAll([k], z3.Implies(r.v.has(k), z3.And(
                m.has(r.v.select(k)), z3.Select(dom(m.select(r.v.select(k))), k))), patterns=[r.v.has(k)])
            for it in ctx.iters(True):
                en = it.v.enum
                if en is None:
                    continue
                if isinstance(en[2], MapV):
                    yield "%s in %s: values seen" % (it.label, r.label), z3.ForAll([k, v], z3.Implies(z3.And(
                        m.has(v), en[1](v) < it.v.pos, z3.Select(dom(m.select(v)), k)), r.v.has(k)),
                        patterns=[z3.MultiPattern(en[1](v), z3.Select(dom(m.select(v)), k))])
                else:
                    yield "%s in %s: keys seen" % (it.label, r.label), z3.ForAll([k], z3.Implies(z3.And(
                        en[2].has(k), en[1](k) < it.v.pos), r.v.has(k)), patterns=[r.v.has(k)])
            for it in ctx.iters(False):
                en = it.v.enum
                if en is not None and isinstance(en[2], MapV):
                    yield "%s in %s: values seen before" % (it.label, r.label), z3.ForAll([k, v], z3.Implies(z3.And(
                        m.has(v), en[1](v) < it.v.pos, z3.Select(dom(m.select(v)), k)), r.v.has(k)),
                        patterns=[z3.MultiPattern(en[1](v), z3.Select(dom(m.select(v)), k))])
    e.invariants.append(inv)


def table(e, o):
    m = [c.v for c in o.byname.values() if isinstance(c.v, MapV)]
    if len(m) != 1:
        raise Unsupported("the builder has not one map")
    return m[0]


def same(e, a, b):
    k = z3.String("k!q")
    return z3.And(z3.ForAll([k], a.has(k) == b.has(k)), z3.ForAll([k], z3.Implies(b.has(k), a.select(k) == b.select(k))))


def registered(e, r, m):
    """r is what m registers"""
    ss, dom, size = sets(e)
    k, v = z3.String("anykey"), z3.Const("anyvalue", e.sort_of(V))
    e.prove("every key found is registered for the enumerator found", z3.Implies(r.has(k), z3.And(
        m.has(r.select(k)), z3.Select(dom(m.select(r.select(k))), k))))
    e.prove("every registered key is found", z3.Implies(z3.And(m.has(v), z3.Select(dom(m.select(v)), k)), r.has(k)))


def keys(how):
    def unit(e):
        m = e.sym(MAPKV, "keys_to_values")
        c = arg(e, MAPKV, m)
        if how == "construction":
            o = rvalue(run(e, fn(e, "vp_keys"), [c]))
        else:
            o = e.sym_obj(e.prog.record(BU), "builder")
            run(e, base_method(e, "refactor_values", lambda d: "set<" not in qualtype(params_of(d)[0])), [c], this=o)
        e.cover("made")
        e.prove("the keys are those given, with their enumerators", same(e, table(e, o), m))
    return unit


def base_method(e, name, pred=None):
    rec = e.prog.record(parse_type("eprosima::utils::Builder<std::string, eprosima::vp::OpVal>"))
    return method(e, rec, name, 1, pred)


def values(how):
    def unit(e):
        m = e.sym(MAPVS, "values_to_keys")
        e.path_state["values_to_keys"] = m
        c = arg(e, MAPVS, m)
        if how == "construction":
            o = rvalue(run(e, fn(e, "vp_values"), [c]))
        else:
            o = e.sym_obj(e.prog.record(BU), "builder")
            run(e, base_method(e, "refactor_values", lambda d: "set<" in qualtype(params_of(d)[0])), [c], this=o)
        e.cover("made")
        registered(e, table(e, o), m)
    return unit


def finds(name):
    def unit(e):
        o = e.sym_obj(e.prog.record(BU), "builder")
        m = table(e, o)
        k = e.sym(S, "key")
        witness(e, key=k)
        rec = e.prog.record(BU)
        out = arg(e, V, e.sym(V, "out"), "out")
        was = out.v
        r = rvalue(run(e, method(e, rec, name, 2), [arg(e, S, k), out], this=o))
        e.cover("looked up")
        e.prove("found exactly when registered", r == m.has(k))
        e.prove("the enumerator registered, or nothing changes", out.v == z3.If(m.has(k), m.select(k), was))
        e.prove("looking up changes nothing", same(e, table(e, o), m))
        try:
            v = rvalue(run(e, method(e, rec, name, 1), [arg(e, S, k)], this=o, throws=True))
        except CppThrow as x:
            e.cover("absent")
            e.prove("refused only when not registered", z3.Not(m.has(k)))
            e.prove("refused with ValueNotAllowedException", z3.BoolVal(x.t.name == U + "ValueNotAllowedException"))
            raise PathEnd()
        e.cover("found")
        e.prove("found: is registered", m.has(k))
        e.prove("found: the enumerator registered", v == m.select(k))
    return unit


def generated(k):
    def unit(e):
        names = NAMES[k]
        nm = "Vp%d" % k
        en = T(U + nm)

        v = e.sym(en, "enumerator")
        e.assume(z3.And(v >= 0, v < k))
        witness(e, enumerator=v)
        name = sv(names[-1])
        for i in range(k - 2, -1, -1):
            name = z3.If(v == i, sv(names[i]), name)
        e.prove("to_string: the name of the enumerator", rvalue(run(e, pick(e, "to_string", nm), [arg(e, en, v)])) == name)
        os = arg(e, T("std::ostringstream"), StreamV(sv("")), "os")
        run(e, fn(e, "vp_print%d" % k), [os, arg(e, en, v)])
        e.prove("<<: the name of the enumerator", os.v.s == name)
        s = e.sym(S, "text")
        witness(e, text=s)
        i = z3.IntVal(-1)
        for j in range(k):
            i = z3.If(s == sv(names[j]), j, i)
        out = arg(e, en, e.sym(en, "out"), "out")
        was = out.v
        r = rvalue(run(e, pick(e, "string_to_enumeration", nm), [arg(e, S, s), out]))
        e.cover("looked up")
        e.prove("string_to_enumeration: a name of an enumerator, nothing else", r == (i >= 0))
        e.prove("string_to_enumeration: the enumerator of that name", out.v == z3.If(i >= 0, i, was))
        try:
            x = rvalue(run(e, fn(e, "from_string_" + nm), [arg(e, S, s)], throws=True))
        except CppThrow as t:
            e.cover("refused")
            e.prove("from_string: only what is no name is refused", i < 0)
            e.prove("from_string: refused with InitializationException", z3.BoolVal(t.t.name == U + "InitializationException"))
            raise PathEnd()
        e.cover("accepted")
        e.prove("from_string: the enumerator of that name", z3.And(i >= 0, x == i))
    return unit


def tables(k):
    def unit(e):
        nm = "Vp%d" % k
        vs = rvalue(run(e, fn(e, "string_vector_" + nm), []))
        al = rvalue(run(e, fn(e, "all_values_" + nm), []))
        if vs.items is None or al.items is None:
            raise Unsupported("the tables are not known sequences")
        e.cover("tables")
        e.prove("the vector of names: every name once, in order", z3.And(z3.BoolVal(len(vs.items) == k), *[
            a == sv(b) for a, b in zip(vs.items, NAMES[k])]))
        e.prove("all values: every enumerator once, in order", z3.And(z3.BoolVal(len(al.items) == k), *[
            a == b for b, a in enumerate(al.items)]))
    return unit


def pick(e, name, nm):
    c = e.prog.find(U + name, lambda d: any(typeof(p).noref().name.split("::")[-1] == nm for p in params_of(d)))
    if len(c) != 1:
        raise Unsupported("%d definitions of %s for %s" % (len(c), name, nm))
    return c[0]


UNITS = [Unit("from keys: construction", keys("construction"), setup), Unit("from keys: refactor_values", keys("refactor"), setup),
         Unit("from values: construction", values("construction"), setup), Unit("from values: refactor_values", values("refactor"), setup),
         Unit("string_to_enumeration of a builder", finds("string_to_enumeration"), setup)] + \
        [Unit("enumeration of %d" % k, generated(k), prog="macro") for k in SIZES] + \
        [Unit("tables of an enumeration of %d" % k, tables(k), prog="macro") for k in SIZES]
