"""C24: objects of a class or of any of its children, by value."""
from .common import *
from .monitor import method
from vc.stdlib import SharedV, StreamV

PROGS = {"main": '''#include <ostream>
#include <sstream>
#include <typeinfo>
#include <utility>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/memory/Heritable.hpp>
namespace eprosima { namespace vp {
struct OpBase { OpBase(const OpBase&); virtual ~OpBase(); bool operator==(const OpBase&) const; bool operator<(const OpBase&) const; int x; };
std::ostream& operator<<(std::ostream&, const OpBase&);
struct OpDerived : public OpBase { OpDerived(const OpBase&); };
} namespace utils {
using B = eprosima::vp::OpBase;
using D = eprosima::vp::OpDerived;
template class Heritable<eprosima::vp::OpBase>;
Heritable<eprosima::vp::OpBase>* vp_own(eprosima::vp::OpBase* p) { return new Heritable<eprosima::vp::OpBase>(p); }
Heritable<eprosima::vp::OpBase>* vp_own_child(eprosima::vp::OpDerived* p) { return new Heritable<eprosima::vp::OpBase>(p); }
Heritable<eprosima::vp::OpBase>* vp_copy(const Heritable<eprosima::vp::OpBase>& h) { return new Heritable<eprosima::vp::OpBase>(h); }
Heritable<eprosima::vp::OpBase>* vp_move(Heritable<eprosima::vp::OpBase>&& h) { return new Heritable<eprosima::vp::OpBase>(std::move(h)); }
Heritable<eprosima::vp::OpBase>* vp_copy_child(const Heritable<eprosima::vp::OpDerived>& h) { return new Heritable<eprosima::vp::OpBase>(h); }
Heritable<eprosima::vp::OpBase>* vp_move_child(Heritable<eprosima::vp::OpDerived>&& h) { return new Heritable<eprosima::vp::OpBase>(std::move(h)); }
Heritable<eprosima::vp::OpBase> vp_make(const eprosima::vp::OpBase& b) { return Heritable<eprosima::vp::OpBase>::make_heritable(b); }
std::ostream& vp_print(std::ostream& os, const Heritable<eprosima::vp::OpBase>& h) { return os << h; }
bool vp_can(const Heritable<eprosima::vp::OpBase>& h) { return h.can_cast<eprosima::vp::OpDerived>(); }
eprosima::vp::OpDerived& vp_dyn(const Heritable<eprosima::vp::OpBase>& h) { return h.dyn_cast<eprosima::vp::OpDerived>(); }
} }
'''}
DRIVER = {"src": "c24.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
          "repo": ["cpp_utils/src/cpp/Formatter.cpp", "cpp_utils/src/cpp/exception/Exception.cpp"]}
ASSUMPTIONS = ["the classes and their comparisons are opaque; the base class has a virtual destructor",
               "a Heritable that was moved from, or made from no object, is not used"]
B, D = T("eprosima::vp::OpBase"), T("eprosima::vp::OpDerived")
H = lambda t: parse_type(U + "Heritable<%s>" % t.name)


class Objects:
    def __init__(self, e):
        self.e = e
        self.eq = z3.Function("EQ", e.sort_of(B), e.sort_of(B), z3.BoolSort())
        self.lt = z3.Function("LT", e.sort_of(B), e.sort_of(B), z3.BoolSort())

        self.text = z3.Function("TEXT", e.sort_of(B), z3.StringSort())

    def opaque_op(self, name, base, o, args, n):
        a = [rvalue(x) for x in args]
        if o.sort() == self.e.sort_of(B) and len(a) == 1 and isinstance(a[0], z3.ExprRef) and a[0].sort() == o.sort():
            if name in ("operator==", "operator!="):
                r = self.eq(o, a[0])
                return r if name == "operator==" else z3.Not(r)
            if name == "operator<":
                return self.lt(o, a[0])

    def dynamic_cast(self, v, t, n):
        e = self.e
        is_ = e.path_state["child"]
        e.lib.note("dynamic_cast gives the same object if it is of that class; otherwise a null pointer, or bad_cast for a reference")
        p = rvalue(v)
        if t.ptr or isinstance(p, Ptr):
            return Ptr(p.target, z3.Or(p.null, z3.Not(is_)), p.ident)
        if e.branch(z3.Not(is_), n):
            e.lib.throw_std("bad_cast")
        return v


def setup(e):
    e.lib.ext.append(Objects(e))

    def out(e, d, this, args, node):
        os, v = rvalue(args[0]), StreamV.__new__(StreamV)
        v.__dict__.update(os.__dict__)
        v.s = z3.Concat(os.s, ops(e).text(rvalue(args[1])))
        args[0].set(v)
        return args[0]
    e.contracts["eprosima::vp::operator<<"] = Contract(out)


def ops(e):
    return [x for x in e.lib.ext if isinstance(x, Objects)][0]


def start(e, cls=B, name="h"):
    """a Heritable with an object"""
    o = e.sym_obj(e.prog.record(H(cls)), name)
    ps = [c for c in o.byname.values() if c.t.noref().name in ("std::shared_ptr", "std::unique_ptr")]
    if len(ps) != 1:
        raise Unsupported("the pointer of a Heritable")
    x = Cell(e, cls, e.fresh(name + "_object", e.sort_of(B)), name + "/object", name=name + "_object")
    ps[0].set(SharedV("shared", x, z3.BoolVal(False)))
    e.path_state["child"] = e.fresh("child", z3.BoolSort())
    return o, ps[0], x


def pointer(e, o):
    o = o.target if isinstance(o, (Ptr, SharedV)) else o
    o = rvalue(o) if isinstance(o, LV) else o
    return [c for c in o.byname.values() if c.t.noref().name in ("std::shared_ptr", "std::unique_ptr")][0]


def same(e, what, p, x):
    """p points to the object x, and owns it"""
    v = rvalue(p)
    e.prove(what, z3.And(z3.Not(v.null), z3.BoolVal(v.target is x)))


def kept(e, what, x, v0):
    e.prove(what + ": the object is as it was", x.get() == v0)


def built(name, cls):
    def unit(e):
        x = Cell(e, cls, e.fresh("object", e.sort_of(B)), "object", name="object")
        v0 = x.get()
        e.path_state["child"] = e.fresh("child", z3.BoolSort())
        t = T(cls.name, ptr=1) if False else None
        f = fn(e, name)
        r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), Ptr(x), "p")]))
        e.cover("built")
        same(e, "it has the very object given", pointer(e, r), x)
        kept(e, "construction", x, v0)
    return unit


def copied(name, cls, moved):
    def unit(e):
        o, p, x = start(e, cls)
        v0 = x.get()
        r = rvalue(run(e, fn(e, name), [arg(e, H(cls), o, "other")]))
        e.cover("copied")
        same(e, "it has the same object", pointer(e, r), x)
        kept(e, "copy", x, v0)
        if not moved:
            same(e, "the other one keeps it", p, x)
    return unit


def assigned(kind, self_assign=False):
    def unit(e):
        o, p, x = start(e)
        q, pq, y = (o, p, x) if self_assign else start(e, name="other")
        v0, w0 = x.get(), y.get()
        f = [d for d in e.prog.record(H(B)).get("inner", []) if d.get("name") == "operator=" and
             qualtype(params_of(d)[0]).strip().endswith("&&") == (kind == "&&")]
        if len(f) != 1:
            raise Unsupported("%d assignments" % len(f))
        r = run(e, f[0], [arg(e, H(B), q, "other")], this=o)
        e.cover("assigned")
        same(e, "it has the object of the other", p, y)
        kept(e, "assignment", y, w0)
        kept(e, "assignment, of the old one", x, v0)
        if kind != "&&":
            same(e, "the other one keeps it", pq, y)
        e.prove("it gives itself", z3.BoolVal(r is o or rvalue(r) is o))
    return unit


def access(name):
    def unit(e):
        o, p, x = start(e)
        r = run(e, method(e, e.prog.record(H(B)), name, 0), [], this=o)
        if name == "operator->":
            r = rvalue(r)
            e.prove("its object", z3.And(z3.Not(r.null), z3.BoolVal(r.target is x)))
        else:
            e.prove("its object", z3.BoolVal(r is x or getattr(r, "lv", None) is x))
        e.cover("asked")
        same(e, "it keeps it", p, x)
    return unit


def compared(op, with_object):
    def unit(e):
        o, p, x = start(e)
        q, pq, y = start(e, name="other")
        k = "OpBase" if with_object else "Heritable"
        f = [d for d in e.prog.record(H(B)).get("inner", []) if d.get("name") == "operator" + op and
             typeof(params_of(d)[0]).noref().name.split("::")[-1] == k]
        if len(f) != 1:
            raise Unsupported("%d comparisons" % len(f))
        a = y if with_object else arg(e, H(B), q, "other")
        r = run(e, f[0], [a], this=o)
        e.cover("compared")
        X, Y = x.get(), y.get()
        w = ops(e)
        e.prove("the comparison of the objects", rvalue(r) == (w.eq(X, Y) if op == "==" else w.lt(X, Y)))
    return unit


def can(e):
    o, p, x = start(e)
    r = rvalue(run(e, fn(e, "vp_can"), [arg(e, H(B), o, "h")]))
    e.cover("asked")
    e.prove("whether the object is of that class", r == e.path_state["child"])
    same(e, "it keeps it", p, x)


def dyn(e):
    o, p, x = start(e)
    child = e.path_state["child"]
    try:
        r = run(e, fn(e, "vp_dyn"), [arg(e, H(B), o, "h")], throws=True)
    except CppThrow as t:
        e.cover("refused")
        e.prove("refused only if it is not of that class", z3.Not(child))
        e.prove("with bad_cast", z3.BoolVal(t.t.name == "std::bad_cast"))
        return
    e.cover("given")
    e.prove("given only if it is of that class", child)
    e.prove("the very object", z3.BoolVal(r is x or getattr(r, "lv", None) is x))


def make(e):
    v = e.fresh("value", e.sort_of(B))
    e.path_state["child"] = e.fresh("child", z3.BoolSort())
    r = rvalue(run(e, fn(e, "vp_make"), [arg(e, B, v, "value")]))
    e.cover("made")
    p = rvalue(pointer(e, r))
    e.prove("it has an object", z3.Not(p.null))
    e.prove("made of those arguments", rvalue(p.target) == v)


def printed(e):
    o, p, x = start(e)
    s0 = e.fresh("printed_before", z3.StringSort())
    os = Cell(e, T("std::ostream"), StreamV(s0), "arg/os", name="os")
    run(e, fn(e, "vp_print"), [os, arg(e, H(B), o, "h")])
    e.cover("printed")
    e.prove("the object between braces", rvalue(os).s == z3.Concat(s0, sv("{"), ops(e).text(x.get()), sv("}")))


UNITS = [Unit("Heritable(T*)", built("vp_own", B), setup), Unit("Heritable(U*)", built("vp_own_child", D), setup),
         Unit("copy", copied("vp_copy", B, False), setup), Unit("move", copied("vp_move", B, True), setup),
         Unit("copy of a child", copied("vp_copy_child", D, False), setup), Unit("move of a child", copied("vp_move_child", D, True), setup),
         Unit("copy assignment", assigned("&"), setup), Unit("move assignment", assigned("&&"), setup), Unit("self assignment", assigned("&", True), setup),
         Unit("operator*", access("operator*"), setup), Unit("operator->", access("operator->"), setup), Unit("get_reference", access("get_reference"), setup),
         Unit("can_cast", can, setup), Unit("dyn_cast", dyn, setup), Unit("make_heritable", make, setup)]
UNITS += [Unit("operator<<", printed, setup)]
UNITS += [Unit("%s %s" % (op, "object" if w else "Heritable"), compared(op, w), setup) for op in ("==", "<") for w in (False, True)]
