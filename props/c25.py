"""C25: containers and pointers as text, sets and raw memory."""
from .common import *
from vc.frontend import REPO
from vc.stdlib import SharedV, StreamV
from vc.text import Text

PROGS = {"main": '''#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/utils.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(const OpVal&); bool operator==(const OpVal&) const; bool operator<(const OpVal&) const; int x; };
struct OpParent { virtual ~OpParent(); int x; };
struct OpChild : public OpParent { OpChild(const OpChild&); bool operator<(const OpChild&) const; };
std::ostream& operator<<(std::ostream&, const OpVal&);
} namespace utils {
bool vp_contains(const std::set<std::shared_ptr<eprosima::vp::OpVal>>& s, const std::shared_ptr<eprosima::vp::OpVal>& p) { return set_of_ptr_contains<eprosima::vp::OpVal>(s, p); }
bool vp_equal(const std::set<std::shared_ptr<eprosima::vp::OpVal>>& a, const std::set<std::shared_ptr<eprosima::vp::OpVal>>& b) { return are_set_of_ptr_equal<eprosima::vp::OpVal>(a, b); }
std::set<std::shared_ptr<eprosima::vp::OpParent>> vp_shared(const std::set<eprosima::vp::OpChild>& s) { return convert_set_to_shared<eprosima::vp::OpParent, eprosima::vp::OpChild>(s); }
std::set<eprosima::vp::OpVal> vp_keys(const std::map<eprosima::vp::OpVal, int>& m) { return get_keys(m); }
std::set<std::string> vp_ukeys(const std::unordered_map<std::string, int>& m) { return get_keys(m); }
std::string vp_text(const eprosima::vp::OpVal& v) { return generic_to_string(v); }
void vp_vector(std::ostream& os, const std::vector<eprosima::vp::OpVal>& v, const std::string& s) { container_to_stream<eprosima::vp::OpVal>(os, v, s); }
void vp_set(std::ostream& os, const std::set<eprosima::vp::OpVal>& v, const std::string& s) { container_to_stream<eprosima::vp::OpVal>(os, v, s); }
void vp_pointers(std::ostream& os, const std::vector<std::shared_ptr<eprosima::vp::OpVal>>& v, const std::string& s) { container_to_stream<std::shared_ptr<eprosima::vp::OpVal>, true>(os, v, s); }
void vp_default(std::ostream& os, const std::vector<eprosima::vp::OpVal>& v) { container_to_stream<eprosima::vp::OpVal>(os, v); }
void* vp_raw(const eprosima::vp::OpVal* v, size_t n) { return copy_to_void_ptr<eprosima::vp::OpVal>(v, n); }
void* vp_void(const eprosima::vp::OpVal* v) { return cast_to_void_ptr<eprosima::vp::OpVal>(v); }
bool vp_can(const eprosima::vp::OpParent& v) { return can_cast<eprosima::vp::OpChild, eprosima::vp::OpParent>(v); }
} }
''', "text": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c25.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
          "repo": ["cpp_utils/src/cpp/Formatter.cpp", "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/utils.cpp",
          "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["the operator== of the elements is an equivalence; their operator<< an arbitrary text for each value",
               "the stream has no width pending, and malloc does not fail"]
V, P, C = T("eprosima::vp::OpVal"), T("eprosima::vp::OpParent"), T("eprosima::vp::OpChild")
I, SS = z3.IntSort(), z3.StringSort()
SH = lambda t: parse_type("std::shared_ptr<%s>" % t.name)


class Things:
    """elements: what they compare as (CLASS), their text; pointers to them: null or not, and their object"""
    def __init__(self, e):
        self.e = e
        self.v, self.c = e.sort_of(V), e.sort_of(C)
        self.cls = z3.Function("CLASS", self.v, z3.DeclareSort("Class"))
        self.text = z3.Function("TEXT", self.v, SS)
        self.ps = {e.sort_of(SH(t)): t for t in (V, P)}
        self.null = {s: z3.Function("NULL_" + t.name[-5:], s, z3.BoolSort()) for s, t in self.ps.items()}
        self.obj = {s: z3.Function("OBJECT_" + t.name[-5:], s, self.v if t is V else self.c) for s, t in self.ps.items()}

    def ptr(self, o):
        return isinstance(o, z3.ExprRef) and o.sort() in self.ps

    def at(self, p):
        return Ptr(TempLV(self.obj[p.sort()](p), self.ps[p.sort()]), self.null[p.sort()](p))

    def opaque_op(self, name, base, o, args, n):
        if o.sort() == self.v and name in ("operator==", "operator!="):
            r = self.cls(o) == self.cls(rvalue(args[0]))
            return r if name == "operator==" else z3.Not(r)

    def method(self, base, o, name, argn, n, bt):
        if self.ptr(o):
            if name in ("get", "operator->"):
                return self.at(o)
            if name == "operator*":
                return self.deref(o, n)
            if name == "operator bool":
                return z3.Not(self.null[o.sort()](o))

    def operator(self, name, args, n):
        a = [rvalue(x) for x in args]
        if len(a) == 1 and self.ptr(a[0]) and name in ("operator*", "operator->"):
            return self.deref(a[0], n) if name == "operator*" else self.at(a[0])
        if len(a) == 2 and name in ("operator==", "operator!=") and any(self.ptr(x) for x in a):
            r = self.equal(*a)
            return r if r is None or name == "operator==" else z3.Not(r)

    def deref(self, p, n):
        if isinstance(p, LV):
            p = p.get()
        if self.ptr(p):
            e = self.e
            e.prove("no null dereference", z3.Not(self.null[p.sort()](p)), n, "safety")
            e.assume(z3.Not(self.null[p.sort()](p)))
            return TempLV(self.obj[p.sort()](p), self.ps[p.sort()])

    def truth(self, v):
        if self.ptr(v):
            return z3.Not(self.null[v.sort()](v))

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if self.ptr(x):
                if isinstance(y, Ptr) and y.target is None:
                    return self.null[x.sort()](x)
                if self.ptr(y) and x.sort() == y.sort():
                    return x == y

    def key(self, x):
        """a new pointer put in a set: none of those that were there"""
        e = self.e
        if isinstance(x, SharedV) and x.target is not None:
            s = e.sort_of(SH(P))
            p = e.fresh("made", s)
            e.assume(z3.Not(self.null[s](p)))
            o = rvalue(x.target)
            if o.sort() != self.c:
                e.prove("the object made is a copy of the element, of its class", False)
                return p
            e.assume(self.obj[s](p) == o)
            e.path_state.setdefault("made", []).append(p)
            for c in e.cells:
                if isinstance(c.v, SetV) and c.v.dom.sort().domain() == s:
                    e.assume(z3.Not(c.v.has(p)))
            return p

    def dynamic_cast(self, v, t, n):
        is_ = self.e.path_state["child"]
        p = rvalue(v)
        if t.ptr or isinstance(p, Ptr):
            return Ptr(p.target, z3.Or(p.null, z3.Not(is_)), p.ident)
        if self.e.branch(z3.Not(is_), n):
            self.e.lib.throw_std("bad_cast")
        return v

    def call_free(self, name, args, n, argn):
        e = self.e
        m = e.path_state.get("memory")
        if m is not None and name == "malloc":
            m["blocks"].append((Ptr(Cell(e, V, e.fresh("block", self.v), "block%d" % len(m["blocks"]), name="block")), rvalue(args[0])))
            return m["blocks"][-1][0]
        if m is not None and name in ("memcpy", "memmove"):
            m["copies"].append([rvalue(a) for a in args])
            return rvalue(args[0])


def th(e):
    return [x for x in e.lib.ext if isinstance(x, Things)][0]


def join_defs(e, a, k, text, sep):
    J = z3.Function("JOIN", a.sort(), I, SS)
    return J, [J(a, 0) == sv(""), z3.Implies(k >= 0, J(a, k + 1) == z3.If(k == 0, text(a[k]), z3.Concat(J(a, k), sep, text(a[k]))))]


def setup(e):
    w = Things(e)
    e.lib.ext.append(w)

    def out(e, d, this, args, node):
        os, v = rvalue(args[0]), StreamV.__new__(StreamV)
        v.__dict__.update(os.__dict__)
        v.s = z3.Concat(os.s, w.text(rvalue(args[1])))
        args[0].set(v)
        return args[0]
    e.contracts["eprosima::vp::operator<<"] = Contract(out)

    def inv(ctx):
        f = e.path_state.get("inv")
        if f:
            yield from f(ctx)
    e.invariants.append(inv)


def local(e, cs):
    return [c for c in cs if c.label not in e.path_state["known"]]


def positions(e, ctx):
    return [(c.name or c.label, c.v) for c in local(e, ctx.ints())] + [(c.name or c.label, c.v.pos) for c in local(e, ctx.iters()) if c.v.pos is not None]


def mine(e):
    e.path_state["known"] = {c.label for c in e.cells}


def setv(e, t, name):
    return arg(e, T("std::set", [t]), e.sym(T("std::set", [t]), name), name)


def contained(w, s, p):
    """the specification of set_of_ptr_contains, for a set given by its elements"""
    x = z3.Const("x!", p.sort())
    n, o = w.null[p.sort()], w.obj[p.sort()]
    return z3.Or(s.has(p), z3.And(z3.Not(n(p)), z3.Exists([x], z3.And(s.has(x), z3.Not(n(x)), w.cls(o(x)) == w.cls(o(p))))))


def contains(e):
    w = th(e)
    s, p = setv(e, SH(V), "set"), arg(e, SH(V), e.fresh("element", e.sort_of(SH(V))), "element")
    E, idx, v = e.lib.enumerate(s)
    n, o = w.null[p.v.sort()], w.obj[p.v.sort()]
    mine(e)

    def inv(ctx):
        j = z3.Int("j!")
        for nm, q in positions(e, ctx):
            yield nm + " in range", z3.And(q >= 0, q <= v.n)
            yield nm + ": none before it is equal", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.Not(z3.And(
                z3.Not(n(E[j])), w.cls(o(E[j])) == w.cls(o(p.v))))), patterns=[E[j]])
    e.path_state["inv"] = inv
    r = rvalue(run(e, fn(e, "vp_contains"), [s, p]))
    e.cover("asked")
    x = z3.Const("x!", p.v.sort())
    e.prove("found: the pointer is there, or one to an equal object", z3.Implies(r, contained(w, v, p.v)))
    e.prove("not found: nor the pointer", z3.Implies(z3.Not(r), z3.Not(v.has(p.v))))
    y = e.fresh("any", p.v.sort())
    e.prove("nor one to an equal object", z3.Implies(z3.And(z3.Not(r), v.has(y), z3.Not(n(y)), z3.Not(n(p.v))), w.cls(o(y)) != w.cls(o(p.v))))


def equal(e):
    w = th(e)
    a, b = setv(e, SH(V), "set1"), setv(e, SH(V), "set2")
    ps = e.sort_of(SH(V))
    sets = [e.lib.enumerate(a), e.lib.enumerate(b)]
    IN = z3.Function("CONTAINED", z3.ArraySort(ps, z3.BoolSort()), ps, z3.BoolSort())

    def has(e, d, this, args, node):
        s = rvalue(args[0])
        return IN(s.dom, rvalue(args[1]))
    e.contracts[U + "set_of_ptr_contains"] = Contract(has)
    mine(e)

    def inv(ctx):
        j = z3.Int("j!")
        for nm, q in positions(e, ctx):
            for side, ((E, _, v), (_, _, u)) in (("first", sets), ("second", sets[::-1])):
                yield "%s in range of the %s" % (nm, side), z3.And(q >= 0, q <= v.n)
                all_ = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), IN(u.dom, E[j])), patterns=[E[j]])
                yield "%s: all before of the %s are in the other" % (nm, side), all_
                for b in local(e, ctx.bools()):
                    yield "%s %s: whether all before of the %s are in the other" % (b.name, nm, side), b.v == all_
    e.path_state["inv"] = inv
    r = rvalue(run(e, fn(e, "vp_equal"), [a, b]))
    e.cover("asked")
    x, y = e.fresh("x", ps), e.fresh("y", ps)
    A, B = sets[0][2], sets[1][2]
    e.prove("equal: each of the first is in the second", z3.Implies(z3.And(r, A.has(x)), IN(B.dom, x)))
    e.prove("equal: each of the second is in the first", z3.Implies(z3.And(r, B.has(y)), IN(A.dom, y)))
    e.prove("equal: as many", z3.Implies(r, A.n == B.n))
    j, k = z3.Int("j!"), z3.Int("k!")
    e.prove("different only if one of these fails", z3.Implies(z3.And(A.n == B.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < A.n), IN(B.dom, sets[0][0][j]))),
                                                                     z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < B.n), IN(A.dom, sets[1][0][k])))), r))


def shared(e):
    w = th(e)
    s = setv(e, C, "set")
    E, idx, v = e.lib.enumerate(s)
    ps = e.sort_of(SH(P))
    n, o = w.null[ps], w.obj[ps]
    mine(e)
    q_, j, x, y = z3.Const("p!", ps), z3.Int("j!"), z3.Const("x!", ps), z3.Const("y!", ps)

    def state(D, k):
        yield "as many as elements", D.n == k
        yield "not null, and made of one element", z3.ForAll([x], z3.Implies(D.has(x), z3.And(z3.Not(n(x)), v.has(o(x)), idx(o(x)) < k)), patterns=[D.dom[x]])
        yield "each element has its pointer", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Exists([y], z3.And(D.has(y), o(y) == E[j]))), patterns=[E[j]])

    def inv(ctx):
        for nm, q in positions(e, ctx):
            yield nm + " in range", z3.And(q >= 0, q <= v.n)
            for c in local(e, ctx.kind(SetV)):
                if c.v.dom.sort().domain() == ps:
                    for what, t in state(c.v, q):
                        yield "%s %s: %s" % (c.name, nm, what), t
    e.path_state["inv"] = inv
    r = rvalue(run(e, fn(e, "vp_shared"), [s]))
    e.cover("converted")
    for what, t in state(r, v.n):
        e.prove(what, t)


def keys(name, kt):
    def unit(e):
        mt = T("std::map", [kt, T("int")])
        m = arg(e, mt, e.sym(mt, "map"), "map")
        E, idx, v = e.lib.enumerate(m)
        ks = e.sort_of(kt)
        mine(e)
        x, j = z3.Const("k!", ks), z3.Int("j!")

        def inv(ctx):
            for nm, q in positions(e, ctx):
                yield nm + " in range", z3.And(q >= 0, q <= v.n)
                for c in local(e, ctx.kind(SetV)):
                    if c.v.dom.sort().domain() == ks:
                        yield "%s %s: only keys so far" % (c.name, nm), z3.ForAll([x], z3.Implies(c.v.has(x), z3.And(v.has(x), idx(x) < q)), patterns=[c.v.dom[x]])
                        yield "%s %s: all keys so far" % (c.name, nm), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), c.v.has(E[j])), patterns=[E[j]])
        e.path_state["inv"] = inv
        r = rvalue(run(e, fn(e, name), [m]))
        e.cover("asked")
        k = e.fresh("any", ks)
        e.prove("a key of the map is in the set", z3.Implies(v.has(k), r.has(k)))
        e.prove("only keys of the map are", z3.Implies(r.has(k), v.has(k)))
        e.prove("the map stays", z3.BoolVal(m.v.dom is v.dom and m.v.val is v.val))
    return unit


def stream(e):
    s0 = e.fresh("before", SS)
    return s0, Cell(e, T("std::ostream"), StreamV(s0), "arg/os", name="os")


def joined(name, kind, sep_given=True):
    def unit(e):
        w = th(e)
        s0, os = stream(e)
        sep = e.fresh("separator", SS) if sep_given else sv(";")
        if kind == "set":
            c = setv(e, V, "elements")
            E, idx, v = e.lib.enumerate(c)
            a, n = E, v.n
        else:
            et = V if kind == "values" else SH(V)
            t = T("std::vector", [et])
            c = arg(e, t, e.sym(t, "elements"), "elements")
            a, n = c.v.arr, c.v.n
        if kind == "pointers":
            ps = e.sort_of(SH(V))
            i = z3.Int("i!")
            e.assume(z3.ForAll([i], z3.Not(w.null[ps](a[i])), patterns=[a[i]]))
            text = lambda p: w.text(w.obj[ps](p))
        else:
            text = w.text
        J, base = join_defs(e, a, z3.IntVal(0), text, sep)
        for f in base:
            e.assume(f)
        mine(e)

        def inv(ctx):
            for nm, q in positions(e, ctx):
                yield nm + " in range", z3.And(q >= 0, q <= n)
                yield nm + " below", z3.Or(q == 0, q < n)
                for f in join_defs(e, a, q, text, sep)[1] + join_defs(e, a, n - 1, text, sep)[1]:
                    e.assume(f)
                st = [("os", os)] + [(c.name, c) for c in local(e, ctx.kind(StreamV)) if c is not os]
                for k, c in st:
                    yield "%s %s: joined, and a separator" % (k, nm), rvalue(c).s == z3.Concat(s0, sv("{"), J(a, q), z3.If(q > 0, sep, sv("")))
                    for b in local(e, ctx.bools()):
                        yield "%s %s: the first" % (b.name, nm), b.v == (q == 0)
                        yield "%s %s: not the first" % (b.name, nm), b.v == (q > 0)
                    yield "%s %s: joined" % (k, nm), rvalue(c).s == z3.Concat(s0, sv("{"), J(a, q))
        e.path_state["inv"] = inv
        for f in join_defs(e, a, n - 1, text, sep)[1]:
            e.assume(f)
        run(e, fn(e, name), [os, c] + ([arg(e, S, sep, "separator")] if sep_given else []))
        e.cover("printed")
        e.prove("the elements between braces, with separators between them", rvalue(os).s == z3.Concat(s0, sv("{"), J(a, n), sv("}")))
    return unit


def text(e):
    w = th(e)
    x = e.fresh("value", w.v)
    r = rvalue(run(e, fn(e, "vp_text"), [arg(e, V, x, "element")]))
    e.cover("text")
    e.prove("the text of the element", r == w.text(x))


def raw(e):
    w = th(e)
    e.path_state["memory"] = m = {"blocks": [], "copies": []}
    x = Cell(e, V, e.fresh("object", w.v), "object", name="object")
    src = Ptr(x)
    f = fn(e, "vp_raw")
    size = e.sym(T("unsigned long"), "size")
    r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), src, "source"), arg(e, T("unsigned long"), size, "size")]))
    e.cover("copied")
    ok = len(m["blocks"]) == 1 and len(m["copies"]) == 1
    e.prove("one block, one copy", z3.BoolVal(ok))
    if ok:
        (b, n), (to, frm, k) = m["blocks"][0], m["copies"][0]
        e.prove("the block has the size asked", n == size)
        e.prove("the whole of the source is copied", k == size)
        e.prove("from the source to the block, which is given", z3.BoolVal(isinstance(to, Ptr) and to.target is b.target and
                                                                        isinstance(frm, Ptr) and frm.target is x and isinstance(r, Ptr) and r.target is b.target))


def to_void(e):
    x = Cell(e, V, e.fresh("object", th(e).v), "object", name="object")
    f = fn(e, "vp_void")
    nul = e.fresh("null", z3.BoolSort())
    r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), Ptr(x, nul), "c")]))
    e.cover("cast")
    e.prove("the same address", z3.And(z3.BoolVal(r.target is x), r.null == nul))


def can(e):
    e.path_state["child"] = e.fresh("child", z3.BoolSort())
    x = Cell(e, P, e.fresh("object", th(e).c), "object", name="object")
    r = rvalue(run(e, fn(e, "vp_can"), [x]))
    e.cover("asked")
    e.prove("whether it is of that class", r == e.path_state["child"])


# ---- letters, and access to files
def text_setup(e):
    e.lib.ext.append(Text(e))

    def inv(ctx):
        p = e.path_state.get("case")
        if p is None:
            return
        c, K, src, want = p
        at = lambda t: z3.StrToCode(z3.SubString(t, K, 1))
        for nm, q in positions(e, ctx):
            yield nm + " in range", z3.And(q >= 0, q <= z3.Length(src))
            yield nm + ": as long", z3.Length(rvalue(c)) == z3.Length(src)
            yield nm + ": changed before it", at(rvalue(c)) == z3.If(K < q, want(at(src)), at(src))
    e.invariants.append(inv)


def letters(name, lo, hi, d):
    def unit(e):
        src = e.fresh("text", SS)
        K = e.fresh("position", I)
        e.path_state["positions"] = [K]
        c = arg(e, S, src, "st")
        witness(e, text=src)
        e.assume(z3.And(K >= 0, K < z3.Length(src)))
        at = lambda t: z3.StrToCode(z3.SubString(t, K, 1))
        e.assume(z3.And(at(src) >= 0, at(src) <= 255))
        want = lambda x: z3.If(z3.And(x >= lo, x <= hi), x + d, x)
        mine(e)
        e.path_state["case"] = (c, K, src, want)
        run(e, fn(e, name), [c])
        e.cover("changed")
        e.prove("as many characters", z3.Length(rvalue(c)) == z3.Length(src))
        e.prove("each character: a letter changed, any other as it was", at(rvalue(c)) == want(at(src)))
    return unit


MODES = {"exist": 0, "read": 4, "write": 2, "exec": 1, "read_write": 6, "read_exec": 5, "read_write_exec": 7, "write_exec": 3}


def modes(name, op):
    def unit(e):
        t = T("eprosima::utils::FileAccessMode")
        f = [d for d in e.prog.find(U + name) if len(params_of(d)) == 2 and typeof(params_of(d)[0]).name.endswith("FileAccessMode")][0]
        for m, a in MODES.items():
            for k, b in MODES.items():
                r = rvalue(run(e, f, [arg(e, t, z3.IntVal(a), "a"), arg(e, t, z3.IntVal(b), "b")]))
                e.prove("%s %s %s" % (m, name[-1], k), r == op(a, b))
        e.cover("composed")
    return unit


def access(e):
    w = th_text(e)
    f = fn(e, "is_file_accessible")
    path = Ptr(Cell(e, T("char"), e.fresh("path", I), "path", name="path"))
    mode = e.fresh("mode", I)
    e.assume(z3.And(mode >= 0, mode <= 7))
    r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), path, "file_path"), arg(e, typeof(params_of(f)[1]), mode, "access_mode")]))
    e.cover("asked")
    calls = e.path_state["access"]
    e.prove("the system is asked once", z3.BoolVal(len(calls) == 1))
    if len(calls) == 1:
        p, m, got = calls[0]
        e.prove("for that file", z3.BoolVal(isinstance(p, Ptr) and p.target is path.target))
        e.prove("with that access", m == mode)
        e.prove("and its answer is given", r == (got == 0))


class System:
    def __init__(self, e):
        self.e = e

    def call_free(self, name, args, n, argn):
        if name == "access" and len(args) == 2:
            r = self.e.fresh("access", I)
            self.e.assume(z3.Or(r == 0, r == -1))
            self.e.path_state.setdefault("access", []).append((rvalue(args[0]), rvalue(args[1]), r))
            return r


def th_text(e):
    w = System(e)
    e.lib.ext.append(w)
    return w


def tx(name, f):
    return Unit(name, f, text_setup, prog="text")


UNITS = [tx("to_lowercase", letters("to_lowercase", 65, 90, 32)), tx("to_uppercase", letters("to_uppercase", 97, 122, -32)),
         tx("FileAccessMode |", modes("operator|", lambda a, b: a | b)), tx("FileAccessMode &", modes("operator&", lambda a, b: a & b)),
         tx("is_file_accessible", access),
         Unit("set_of_ptr_contains", contains, setup), Unit("are_set_of_ptr_equal", equal, setup), Unit("convert_set_to_shared", shared, setup),
         Unit("get_keys", keys("vp_keys", V), setup), Unit("get_keys (unordered)", keys("vp_ukeys", S), setup),
         Unit("container_to_stream", joined("vp_vector", "values"), setup), Unit("container_to_stream (default separator)", joined("vp_default", "values", False), setup),
         Unit("container_to_stream (set)", joined("vp_set", "set"), setup), Unit("container_to_stream (pointers)", joined("vp_pointers", "pointers"), setup),
         Unit("generic_to_string", text, setup), Unit("copy_to_void_ptr", raw, setup), Unit("cast_to_void_ptr", to_void, setup), Unit("can_cast", can, setup)]
