"""C23: trees."""
from .common import *
from .monitor import method

PROGS = {"main": '''#include <utility>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/types/Tree.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(); OpVal(const OpVal&); OpVal(OpVal&&); OpVal& operator=(const OpVal&); int x; };
} namespace utils {
template struct Node<eprosima::vp::OpVal>;
template class TreeNode<eprosima::vp::OpVal>;
TreeNode<eprosima::vp::OpVal> vp_node(const eprosima::vp::OpVal& v) { return TreeNode<eprosima::vp::OpVal>(v); }
TreeNode<eprosima::vp::OpVal> vp_moved(eprosima::vp::OpVal&& v) { return TreeNode<eprosima::vp::OpVal>(std::move(v)); }
} }
'''}
DRIVER = {"src": "c23.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "repo": []}
ASSUMPTIONS = ["trees are finite, and lower than 2^32 - 1 levels", "the information of a node is an opaque type"]
V = T("eprosima::vp::OpVal")
NODE = parse_type(U + "TreeNode<eprosima::vp::OpVal>")
I = z3.IntSort()
# Specification.  The branches of the node in question are B[0..N).  A node has a depth D and, for a tree X chosen arbitrarily, C times X below it:
# TOP(k): the depth that the first k branches give; ALL(k): the X in the first k branches and below them; IN(a, n): the X in a sequence.
SN = z3.DeclareSort("S_" + NODE.key().replace("eprosima::", "").replace("utils::", ""))
AR = z3.ArraySort(I, SN)
D = z3.Function("DEPTH", SN, I)
C = z3.Function("BELOW", SN, I)
TOP = z3.Function("TOP", AR, I, I)
ALL = z3.Function("ALL", AR, I, I)
IN = z3.Function("IN", AR, I, I)
X = z3.Const("X", SN)
LEAF = z3.Function("LEAF", z3.DeclareSort("S_" + V.key().replace("eprosima::", "").replace("utils::", "")), SN)


def one(x):
    return z3.If(x == X, z3.IntVal(1), z3.IntVal(0))


def top_def(a, k):
    return [TOP(a, 0) == 0, z3.Implies(k >= 0, TOP(a, k + 1) == z3.If(TOP(a, k) >= D(a[k]) + 1, TOP(a, k), D(a[k]) + 1))]


def all_def(a, k):
    return [ALL(a, 0) == 0, z3.Implies(k >= 0, ALL(a, k + 1) == ALL(a, k) + one(a[k]) + C(a[k]))]


def in_def(a, k):
    return [IN(a, 0) == 0, z3.Implies(k >= 0, IN(a, k + 1) == IN(a, k) + one(a[k]))]


def count(v):
    if v.items is not None:
        return z3.Sum([one(x) for x in v.items]) if v.items else z3.IntVal(0)
    return IN(v.arr, v.n)


class Trees:
    """the nodes in a sequence are opaque: what is called on them goes by contract; sequences of nodes by how many X they have"""
    def __init__(self, e):
        self.e = e

    def node(self, o):
        return isinstance(o, z3.ExprRef) and o.sort() == SN

    def method(self, base, o, name, argn, n, bt):
        e = self.e
        if self.node(o):
            b = e.path_state["branches"]
            if name in ("depth", "all_nodes"):
                e.prove("only branches are asked", z3.Or(*[o == b.select(p) for p in self.places(b)]) if self.places(b) else z3.BoolVal(False), n)
            if name == "depth":
                e.assume(z3.And(D(o) >= 0, D(o) < 2 ** 32 - 2))
                return D(o)
            if name == "all_nodes":
                v = e.sym(T("std::list", [NODE]), "below")
                e.assume(count(v) == C(o))
                return v
        if isinstance(o, Vec) and o.et is not None and o.et.name == NODE.name and name in ("splice", "insert"):
            return self.join(base, o, name, argn, n)

    def places(self, b):
        e = self.e
        return [c.v.pos for c in e.cells if isinstance(c.v, IterV) and c.v.pos is not None] + \
               [c.v for c in e.cells if isinstance(c.v, z3.ExprRef) and z3.is_int(c.v) and e.isint(c.t)]

    def join(self, base, o, name, argn, n):
        """a whole sequence inserted somewhere in another one: it has the X of both"""
        e = self.e
        args = e.args_of(argn)
        pos = rvalue(args[0])
        e.prove("inserted in the sequence", z3.BoolVal(pos.cont.get() is o), n, "safety")
        if name == "splice":
            if len(args) != 2 or not isinstance(args[1], LV):
                return None
            src = args[1].get()
            args[1].set(Vec(z3.IntVal(0), None, o.et, []))
        else:
            if len(args) != 3:
                return None
            b, f = rvalue(args[1]), rvalue(args[2])
            src = b.cont.get()
            if not e.holds(z3.And(b.pos == 0, f.pos == src.n)):
                return None
        w = e.sym(T("std::list", [NODE]), "joined")
        e.assume(z3.And(w.n == o.n + src.n, count(w) == count(o) + count(src)))
        e.lib.note("std::list::splice/insert keep every element of both sequences")
        base.set(w)
        return IterV(base, pos.pos)

    def opaque_construct(self, t, inner, n):
        if t.name == NODE.name and len([i for i in inner if i.get("kind")]) == 1:
            v = self.e.rv(inner[0])
            if isinstance(v, z3.ExprRef) and v.sort() == self.e.sort_of(V):
                return LEAF(v)
            if self.node(v):
                return v

    opaque_make = opaque_construct

    def emplace(self, et, args, n):
        if et.name == NODE.name and len(args) == 1:
            v = rvalue(args[0])
            if isinstance(v, z3.ExprRef) and v.sort() == self.e.sort_of(V):
                return LEAF(v)


def setup(e):
    assert e.sort_of(NODE) == SN and e.sort_of(V) == LEAF.domain(0), "names of the sorts"
    e.opaque_types |= {NODE.name}
    e.lib.ext.append(Trees(e))

    def push(base, v, x):
        if isinstance(x, z3.ExprRef) and x.sort() == SN:
            w = v.push(x)
            if w.items is None:
                e.assume(z3.And(*in_def(w.arr, v.n)))
                e.assume(z3.And(IN(w.arr, w.n) == count(v) + one(x)))
    e.hooks["push_back"] = push

    def inv(ctx):
        b = e.path_state.get("branches")
        if b is None:
            return
        loc = lambda cs: [c for c in cs if c.label not in e.path_state["known"]]
        ints = loc(ctx.ints())
        pos = [(c.name, c.v) for c in ints] + [(c.name, c.v.pos) for c in loc(ctx.iters()) if c.v.pos is not None]
        vecs = [c for c in loc(ctx.kind(Vec)) if c.v.et.name == NODE.name]
        for nm, p in pos:
            yield nm + " in range", z3.And(p >= 0, p <= b.n)
            if ctx.phase == "head":
                for f in top_def(b.arr, p) + all_def(b.arr, p) + in_def(b.arr, p):
                    e.assume(f)
            for c in ints:
                if c.v is not p:
                    yield "%s at %s: the depth so far" % (c.name, nm), c.v == TOP(b.arr, p)
            for c in vecs:
                yield "%s at %s: the nodes below so far, and the branches" % (c.name, nm), count(c.v) == count(b) + ALL(b.arr, p) - IN(b.arr, p)
                yield "%s at %s: the nodes so far" % (c.name, nm), count(c.v) == ALL(b.arr, p)
                yield "%s at %s: the branches so far" % (c.name, nm), count(c.v) == IN(b.arr, p)
                yield "%s at %s: below what is left" % (c.name, nm), count(c.v) == ALL(b.arr, p) - IN(b.arr, p)
        for c in ints:
            yield c.name + " is a depth", z3.And(c.v >= 0, c.v < 2 ** 32 - 1)
    e.invariants.append(inv)


def node(e):
    o = e.sym_obj(e.prog.record(NODE), "node")
    ls = [c for c in o.byname.values() if c.t.noref().name in ("std::list", "std::vector", "std::deque")]
    vs = [c for c in o.byname.values() if c.t.noref().name == V.name]
    if len(ls) != 1 or len(vs) != 1:
        raise Unsupported("fields of a node")
    v = ls[0].v
    if v.items is None:
        e.assume(z3.And(v.n < 2 ** 32 - 2))
        for f in top_def(v.arr, z3.IntVal(0)) + all_def(v.arr, z3.IntVal(0)) + in_def(v.arr, z3.IntVal(0)):
            e.assume(f)
    e.path_state["branches"] = v
    e.path_state["known"] = {c.label for c in e.cells}
    return o, ls[0], vs[0]


def depth(e):
    o, bs, _ = node(e)
    b = bs.v
    r = rvalue(run(e, method(e, e.prog.record(NODE), "depth", 0), [], this=o))
    e.cover("depth")
    e.prove("the depth is that of the deepest branch plus one", r == TOP(b.arr, b.n))
    e.prove("the branches stay", z3.BoolVal(bs.v is b))


def depth_lemma(e):
    """TOP(n) is the greatest of the depths of the branches plus one; 0 if there are none"""
    a, k, j = e.fresh("a", AR), e.fresh("k", I), e.fresh("j", I)
    for f in top_def(a, k):
        e.assume(f)
    e.assume(z3.And(k >= 0, D(a[k]) >= 0))
    e.prove("no branches: 0", TOP(a, 0) == 0)
    e.prove("upper bound, by induction", z3.Implies(z3.And(0 <= j, j <= k, z3.Implies(j < k, TOP(a, k) >= D(a[j]) + 1)), TOP(a, k + 1) >= D(a[j]) + 1))
    w = e.fresh("w", I)
    e.prove("reached, by induction", z3.Implies(z3.Or(z3.And(k == 0), z3.And(0 <= w, w < k, TOP(a, k) == D(a[w]) + 1)),
                                                z3.Or(TOP(a, k + 1) == D(a[k]) + 1, z3.And(0 <= w, w < k + 1, TOP(a, k + 1) == D(a[w]) + 1))))


def all_nodes(e):
    o, bs, _ = node(e)
    b = bs.v
    r = rvalue(run(e, method(e, e.prog.record(NODE), "all_nodes", 0), [], this=o))
    e.cover("all nodes")
    e.prove("every node below is there, as many times as it is in the tree", count(r) == ALL(b.arr, b.n))
    e.prove("the branches stay", z3.BoolVal(bs.v is b))


def leaf(e):
    o, bs, _ = node(e)
    r = rvalue(run(e, method(e, e.prog.record(NODE), "leaf", 0), [], this=o))
    e.cover("leaf")
    e.prove("a leaf has no branches", r == (bs.v.n == 0))


def branches(e):
    o, bs, _ = node(e)
    r = run(e, method(e, e.prog.record(NODE), "branches", 0), [], this=o)
    e.cover("branches")
    e.prove("the branches themselves", z3.BoolVal(r is bs or isinstance(r, LV) and r.get() is bs.v))


def add(t, how):
    def unit(e):
        o, bs, iv = node(e)
        b, info = bs.v, iv.v
        c = [f for f in method_all(e, "add_branch") if how(e, params_of(f)[0])]
        if len(c) != 1:
            raise Unsupported("%d definitions of add_branch" % len(c))
        x = e.fresh("new", e.sort_of(t))
        run(e, c[0], [arg(e, t, x, "new")], this=o)
        e.cover("added")
        n, last = bs.v, (LEAF(x) if t is V else x)
        e.prove("one more branch", n.n == b.n + 1)
        e.prove("it is the last one", n.select(b.n) == last)
        j = e.fresh("j", I)
        e.prove("the other branches stay", z3.Implies(z3.And(j >= 0, j < b.n), n.select(j) == b.select(j)))
        e.prove("the information stays", z3.BoolVal(iv.v is info))
    return unit


def method_all(e, name):
    return [d for d in e.prog.record(NODE).get("inner", []) if d.get("name") == name and d["kind"] == "CXXMethodDecl"]


def of(t, ref):
    def how(e, p):
        q = qualtype(p)
        return typeof(p).noref().name.split("::")[-1] == t.name.split("::")[-1] and q.strip().endswith("&&") == (ref == "&&")
    return how


def made(name):
    def unit(e):
        x = e.fresh("info", e.sort_of(V))
        r = rvalue(run(e, fn(e, name), [arg(e, V, x, "info")]))
        e.cover("made")
        ls = [c for c in r.byname.values() if c.t.noref().name in ("std::list", "std::vector", "std::deque")]
        vs = [c for c in r.byname.values() if c.t.noref().name == V.name]
        e.prove("it has the information", vs[0].v == x)
        e.prove("and no branches", ls[0].v.n == 0)
    return unit


UNITS = [Unit("construction", made("vp_node")), Unit("construction (moved)", made("vp_moved")),
         Unit("leaf", leaf, setup), Unit("branches", branches, setup), Unit("depth", depth, setup), Unit("the depth is the greatest", depth_lemma, setup),
         Unit("all_nodes", all_nodes, setup)]
UNITS += [Unit("add_branch(%s %s)" % (n, r), add(t, of(t, r)), setup) for t, n in ((V, "info"), (NODE, "node")) for r in ("const &", "&&")]
