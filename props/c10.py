"""C10: the unbounded pool."""
from .common import *
from .monitor import method

PROGS = {"main": '''#include <cpp_utils/pool/UnboundedPool.hpp>
namespace eprosima { namespace vp { struct OpElem { int x; }; } namespace utils {
template class IPool<eprosima::vp::OpElem>;
template class UnboundedPool<eprosima::vp::OpElem>;
} }
'''}
DRIVER = {"src": "c10.cpp", "repo": ["cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["new_element_ returns an element not seen before (proved for the default one: a new object)",
               "fewer than 2^32 elements are ever created; what is returned is on loan (the documented precondition)"]
EL = T("eprosima::vp::OpElem")
PT = parse_type("eprosima::vp::OpElem *")
POOL = parse_type("eprosima::utils::UnboundedPool<eprosima::vp::OpElem>")
IPOOL = parse_type("eprosima::utils::IPool<eprosima::vp::OpElem>")
I = z3.IntSort()


class Ghost:
    """created, on loan, reset since last use, deleted: sets of elements; idx: where a free element is"""
    def __init__(self, e, o, symbolic=True):
        P = e.sort_of(PT)
        self.P = P
        self.e, self.o = e, o
        S = z3.ArraySort(P, z3.BoolSort())
        none = z3.K(P, z3.BoolVal(False))
        mk = (lambda n, s, d: e.fresh(n, s)) if symbolic else (lambda n, s, d: d)
        self.cell = {k: Cell(e, T("ghost"), mk(k, s, d), "ghost/" + k, name=k) for k, s, d in (
            ("created", S, none), ("loaned", S, none), ("clean", S, none), ("deleted", S, none),
            ("idx", z3.ArraySort(P, I), z3.K(P, z3.IntVal(0))), ("nloaned", I, z3.IntVal(0)), ("ncreated", I, z3.IntVal(0)))}
        e.path_state["g"] = self
        vs = [c for c in o.byname.values() if isinstance(c.v, Vec)]
        ns = [c for c in o.byname.values() if c.t.name == "unsigned int"]
        if len(vs) != 1 or len(ns) != 1:
            raise Unsupported("the pool has not one sequence and one counter")
        self.vec, self.res = vs[0], ns[0]

    def __getitem__(self, k):
        return self.cell[k].v

    def put(self, k, v):
        self.cell[k].set(v)

    def free(self, p, v=None):
        v = v or self.arr()
        i = z3.Select(self["idx"], p)
        return z3.And(i >= 0, i < v.n, z3.Select(v.arr, i) == p)

    def arr(self):
        return self.e.lib.symarr(self.vec.v)

    def structure(self):
        """what is free is exactly what was created and is not on loan, each once, and ready for use"""
        v = self.arr()
        i, p = z3.Int("i!q"), z3.Const("p!q", self.P)
        x = z3.Select(v.arr, i)
        yield "free elements are created, not on loan and reset", z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < v.n), z3.And(self["created"][x], z3.Not(self["loaned"][x]), self["clean"][x],
                                            self["idx"][x] == i)), patterns=[x])
        yield "what was created is free or on loan", z3.ForAll([p], z3.Implies(
            z3.And(self["created"][p], z3.Not(self["loaned"][p])), self.free(p, v)), patterns=[self["idx"][p]])
        yield "what is on loan was created", z3.ForAll([p], z3.Implies(self["loaned"][p], self["created"][p]),
                                                       patterns=[self["loaned"][p]])
        yield "every element created is free or on loan (count)", self["ncreated"] == v.n + self["nloaned"]
        yield "no negative number of loans", z3.And(self["nloaned"] >= 0, v.n >= 0)

    def inv(self):
        yield from self.structure()
        yield "the number of reserved elements", self.res.v == self["ncreated"]

    def check(self, what):
        for nm, f in self.inv():
            self.e.prove("%s: %s" % (what, nm), f)


def setup(e):
    def new_element(e, d, this, args, node):
        g = e.path_state["g"]
        if e.branch(e.fresh("cannot_create", z3.BoolSort()), node):
            # any creation can fail, in the middle of a batch too
            e.path_state["failed"] = True
            raise CppThrow(T("std::bad_alloc"), Opaque(T("std::bad_alloc")))
        p = e.fresh("element", g.P)
        e.assume(z3.Not(g["created"][p]))
        e.assume(p != z3.Const("null_element", g.P))
        g.put("created", z3.Store(g["created"], p, True))
        g.put("clean", z3.Store(g["clean"], p, True))
        g.put("ncreated", g["ncreated"] + 1)
        e.path_state["last"] = p
        return p

    def reset_element(e, d, this, args, node):
        g = e.path_state["g"]
        p = rvalue(args[0])
        e.prove("what is reset is not available to others", z3.Not(g.free(p)), node)
        g.put("clean", z3.Store(g["clean"], p, True))

    def delete_element(e, d, this, args, node):
        g = e.path_state["g"]
        p = rvalue(args[0])
        e.prove("what is deleted was created and not deleted before", z3.And(g["created"][p], z3.Not(g["deleted"][p])), node)
        g.put("deleted", z3.Store(g["deleted"], p, True))
    for n, f in (("new_element_", new_element), ("reset_element_", reset_element), ("delete_element_", delete_element)):
        e.contracts[U + "IPool::" + n] = Contract(f)

    def push(base, v, x):
        g = e.path_state.get("g")
        if g and base.root() is g.vec:
            g.put("idx", z3.Store(g["idx"], x, v.n))
    e.hooks["push_back"] = push

    def inv(ctx):
        g = e.path_state.get("g")
        if not g:
            return
        at = e.path_state["at"]
        for nm, f in g.structure():
            yield nm, f
        yield "counter kept", g.res.v == at["res"]
        yield "counter follows", g.res.v == g["ncreated"]
        for nm in ("nloaned",):
            yield nm, g[nm] == at[nm]
        p = z3.Const("p!q", g.P)
        yield "loans kept", g["loaned"] == at["loaned"]
        for d in ctx.ints(False):
            if not d.label.startswith("ghost/"):
                yield "as many elements as %s at most" % d.label, g.arr().n <= d.v
        for c in ctx.ints(True):
            if c.label.startswith("ghost/"):
                continue
            yield c.label + ": new elements", z3.And(c.v >= 0, g["ncreated"] == at["ncreated"] + c.v)
            for d in ctx.ints(False):
                yield "%s<=%s" % (c.label, d.label), c.v <= d.v
                yield "%s+%s: new elements (down)" % (c.label, d.label), z3.And(c.v >= 0, c.v <= d.v, g["ncreated"] == at["ncreated"] + d.v - c.v)
            for nm, w in at["wanted"].items():
                yield "%s<=%s" % (c.label, nm), c.v <= w
                yield "%s: %s left" % (c.label, nm), z3.And(c.v >= 0, c.v <= w, g["ncreated"] == at["ncreated"] + w - c.v)
        # walking over the free elements (deleting them)
        for it in ctx.iters(True):
            if it.v.pos is None or it.v.cont.root() is not g.vec:
                continue
            k, v = it.v.pos, g.arr()
            yield it.label + ": range", z3.And(k >= 0, k <= v.n)
            yield from deleted_upto(g, it.label, k)
        for c in ctx.ints(True):
            if not c.label.startswith("ghost/"):
                yield from deleted_upto(g, c.label, c.v)
        v = g.arr()
        i = z3.Int("i!q")
        yield "what is deleted is no longer listed", z3.ForAll([p], z3.Implies(g["deleted"][p], z3.And(
            g["created"][p], z3.Not(g["loaned"][p]), g["idx"][p] >= v.n)), patterns=[g["deleted"][p]])
        yield "listed as before", z3.And(v.n <= at["n"], v.arr == at["arr"], g["idx"] == at["idx"])
        yield "gone ones are deleted", z3.ForAll([i], z3.Implies(z3.And(i >= v.n, i < at["n"]), g["deleted"][z3.Select(at["arr"], i)]),
                                                 patterns=[z3.Select(at["arr"], i)])
    e.invariants.append(inv)


def deleted_upto(g, label, k):
    p, i = z3.Const("p!q", g.P), z3.Int("i!q")
    v = g.arr()
    x = z3.Select(v.arr, i)
    yield label + ": deleted so far", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k, i < v.n), g["deleted"][x]), patterns=[x])
    yield label + ": nothing else deleted", z3.ForAll([p], z3.Implies(g["deleted"][p], z3.And(
        g["created"][p], z3.Not(g["loaned"][p]), g["idx"][p] < k, g["idx"][p] >= 0)), patterns=[g["deleted"][p]])


def begin(e, symbolic=True):
    rec = e.prog.record(POOL)
    o = e.sym_obj(rec, "pool")
    g = Ghost(e, o, symbolic)
    e.path_state["wanted"] = {}
    cfg = [c.v for c in o.byname.values() if isinstance(c.v, Obj)][0]
    e.assume(cfg.byname["batch_size"].v >= 1)
    for nm, f in g.inv():
        e.assume(f)
    note(e, g, cfg)
    return rec, o, g, cfg


def note(e, g, cfg):
    v = g.arr()
    e.path_state["at"] = {"res": g.res.v, "wanted": {c.name: c.v for c in cfg.byname.values() if isinstance(c.v, z3.ExprRef)},
                          "n": v.n, "arr": v.arr, **{k: g[k] for k in g.cell}}
    e.assume(g["ncreated"] + cfg.byname["batch_size"].v + cfg.byname["initial_size"].v < (1 << 32))


def loan(e):
    rec, o, g, cfg = begin(e)
    at = e.path_state["at"]
    P = Cell(e, PT, e.fresh("out", g.P), "arg/element")
    try:
        r = rvalue(run(e, method(e, rec, "loan", 1), [P], this=o, throws=True))
    except CppThrow as x:
        e.cover("an element could not be created")
        e.prove("a loan fails only when an element cannot be created", z3.BoolVal("failed" in e.path_state))
        e.prove("a failed loan takes and deletes no element", z3.And(g["loaned"] == at["loaned"], g["deleted"] == at["deleted"]))
        e.prove("a loan fails only when none is free", at["n"] == 0)
        g.check("after a loan that failed")
        raise PathEnd()
    e.cover("loan")
    p = P.v
    e.prove("a loan succeeds", r)
    e.prove("the element is one of the pool", g["created"][p])
    e.prove("the element is not on loan to another", z3.Not(at["loaned"][p]))
    e.prove("the element is ready for use", g["clean"][p])
    batch = cfg.byname["batch_size"].v
    e.prove("elements are created by batches, only when none is free",
            g["ncreated"] == at["ncreated"] + z3.If(at["n"] == 0, batch, 0))
    e.prove("no element is deleted", g["deleted"] == at["deleted"])
    g.put("loaned", z3.Store(g["loaned"], p, True))
    g.put("nloaned", g["nloaned"] + 1)
    g.check("after a loan")


def return_loan(e):
    rec, o, g, cfg = begin(e)
    at = e.path_state["at"]
    p = e.fresh("element", g.P)
    e.assume(g["loaned"][p])
    e.assume(g["nloaned"] > 0)
    g.put("clean", z3.Store(g["clean"], p, False))       # it has been used
    r = rvalue(run(e, method(e, rec, "return_loan", 1), [arg(e, PT, p, "element")], this=o))
    e.cover("returned")
    e.prove("returning succeeds", r)
    g.put("loaned", z3.Store(g["loaned"], p, False))
    g.put("nloaned", g["nloaned"] - 1)
    g.check("after returning")
    e.prove("the element is available again", g.free(p))
    e.prove("nothing is created or deleted", z3.And(g["ncreated"] == at["ncreated"], g["deleted"] == at["deleted"]))


def return_none(e):
    rec, o, g, cfg = begin(e)
    p = e.fresh("element", g.P)
    e.assume(g["nloaned"] == 0)
    e.assume(z3.Not(g.free(p)))
    n = g.vec.v.n
    try:
        run(e, method(e, rec, "return_loan", 1), [arg(e, PT, p, "element")], this=o, throws=True)
        e.prove("returning when nothing is on loan is an error", z3.BoolVal(False))
    except CppThrow as x:
        e.cover("refused")
        e.prove("returning when nothing is on loan is reported as InconsistencyException",
                z3.BoolVal(x.t.name == U + "InconsistencyException"))
        e.prove("the pool is left as it was", z3.And(g.vec.v.n == n, g.arr().arr == e.path_state["at"]["arr"],
                                                     g.res.v == e.path_state["at"]["res"]))


def construct(e):
    rec = e.prog.record(POOL)
    cfgt = parse_type("eprosima::utils::PoolConfiguration")
    cfg = e.sym_obj(e.prog.record(cfgt), "configuration")
    o = e.new_obj(rec, "pool")
    ctor = [f for f in rec["inner"] if f.get("kind") == "CXXConstructorDecl" and len(params_of(f)) == 1 and not f.get("isImplicit")]
    d = e.prog.definition(ctor[0]["id"])
    b, ini = cfg.byname["batch_size"].v, cfg.byname["initial_size"].v
    try:
        run(e, d, [cfg], this=o, throws=True)
    except CppThrow as x:
        e.cover("refused")
        e.prove("only a batch size of zero is refused", b == 0)
        e.prove("refused with InitializationException", z3.BoolVal(x.t.name == U + "InitializationException"))
        raise PathEnd()
    e.cover("constructed")
    e.prove("a batch size of zero is refused", b != 0)
    g = Ghost(e, o, symbolic=False)
    g.check("after construction")
    mine = [c.v for c in o.byname.values() if isinstance(c.v, Obj)][0]
    e.prove("the configuration is the one given", z3.And(mine.byname["batch_size"].v == b, mine.byname["initial_size"].v == ini))
    note(e, g, mine)
    try:
        run(e, method(e, rec, "initialize_vector_", 0), [], this=o, throws=True)
    except CppThrow as x:
        e.cover("an initial element could not be created")
        e.prove("initialization fails only when an element cannot be created", z3.BoolVal("failed" in e.path_state))
        g.check("after an initialization that failed")
        raise PathEnd()
    g.check("after initialization")
    e.prove("the initial elements are free, and no others", z3.And(g.vec.v.n == ini, g["ncreated"] == ini))


def destroy(e):
    rec, o, g, cfg = begin(e)
    e.assume(g["deleted"] == z3.K(g.P, z3.BoolVal(False)))
    at = dict(e.path_state["at"])
    at["deleted"] = g["deleted"]
    v0 = g.arr()
    idx = g["idx"]
    dt = [f for f in rec["inner"] if f.get("kind") == "CXXDestructorDecl"]
    run(e, e.prog.definition(dt[0]["id"]), [], this=o)
    e.cover("destroyed")
    p, i = z3.Const("anyelement", g.P), z3.Int("anyposition")
    e.prove("every free element is deleted with the pool", z3.Implies(z3.And(i >= 0, i < v0.n), g["deleted"][z3.Select(v0.arr, i)]))
    e.prove("no element on loan is deleted", z3.Implies(at["loaned"][p], z3.Not(g["deleted"][p])))


def hooks_default(e):
    """the default hooks meet the contracts assumed of them"""
    rec = e.prog.record(IPOOL)
    o = e.new_obj(rec, "pool")
    news, dels = [], []

    def new(t, inner, n):
        p = e.fresh("new", e.sort_of(PT))
        news.append((t, p))
        return p

    def delete(p, n):
        dels.append(p)
        return True
    e.hooks["new"], e.hooks["delete"] = new, delete
    r = rvalue(run(e, method(e, rec, "new_element_", 0), [], this=o))
    e.prove("new_element_: one new object, which is what it returns", z3.BoolVal(len(news) == 1 and r is news[0][1] and not dels))
    p = e.fresh("p", e.sort_of(PT))
    run(e, method(e, rec, "delete_element_", 1), [arg(e, PT, p)], this=o)
    e.prove("delete_element_: deletes what it is given, once", z3.BoolVal(len(dels) == 1 and dels[0] is p and len(news) == 1))
    run(e, method(e, rec, "reset_element_", 1), [arg(e, PT, p)], this=o)
    e.prove("reset_element_: neither creates nor deletes", z3.BoolVal(len(dels) == 1 and len(news) == 1))


UNITS = [Unit("construction and initialization", construct, setup), Unit("loan", loan, setup),
         Unit("return_loan", return_loan, setup), Unit("return_loan with nothing on loan", return_none, setup),
         Unit("destruction", destroy, setup), Unit("default hooks", hooks_default)]
