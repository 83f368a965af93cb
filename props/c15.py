"""C15: the double-buffered queue and the consumer handlers."""
from .common import *
from . import monitor
from .monitor import method
from .c14 import CNT
from vc.stdlib import MutexV, CondVar
from vc.frontend import REPO

PROGS = {"main": '''#include <functional>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include "%s/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp"
namespace eprosima { namespace vp { struct OpVal { OpVal(); OpVal(const OpVal&); OpVal& operator=(const OpVal&); int x; }; }
namespace utils { namespace event {
template class DBQueue<eprosima::vp::OpVal>;
template class ConsumerWaitHandler<eprosima::vp::OpVal>;
template class DBQueueWaitHandler<eprosima::vp::OpVal>;
DBQueueWaitHandler<eprosima::vp::OpVal> vp_make(unsigned int n, bool en) { return DBQueueWaitHandler<eprosima::vp::OpVal>(n, en); }
DBQueueWaitHandler<eprosima::vp::OpVal> vp_make0() { return DBQueueWaitHandler<eprosima::vp::OpVal>(); }
} } }
''' % REPO}
DRIVER = {"src": "c15.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/wait/CounterWaitHandler.cpp", "cpp_utils/src/cpp/time/time_utils.cpp",
                   "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["the contracts of CounterWaitHandler (increment, wait_and_decrement), proved by the check of C14",
               "elements are opaque values whose copy and move do not throw",
               "a handler starts with as many elements as its initial value says (0 by default)",
               "DBQueue alone has one consumer at a time (multiple producers, single consumer, as documented)"]
W = U + "event::"
V = T("eprosima::vp::OpVal")
DBQ = parse_type(W + "DBQueue<eprosima::vp::OpVal>")
DBH = parse_type(W + "DBQueueWaitHandler<eprosima::vp::OpVal>")
CON = parse_type(W + "ConsumerWaitHandler<eprosima::vp::OpVal>")


class Queue:
    """two queues, each accessed only with its mutex; the pointers to them are changed only with both.
    consumer(): whether this thread is the only one that may take elements or swap (then others may only append)"""
    def __init__(self, e, o, extra=None):
        self.e, self.o = e, o
        vs = [c for c in o.byname.values() if isinstance(c.v, Vec)]
        ps = [c for c in o.byname.values() if c.t.ptr]
        ms = [c for c in o.byname.values() if isinstance(c.v, MutexV)]
        if len(vs) != 2 or len(ps) != 2 or len(ms) != 2:
            raise Unsupported("the queue has not two queues, two pointers and two mutexes")
        fg = [c for c in ps if "fore" in c.name] or ps[:1]
        bg = [c for c in ps if c not in fg]
        mf = [c for c in ms if "fore" in c.name] or ms[:1]
        mb = [c for c in ms if c not in mf]
        self.vs = vs
        self.ptr = {"fg": fg[0], "bg": bg[0]}
        self.mutex = {mf[0].v.label: "fg", mb[0].v.label: "bg"}
        self.held = {"fg": 0, "bg": 0, "pop": 0}
        self.pop = None                 # label of the mutex of the consumers
        self.single = True              # one consumer at a time
        self.steps = []                 # (what, state before, state after) of every section
        self.quiet = True
        self.least = None               # the queue holds at least this many elements (others take only their own)
        # one of the two configurations
        swapped = e.branch(e.fresh("swapped", z3.BoolSort()), None)
        self.ptr["fg"].set(Ptr(vs[1] if swapped else vs[0]))
        self.ptr["bg"].set(Ptr(vs[0] if swapped else vs[1]))
        for c in vs:
            v = e.lib.symarr(c.v)
            e.assume(v.n >= 0)
            c.set(v)
        self.quiet = False
        e.path_state["q"] = self
        self.begin = self.state()
        self.deep = False

    def cell(self, which):
        p = self.ptr[which].v
        if not isinstance(p, Ptr) or p.target not in self.vs:
            raise Unsupported("unknown pointer to a queue")
        return p.target

    def state(self):
        s = tuple(self.e.lib.symarr(self.cell(w).v) for w in ("fg", "bg"))
        return s

    def assume_least(self):
        if self.least is not None:
            f, b = self.state()
            self.e.assume(f.n + b.n >= self.least)

    def append(self, c):
        """other threads appended to this queue"""
        e, v = self.e, self.e.lib.symarr(c.v)
        w = e.lib.symarr(Vec(e.fresh("len", z3.IntSort()), e.fresh("seq", v.arr.sort()), v.et))
        i = z3.Int("i!q")
        e.assume(w.n >= v.n)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.Select(w.arr, i) == z3.Select(v.arr, i)),
                           patterns=[z3.Select(w.arr, i)]))
        c.set(w)

    def acquire(self, m, shared, n):
        e = self.e
        if m.label == self.pop:
            e.prove("a lock held exclusively is not taken again", z3.BoolVal(not self.held["pop"]), n, "safety")
            self.held["pop"] = 1
            # other consumers ran: anything, with what is owed to this thread still there
            self.quiet = True
            for c in self.vs:
                c.set(Vec(e.fresh("len", z3.IntSort()), e.fresh("seq", e.lib.symarr(c.v).arr.sort()), V))
                e.assume(c.v.n >= 0)
            self.assume_least()
            self.quiet = False
            self.begin = self.state()
            return
        k = self.mutex.get(m.label)
        if k is None:
            return
        e.prove("a lock held exclusively is not taken again", z3.BoolVal(not self.held[k]), n, "safety")
        if self.held[k]:
            raise PathEnd()
        self.quiet = True
        if not self.held["bg"]:
            self.append(self.cell("bg"))       # producers ran
        self.assume_least()
        self.quiet = False
        self.held[k] = 1
        self.pre = self.state() if not (self.held["fg"] and self.held["bg"]) else self.state()

    def release(self, m, shared, n):
        e = self.e
        if m.label == self.pop:
            self.held["pop"] = 0
            return
        k = self.mutex.get(m.label)
        if k is None:
            return
        e.prove("a lock is released by the one that holds it", z3.BoolVal(bool(self.held[k])), n, "safety")
        self.steps.append((tuple(sorted(x for x in ("fg", "bg") if self.held[x])), self.pre, self.state()))
        self.held[k] = 0
        self.pre = self.state()

    def use(self, c, write):
        if self.quiet:
            return
        c = c.root() if isinstance(c, LV) and not isinstance(c, Cell) else c
        e = self.e
        for k, p in self.ptr.items():
            if c is p:
                ok = (self.held["fg"] and self.held["bg"]) if write else (self.held["fg"] or self.held["bg"])
                e.prove("the pointer %s is %s only with its lock%s" % (c.name, "changed" if write else "read", "s" if write else ""),
                        z3.BoolVal(bool(ok)), None, "lock")
                if not ok:
                    raise PathEnd()
        if c in self.vs:
            k = "fg" if c is self.cell("fg") else "bg"
            # in the handler, only the thread that holds the mutex of the consumers changes the foreground queue
            ok = self.held[k] or (k == "fg" and not write and self.held["pop"])
            if k == "fg" and write and self.pop is not None:
                ok = ok and self.held["pop"]
            e.prove("the %s queue is accessed only with its lock" % ("foreground" if k == "fg" else "background"),
                    z3.BoolVal(bool(ok)), None, "lock")
            if not ok:
                raise PathEnd()

    def closed(self):
        self.e.prove("no lock is left held", z3.BoolVal(not any(self.held.values())))

    def read(self, c):
        self.use(c, False)

    def write(self, c):
        self.use(c, True)


def seq_eq(e, a, b, off=0, upto=None):
    """a[i] == b[i+off] for every i in a"""
    i = z3.Int("i!any")
    n = a.n if upto is None else upto
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a.arr, i) == z3.Select(b.arr, i + off)))


def equal(e, a, b):
    return z3.And(a.n == b.n, seq_eq(e, a, b))


def appended(e, old, new, x):
    """new is old followed by x"""
    return z3.And(new.n == old.n + 1, seq_eq(e, old, new), z3.Select(new.arr, old.n) == x)


def popped(e, old, new):
    return z3.And(old.n >= 1, new.n == old.n - 1, seq_eq(e, new, old, 1))


def setup(e):
    def q():
        return e.path_state.get("q")
    e.hooks["acquire"] = lambda m, shared=False, n=None: q() and q().acquire(m, shared, n)
    e.hooks["release"] = lambda m, shared=False, n=None: q() and q().release(m, shared, n)
    e.hooks["read"] = lambda c: q() and q().read(c)
    e.hooks["write"] = lambda c: q() and q().write(c)


def start(e):
    o = e.sym_obj(e.prog.record(DBQ), "queue")
    return o, Queue(e, o)


def total(st):
    return st[0].n + st[1].n


def only(e, q, name, which):
    """every section but the one (if any) that `which` describes leaves both queues as they were; exactly one is needed"""
    ok = []
    for i, (locks, a, b) in enumerate(q.steps):
        rest = [z3.And(equal(e, x[0], y[0]), equal(e, x[1], y[1])) for j, (_, x, y) in enumerate(q.steps) if j != i]
        ok.append(z3.And(which(a, b), *rest))
    e.prove(name, z3.Or(*ok) if ok else z3.BoolVal(False))


def d_push(k):
    def unit(e):
        o, q = start(e)
        rec = e.prog.record(DBQ)
        x = e.fresh("item", e.sort_of(V))
        f = [method(e, rec, "push", 1, lambda d: typeof(params_of(d)[0]).const == (k == 0))][0]
        run(e, f, [arg(e, V, x, "item")], this=o)
        e.cover("pushed")
        q.closed()
        only(e, q, "push: the element is put at the end, and nothing else changes", lambda a, b: z3.And(
            equal(e, a[0], b[0]), appended(e, a[1], b[1], x)))
    return unit


def d_swap(e):
    o, q = start(e)
    run(e, method(e, e.prog.record(DBQ), "swap", 0), [], this=o)
    e.cover("swapped")
    q.closed()
    only(e, q, "swap: what was in the background is now in the foreground, in order, and the background is empty",
         lambda a, b: z3.And(equal(e, a[1], b[0]), b[1].n == 0))


def d_clear(e):
    o, q = start(e)
    run(e, method(e, e.prog.record(DBQ), "clear", 0), [], this=o)
    e.cover("cleared")
    q.closed()
    e.prove("clear: both queues are empty at one moment", z3.Or(*[z3.And(b[0].n == 0, b[1].n == 0) for _, a, b in q.steps]))


def d_observe(name):
    def unit(e):
        o, q = start(e)
        r = rvalue(run(e, method(e, e.prog.record(DBQ), name, 0), [], this=o))
        e.cover("asked")
        q.closed()
        spec = {"empty": lambda s: r == (s[0].n == 0), "size": lambda s: r == s[0].n,
                "both_empty": lambda s: r == z3.And(s[0].n == 0, s[1].n == 0)}[name]
        if name == "size":
            e.assume(q.begin[0].n < 2 ** 63)
        e.prove("%s: of one moment" % name, z3.Or(*[spec(a) for _, a, b in q.steps]))
        for _, a, b in q.steps:
            e.prove("%s: changes nothing" % name, z3.And(equal(e, a[0], b[0]), equal(e, a[1], b[1])))
    return unit


def d_front(const):
    def unit(e):
        o, q = start(e)
        e.assume(q.begin[0].n > 0)
        f = method(e, e.prog.record(DBQ), "front", 0, lambda d: ("const" in d["type"]["qualType"].split(")")[-1]) == const)
        r = run(e, f, [], this=o)
        e.cover("front")
        q.closed()
        q.quiet = True
        e.prove("front: the first element", rvalue(r) == z3.Select(q.begin[0].arr, 0))
        for _, a, b in q.steps:
            e.prove("front: changes nothing", z3.And(equal(e, a[0], b[0]), equal(e, a[1], b[1])))
    return unit


def d_pop(name):
    def unit(e):
        o, q = start(e)
        e.assume(q.begin[0].n > 0)
        r = run(e, method(e, e.prog.record(DBQ), name, 0), [], this=o)
        e.cover("popped")
        q.closed()
        if name == "front_and_pop":
            e.prove("front_and_pop: the first element", rvalue(r) == z3.Select(q.begin[0].arr, 0))
        only(e, q, "%s: removes the first element, and nothing else changes" % name, lambda a, b: z3.And(
            popped(e, a[0], b[0]), equal(e, a[1], b[1])))
    return unit


def d_new(e):
    rec = e.prog.record(DBQ)
    o = e.new_obj(rec, "queue")
    c = [f for f in rec["inner"] if f.get("kind") == "CXXConstructorDecl" and not f.get("isImplicit") and not params_of(f)]
    run(e, e.prog.definition(c[0]["id"]), [], this=o)
    e.cover("made")
    vs = [c for c in o.byname.values() if isinstance(c.v, Vec)]
    ps = [c.v for c in o.byname.values() if c.t.ptr]
    e.prove("two empty queues, each pointed to by one pointer", z3.And(*[v.v.n == 0 for v in vs], z3.BoolVal(
        len(vs) == 2 and len(ps) == 2 and {id(p.target) for p in ps} == {id(v) for v in vs})))


# ---------------------------------------------------------------- the handler over the queue

def handler(e):
    """the handler, its queue and the mutex of its consumers"""
    o = e.sym_obj(e.prog.record(DBH), "handler")
    qs = [c.v for c in o.byname.values() if isinstance(c.v, Obj) and c.v.rec["_T"].key() == DBQ.key()]
    own = {c["id"] for c in e.prog.record(DBH)["inner"] if c.get("kind") == "FieldDecl"}
    ms = [c for k, c in o.fields.items() if k in own and isinstance(c.v, MutexV)]
    if len(qs) != 1 or len(ms) > 1:
        raise Unsupported("the handler has not one queue and one mutex")
    q = Queue(e, qs[0])
    q.pop = ms[0].v.label if ms else None
    return o, q


def h_add(k):
    def unit(e):
        o, q = handler(e)
        x = e.fresh("value", e.sort_of(V))
        f = method(e, e.prog.record(DBH), "add_value_", 1, lambda d: typeof(params_of(d)[0]).const == (k == 0))
        run(e, f, [arg(e, V, x, "value")], this=o)
        e.cover("added")
        q.closed()
        only(e, q, "add_value_: the element is put at the end, and nothing else changes", lambda a, b: z3.And(
            equal(e, a[0], b[0]), appended(e, a[1], b[1], x)))
    return unit


def h_next(e):
    """an element that is owed to this thread is there: the queue is not empty"""
    o, q = handler(e)
    q.least = z3.IntVal(1)
    q.assume_least()
    r = rvalue(run(e, method(e, e.prog.record(DBH), "get_next_value_", 0), [], this=o))
    e.cover("taken")
    q.closed()
    e.prove("get_next_value_: works while no other consumer does", z3.BoolVal(q.pop is not None))
    f, b = q.begin
    first = z3.If(f.n > 0, z3.Select(f.arr, 0), None_or(e, q))
    f1, b1 = q.state()
    i = z3.Int("i!any")
    old = lambda i: z3.If(i < f.n, z3.Select(f.arr, i), z3.Select(last_bg(q).arr, i - f.n))
    e.prove("get_next_value_: the oldest element", r == old(z3.IntVal(0)))
    n0 = f.n + last_bg(q).n
    new = lambda i: z3.If(i < f1.n, z3.Select(f1.arr, i), z3.Select(b1.arr, i - f1.n))
    e.prove("get_next_value_: one element less (besides what was produced meanwhile)", f1.n + b1.n >= n0 - 1)
    e.prove("get_next_value_: the others stay, in order", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0 - 1), new(i) == old(i + 1))))
    e.prove("get_next_value_: elements are taken once", z3.Sum(*[total(a) - total(b) for _, a, b in q.steps], z3.IntVal(0)) == 1)


def last_bg(q):
    """the background queue as it was at the swap (or at the beginning)"""
    for locks, a, b in q.steps:
        if len(locks) == 2:
            return a[1]
    return q.begin[1]


def None_or(e, q):
    return z3.Select(last_bg(q).arr, 0)


# ---------------------------------------------------------------- produce and consume

class Flow:
    """ghost: elements in the queue = value of the counter + elements pushed and not yet counted + elements owed to consumers"""
    def __init__(self, e):
        self.e, self.pushed, self.owed, self.trace = e, 0, 0, []
        e.path_state["flow"] = self


def flow_setup(e):
    def fl():
        return e.path_state["flow"]

    def add(e, d, this, args, node):
        fl().pushed += 1
        fl().trace.append(("push", rvalue(args[0])))

    def inc(e, d, this, args, node):
        e.prove("the counter counts only elements that are already in the queue", z3.BoolVal(fl().pushed >= 1), node)
        fl().pushed -= 1
        fl().trace.append(("count",))
        return TempLV(this, CNT)

    def dec(e, d, this, args, node):
        r = e.fresh("reason", z3.IntSort())
        e.assume(z3.And(r >= 0, r <= 2))
        fl().reason, fl().timeout = r, rvalue(args[0])
        if e.branch(r == 2, node):
            fl().owed += 1
        fl().trace.append(("wait",))
        return r

    def thr(e, d, this, args, node):
        fl().timeout = rvalue(args[0])
        fl().reason = e.fresh("reason", z3.IntSort())
        fl().trace.append(("threshold",))
        return fl().reason

    def take(e, d, this, args, node):
        e.prove("an element is taken only by a thread it is owed to", z3.BoolVal(fl().owed >= 1), node)
        fl().owed -= 1
        fl().item = e.fresh("item", e.sort_of(V))
        fl().trace.append(("take",))
        return fl().item

    def value(e, d, this, args, node):
        fl().value = e.fresh("value", z3.IntSort())
        e.assume(z3.And(fl().value >= 0, fl().value < 2 ** 32))
        return fl().value
    for n in ("DBQueueWaitHandler", "ConsumerWaitHandler"):
        e.contracts[W + n + "::add_value_"] = Contract(add)
        e.contracts[W + n + "::get_next_value_"] = Contract(take)
    for n, f in (("wait_and_decrement", dec), ("operator++", inc), ("wait_threshold_reached", thr)):
        e.contracts[W + "CounterWaitHandler::" + n] = Contract(f)
    e.contracts[W + "WaitHandler::get_value"] = Contract(value)


def c_produce(k):
    def unit(e):
        o = e.sym_obj(e.prog.record(DBH), "handler")
        f = Flow(e)
        x = e.fresh("value", e.sort_of(V))
        m = method(e, e.prog.record(CON), "produce", 1, lambda d: typeof(params_of(d)[0]).const == (k == 0))
        run(e, m, [arg(e, V, x, "value")], this=o)
        e.cover("produced")
        pushes = [t for t in f.trace if t[0] == "push"]
        e.prove("produce: the element is put in the queue once", z3.And(z3.BoolVal(len(pushes) == 1), pushes[0][1] == x if pushes else False))
        e.prove("produce: what is put in the queue is counted", z3.BoolVal(f.pushed == 0 and f.owed == 0))
    return unit


def c_consume(e):
    o = e.sym_obj(e.prog.record(DBH), "handler")
    f = Flow(e)
    t = e.sym(UINT, "timeout")
    m = method(e, e.prog.record(CON), "consume", 1)
    try:
        r = rvalue(run(e, m, [arg(e, UINT, t, "timeout")], this=o, throws=True))
    except CppThrow as x:
        e.cover("none")
        e.prove("consume: without an element, the reason is told", z3.Or(
            z3.And(f.reason == 0, z3.BoolVal(x.t.name == U + "DisabledException")),
            z3.And(f.reason == 1, z3.BoolVal(x.t.name == U + "TimeoutException"))))
        e.prove("consume: an element that was awaited is not dropped", z3.BoolVal(f.owed == 0))
        raise PathEnd()
    e.cover("consumed")
    e.prove("consume: an element is given only when there was one", f.reason == 2)
    e.prove("consume: the element taken", z3.And(z3.BoolVal([x[0] for x in f.trace].count("take") == 1), r == f.item))
    e.prove("consume: an element that was awaited is not dropped", z3.BoolVal(f.owed == 0))
    e.prove("consume: waits as long as asked", f.timeout == t)


def c_all(e):
    o = e.sym_obj(e.prog.record(DBH), "handler")
    f = Flow(e)
    t = e.sym(UINT, "timeout")
    r = rvalue(run(e, method(e, e.prog.record(CON), "wait_all_consumed", 1), [arg(e, UINT, t, "timeout")], this=o))
    e.cover("waited")
    e.prove("wait_all_consumed: waits for the counter to be 0, and tells the reason", z3.And(
        z3.BoolVal([x[0] for x in f.trace] == ["threshold"]), r == f.reason, f.timeout == t))


def c_ready(e):
    o = e.sym_obj(e.prog.record(DBH), "handler")
    f = Flow(e)
    r = rvalue(run(e, method(e, e.prog.record(CON), "elements_ready_to_consume", 0), [], this=o))
    e.cover("asked")
    e.prove("elements_ready_to_consume: the counter", r == f.value)


def c_make(name, n):
    def unit(e):
        ts = [UINT, T("bool")][:n]
        a = [arg(e, t, e.sym(t, "a%d" % i), "a%d" % i) for i, t in enumerate(ts)]
        v = [rvalue(x) for x in a]
        o = rvalue(run(e, fn(e, W + name), a))
        e.cover("made")
        c = {}
        for x in o.byname.values():
            c.setdefault(x.name, x)
        get = lambda s: [x.v for x in o.byname.values() if x.name == s][0]
        e.prove("counts from the initial value, with threshold 0", z3.And(get("value_") == (v[0] if v else 0), get("threshold_") == 0,
                                                                            get("enabled_") == (v[1] if v else z3.BoolVal(True))))
    return unit


UNITS = [Unit("DBQueue: construction", d_new), Unit("DBQueue: push", d_push(0), setup), Unit("DBQueue: push (move)", d_push(1), setup),
         Unit("DBQueue: swap", d_swap, setup), Unit("DBQueue: clear", d_clear, setup)] + \
    [Unit("DBQueue: " + n, d_observe(n), setup) for n in ("empty", "size", "both_empty")] + \
    [Unit("DBQueue: front", d_front(False), setup), Unit("DBQueue: front (const)", d_front(True), setup)] + \
    [Unit("DBQueue: " + n, d_pop(n), setup) for n in ("pop", "front_and_pop")] + \
    [Unit("DBQueueWaitHandler: add_value_", h_add(0), setup), Unit("DBQueueWaitHandler: add_value_ (move)", h_add(1), setup),
     Unit("DBQueueWaitHandler: get_next_value_", h_next, setup),
     Unit("ConsumerWaitHandler: produce", c_produce(0), flow_setup), Unit("ConsumerWaitHandler: produce (move)", c_produce(1), flow_setup),
     Unit("ConsumerWaitHandler: consume", c_consume, flow_setup), Unit("ConsumerWaitHandler: wait_all_consumed", c_all, flow_setup),
     Unit("ConsumerWaitHandler: elements_ready_to_consume", c_ready, flow_setup),
     Unit("construction", c_make("vp_make", 2)), Unit("default construction", c_make("vp_make0", 0))]
