"""C17: the slot thread pool."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from .threads import Threads
from vc.frontend import REPO
from vc.stdlib import MutexV

PROGS = {"main": '''#include <functional>
#include <atomic>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/macros/macros.hpp>
#include "%(r)s/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp"
#include "%(r)s/cpp_utils/src/cpp/thread_pool/task/TaskId.cpp"
#include "%(r)s/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp"
namespace eprosima { namespace utils {
SlotThreadPool* vp_pool(unsigned int n) { return new SlotThreadPool(n); }
} }
''' % {"r": REPO}}
DRIVER = {"src": "c17.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp", "cpp_utils/src/cpp/thread_pool/task/TaskId.cpp",
                   "cpp_utils/src/cpp/wait/CounterWaitHandler.cpp", "cpp_utils/src/cpp/time/time_utils.cpp", "cpp_utils/src/cpp/utils.cpp",
                   "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["the contracts of the queue of tasks (produce, consume, enable, disable), proved by the checks of C14 and C15",
               "enable, disable and the destructor of one pool are not called at the same time by several threads, nor from its tasks",
               "tasks do not throw", "fewer than 2^32 task ids are asked for", "std::thread runs its function once, join waits for its end"]
W = U + "event::"
POOL = T(U + "SlotThreadPool")
TASK, THREAD = T(U + "Task"), T(U + "CustomThread")


class Pool(Monitor):
    """slots guarded by the mutex, they only grow; ghosts: which threads have been joined, whether the queue is enabled"""
    def __init__(self, e, o=None, fresh=True):
        self.e = e
        o = self.o = o or e.sym_obj(e.prog.record(POOL), "pool")
        cs = list(o.byname.values())
        one = lambda what, l: l[0] if len(l) == 1 else self.bad(what)
        self.slots = one("map of slots", [c for c in cs if isinstance(c.v, MapV)])
        self.threads = one("vector of threads", [c for c in cs if isinstance(c.v, Vec)])
        self.enabled = one("flag", [c for c in cs if c.t.noref().name.startswith("std::atomic")])
        self.number = one("number of threads", [c for c in cs if e.isint(c.t)])
        self.queue = one("queue", [c for c in cs if isinstance(c.v, Obj)])
        mx = one("mutex", [c for c in cs if isinstance(c.v, MutexV)])
        self.L = Lock([self.slots])
        super().__init__(e, {mx.v.label: self.L}, rely=self.grow)
        B = z3.BoolSort()
        self.on = Cell(e, T("bool"), e.fresh("queue_enabled", B), "ghost/on", name="on")
        self.joined = Cell(e, T("ghost"), z3.K(z3.IntSort(), z3.BoolVal(False)), "ghost/joined", name="joined")
        self.ids = []            # consumed
        self.calls = []
        self.runs = []
        if fresh:
            # the threads exist exactly while the pool is enabled
            v = e.lib.symarr(self.threads.v)
            e.assume(v.n == z3.If(self.enabled.v, self.number.v, 0))
            e.assume(z3.Implies(self.enabled.v, self.on.v))
            e.assume(self.slots.v.n >= 0)

    def bad(self, what):
        raise Unsupported("the pool has no single %s" % what)

    def grow(self, old):
        a, b = old[self.slots.label], self.slots.v
        k = z3.Const("k!t", b.dom.sort().domain())
        self.e.assume(z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.And(
            z3.Select(b.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k))), patterns=[z3.Select(b.dom, k)]))
        for i in self.ids:
            self.e.assume(z3.Select(b.dom, i))        # what is queued is registered (proved of emit)

    def end(self, l, n):
        s = l.cur
        super().end(l, n)
        a, b = s.pre[self.slots.label], s.post[self.slots.label]
        k = z3.Const("k!any", b.dom.sort().domain())
        self.e.prove("registered tasks stay registered, as they were", z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.And(
            z3.Select(b.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k)))), n)


class Tasks:
    """opaque tasks and threads"""
    def __init__(self, e):
        self.e = e

    def mon(self):
        return self.e.path_state.get("mon")

    def opaque_construct(self, t, inner, n):
        e, m = self.e, self.mon()
        k = t.noref().name
        if k == THREAD.name and m is not None:
            args = e.args_of([c for c in inner if c.get("kind") != "CXXDefaultArgExpr"])
            return self.thread(args, n)
        if k == TASK.name and len(inner) == 1:
            v = rvalue(e.ev(inner[0]))
            if isinstance(v, z3.ExprRef):
                return v

    def emplace(self, et, args, n):
        if et.name == THREAD.name and self.mon() is not None:
            return self.thread(args, n)

    def thread(self, args, n):
        e, m = self.e, self.mon()
        v = rvalue(args[0]) if args else None
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Ptr) and isinstance(v.target, FnV):
            v = v.target
        if not isinstance(v, FnV):
            raise Unsupported("a thread of %r" % (v,), n)
        e.prove("a thread starts while the queue is enabled", m.on.v, n)
        mark = len(m.calls)
        e.invoke(v, [rvalue(a) for a in args[1:]], n)
        e.prove("a thread runs the routine of this pool", z3.BoolVal(m.calls[mark:] == [("routine", m.o)]), n)
        return e.fresh("thread", e.sort_of(THREAD))

    def moved_from(self, v):
        if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            return self.e.fresh("moved", v.sort())

    def call_free(self, name, args, n, argn):
        if name == "bind" and args:
            f, bound = rvalue(args[0]), [rvalue(a) for a in args[1:]]
            return FnV("py", node=lambda e, a: e.invoke(f, bound, n))

    def invoke_ref(self, base, argn, n):
        m = self.mon()
        if m is None or argn or base.t.noref().name != TASK.name:
            return None
        # a reference into the map: std::map does not move its elements, registered tasks stay as they were (proved of every section)
        m.quiet = True
        v = rvalue(base)
        m.quiet = False
        self.e.prove("a task runs while no lock is held", z3.BoolVal(not m.L.held()), n)
        m.runs.append(v)
        return NONE

    def method(self, base, o, name, argn, n, bt):
        m, e = self.mon(), self.e
        if m is None:
            return None
        if name in ("lock", "unlock") and isinstance(o, MutexV):
            return None
        if name in ("join", "joinable") and isinstance(o, z3.ExprRef) and o.sort() == e.sort_of(THREAD):
            if not isinstance(base, ElemLV) and not hasattr(base, "idx"):
                raise Unsupported("join of a thread outside the vector", n)
            j = m.joined.v
            if name == "joinable":
                return z3.Not(z3.Select(j, base.idx))
            e.prove("a thread is joined once", z3.Not(z3.Select(j, base.idx)), n)
            e.prove("a thread is joined only once the queue is disabled", z3.Not(m.on.v), n)
            m.joined.set(z3.Store(j, base.idx, z3.BoolVal(True)))
            return z3.BoolVal(True)
        if name == "clear" and isinstance(base, LV) and base.root() is m.threads:
            self.gone("when they are discarded", n)
            m.threads.set(Vec(z3.IntVal(0), e.lib.symarr(o).arr, o.et))
            m.joined.set(z3.K(z3.IntSort(), z3.BoolVal(False)))
            return NONE

    def gone(self, when, n=None):
        m = self.mon()
        v = self.e.lib.symarr(m.threads.v)
        k = z3.Int("k!any")
        self.e.prove("all threads have been joined %s" % when, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.Select(m.joined.v, k))), n)

    def needs_dtor(self, v):
        if isinstance(v, Vec) and v.et and v.et.name == THREAD.name:
            return True

    def destroy(self, v):
        if isinstance(v, Vec) and v.et and v.et.name == THREAD.name and self.mon() is not None:
            self.gone("at the destruction")
            return True


def setup(e):
    from vc.stdlib import NONE as none
    globals()["NONE"] = none
    monitor.hooks(e)
    e.opaque_types |= {TASK.name, THREAD.name}
    e.lib.ext.append(Tasks(e))

    def mon():
        return e.path_state["mon"]

    def note(name, result=None, effect=None):
        def f(e, d, this, args, node):
            m = e.path_state.get("mon")
            if m is None:
                return None
            m.calls.append((name,) + tuple(rvalue(a) for a in args))
            if effect:
                effect(m, [rvalue(a) for a in args], node)
            return result() if result else None
        return Contract(f)

    def produced(m, a, node):
        e.prove("only registered tasks are queued", z3.And(z3.BoolVal(bool(m.L.held())), z3.Select(m.slots.v.dom, a[0])), node)
    for n in ("ConsumerWaitHandler", "DBQueueWaitHandler"):
        e.contracts[W + n + "::produce"] = note("produce", effect=produced)
    for n in ("WaitHandler", "CounterWaitHandler", "ConsumerWaitHandler", "DBQueueWaitHandler"):
        e.contracts[W + n + "::enable"] = note("enable", effect=lambda m, a, n: m.on.set(z3.BoolVal(True)))
        for d in ("disable", "blocking_disable"):
            e.contracts[W + n + "::" + d] = note("disable", effect=lambda m, a, n: m.on.set(z3.BoolVal(False)))
    e.contracts[W + "ConsumerWaitHandler::wait_all_consumed"] = note("wait_all_consumed", result=lambda: mon().reason)

    def consume(e, d, this, args, node):
        m = mon()
        e.prove("a thread holds no lock while it waits for tasks", z3.BoolVal(not m.L.held()), node)
        e.prove("every task that was taken has run, before the next one is taken", z3.BoolVal(m.ran()), node)
        if e.branch(e.fresh("disabled", z3.BoolSort()), node):
            raise CppThrow(T(U + "DisabledException"), e.new_obj(e.prog.record(T(U + "DisabledException")), "disabled"))
        i = e.fresh("id", z3.IntSort())
        e.assume(z3.And(i >= 0, i < 2 ** 32))
        m.ids = [i]
        m.runs = []
        m.pending = True
        return i
    e.contracts[W + "ConsumerWaitHandler::consume"] = Contract(consume)
    e.contracts[U + "tsnh"] = Contract(lambda e, d, this, args, node: e.prove("an impossible case is not reached", z3.BoolVal(False), node))
    e.contracts[U + "SlotThreadPool::thread_routine_"] = Contract(
        lambda e, d, this, args, node: mon().calls.append(("routine", this if isinstance(this, Obj) else rvalue(this))))

    def inv(ctx):
        m = e.path_state.get("mon")
        if m is None or not hasattr(m, "joined"):
            return
        v = e.lib.symarr(m.threads.v)
        k = z3.Int("k!inv")
        j = m.joined.v
        for c in ctx.ints(modified=True):
            yield "one thread for each %s" % c.name, z3.And(v.n == c.v, c.v <= m.number.v)
            yield "one thread for each asked for beyond %s" % c.name, z3.And(c.v >= 0, v.n + c.v == m.number.v)
        yield "no thread joined", z3.ForAll([k], z3.Not(z3.Select(j, k)))
        yield "queue enabled", m.on.v
        yield "queue disabled", z3.Not(m.on.v)
        for c in ctx.iters():
            if c.v.cont.root() is m.threads if isinstance(c.v.cont, LV) else False:
                yield "threads joined up to %s" % c.name, z3.ForAll([k], z3.Select(j, k) == z3.And(k >= 0, k < c.v.pos))
        for c in ctx.ints(modified=True):
            yield "threads joined up to index %s" % c.name, z3.And(c.v >= 0, z3.ForAll([k], z3.Select(j, k) == z3.And(k >= 0, k < c.v)))
    e.invariants.append(inv)


def valid(e, m, what):
    v = e.lib.symarr(m.threads.v)
    e.prove("%s: one thread of the pool for each asked for while enabled, none otherwise" % what, v.n == z3.If(m.enabled.v, m.number.v, 0))
    k = z3.Int("k!any")
    e.prove("%s: the threads of the pool have not been joined" % what, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), z3.Not(z3.Select(m.joined.v, k)))))
    e.prove("%s: the queue is enabled while the pool is" % what, z3.Implies(m.enabled.v, m.on.v))


def status(name):
    def unit(e):
        m = Pool(e)
        was = m.enabled.v
        e.assume(m.number.v >= 0)
        run(e, method(e, e.prog.record(POOL), name, 0), [], this=m.o)
        e.cover("returns")
        m.closed()
        e.prove("%s: the pool is %sd" % (name, name), m.enabled.v == (name == "enable"))
        if name == "disable":
            e.prove("disable: the queue is disabled", z3.Implies(was, z3.Not(m.on.v)))
        valid(e, m, name)
        e.prove("%s: nothing is queued" % name, z3.BoolVal(not [c for c in m.calls if c[0] == "produce"]))
    return unit


def destroy(e):
    m = Pool(e)
    e.destroy(m.o)
    e.cover("destroyed")
    m.closed()
    e.prove("destruction: the queue is disabled", z3.Not(m.on.v))


def construct(e):
    n = e.fresh("n", z3.IntSort())
    e.assume(z3.And(n >= 0, n < 2 ** 32))
    o = rvalue(run(e, fn(e, U + "vp_pool"), [arg(e, UINT, n, "n")])).target
    o = o if isinstance(o, Obj) else rvalue(o)
    m = Pool(e, o, fresh=False)
    e.cover("made")
    e.prove("construction: not enabled, no thread, no slot, the number of threads asked for", z3.And(
        z3.Not(m.enabled.v), m.threads.v.n == 0, m.number.v == n, m.slots.v.n == 0))


def keyed(e, name):
    m = Pool(e)
    i = e.fresh("task_id", z3.IntSort())
    e.assume(z3.And(i >= 0, i < 2 ** 32))
    f = method(e, e.prog.record(POOL), name)
    a = [arg(e, UINT, i, "task_id")]
    t = None
    if name == "slot":
        t = e.fresh("task", e.sort_of(TASK))
        a.append(arg(e, TASK, t, "task"))
    bad = None
    try:
        run(e, f, a, this=m.o, throws=True)
    except CppThrow as x:
        bad = x
        e.prove("%s: refused with ValueNotAllowedException" % name, z3.BoolVal("ValueNotAllowedException" in x.t.name))
    m.closed()
    secs = [s for s in m.sections if s.lock is m.L]
    e.prove("%s: one critical section" % name, z3.BoolVal(len(secs) == 1))
    if len(secs) != 1:
        raise PathEnd()
    return m, i, t, secs[0].pre[m.slots.label], secs[0].post[m.slots.label], bad


def emit(e):
    m, i, _, a, b, bad = keyed(e, "emit")
    e.cover("refused" if bad else "queued")
    prod = [c for c in m.calls if c[0] == "produce"]
    e.prove("emit: a task is refused if it is not registered", z3.Select(a.dom, i) == z3.BoolVal(not bad))
    e.prove("emit: the task is queued once, or not at all if it is refused", z3.BoolVal(len(prod) == (0 if bad else 1)))
    if prod:
        e.prove("emit: what is queued is the task asked for", prod[0][1] == i)
    e.prove("emit: the slots do not change", z3.And(a.dom == b.dom, a.n == b.n, a.val == b.val))


def slot(e):
    m, i, t, a, b, bad = keyed(e, "slot")
    e.cover("refused" if bad else "registered")
    e.prove("slot: refused if there is one already", z3.Select(a.dom, i) == z3.BoolVal(bool(bad)))
    if bad:
        e.prove("slot: nothing changes if it is refused", z3.And(a.dom == b.dom, a.n == b.n, a.val == b.val))
    else:
        e.prove("slot: the task is registered with its id, and nothing else changes", z3.And(
            b.dom == z3.Store(a.dom, i, z3.BoolVal(True)), b.n == a.n + 1, z3.Select(b.val, i) == t))
    e.prove("slot: nothing is queued nor run", z3.BoolVal(not m.calls and not m.runs))


def routine(e):
    m = Pool(e)
    m.pending = False

    def ran():
        if not m.pending:
            return True
        if len(m.runs) != 1:
            return False
        v = m.sections[-1].pre[m.slots.label] if m.sections else None
        e.prove("the task that runs is the one registered with the id", m.runs[0] == z3.Select(v.val, m.ids[0]) if v is not None else False)
        m.pending = False
        return True
    m.ran = ran

    def back(ctx):
        e.prove("every task that was taken runs once", z3.BoolVal(ran()))
        m.closed()
    e.hooks["decreases"] = back
    run(e, method(e, e.prog.record(POOL), "thread_routine_", 0), [], this=m.o)
    e.cover("ends")
    m.closed()
    e.prove("the thread ends only when the queue is disabled", z3.BoolVal(not m.pending and not m.runs))


def wait_all(e):
    m = Pool(e)
    m.reason = e.fresh("reason", z3.IntSort())
    t = e.fresh("timeout", z3.IntSort())
    e.assume(z3.And(t >= 0, t < 2 ** 32))
    r = rvalue(run(e, method(e, e.prog.record(POOL), "wait_all_consumed", 1), [arg(e, UINT, t, "timeout")], this=m.o))
    e.cover("returns")
    c = [c for c in m.calls if c[0] == "wait_all_consumed"]
    e.prove("wait_all_consumed: waits for the queue, as long as asked, and gives its answer", z3.And(
        z3.BoolVal(len(c) == 1 and len(c[0]) == 2), c[0][1] == t, r == m.reason) if c else False)


def task_id(e):
    ops = []

    def atomic(base, o, name, argn, n, et):
        ops.append((base, name))
        return None
    e.hooks["atomic"] = atomic

    def static(c):
        return None
    f = fn(e, U + "new_unique_task_id")
    a = rvalue(run(e, f, []))
    k = len(ops)
    b = rvalue(run(e, f, []))
    e.cover("two ids")
    e.prove("one atomic operation gives the id and takes it", z3.BoolVal(k == 1 and len(ops) == 2 and ops[0][0] is ops[1][0]))
    e.prove("the ids are different", a != b)
    cell = ops[0][0]
    v = e.fresh("last", z3.IntSort())
    e.assume(z3.And(v >= 0, v < 2 ** 32 - 1))
    cell.set(v)
    c = rvalue(run(e, f, []))
    d = rvalue(run(e, f, []))
    e.prove("the ids go up, so they never repeat", d > c)


UNITS = [Unit("SlotThreadPool::enable", status("enable"), setup), Unit("SlotThreadPool::disable", status("disable"), setup),
         Unit("SlotThreadPool destruction", destroy, setup), Unit("SlotThreadPool construction", construct, setup),
         Unit("SlotThreadPool::emit", emit, setup), Unit("SlotThreadPool::slot", slot, setup),
         Unit("SlotThreadPool::thread_routine_", routine, setup), Unit("SlotThreadPool::wait_all_consumed", wait_all, setup),
         Unit("new_unique_task_id", task_id, setup)]
