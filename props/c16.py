"""C16: event handlers."""
from .common import *
from .waits import *
from .threads import Threads
from vc.frontend import REPO
from vc.stdlib import NONE, ThreadV, SharedV, MutexV, CondVar

PROGS = {"main": '''#include <functional>
#include <memory>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/event/EventHandler.hpp>
#include "%(r)s/cpp_utils/src/cpp/event/PeriodicEventHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/event/MultipleEventHandler.cpp"
namespace eprosima { namespace vp { struct OpVal { OpVal(); OpVal(const OpVal&); OpVal& operator=(const OpVal&); int x; }; }
namespace utils { namespace event {
template class EventHandler<eprosima::vp::OpVal>;
EventHandler<eprosima::vp::OpVal>* vp_event() { return new EventHandler<eprosima::vp::OpVal>(); }
PeriodicEventHandler* vp_periodic(std::function<void()> c, unsigned int p) { return new PeriodicEventHandler(c, p); }
PeriodicEventHandler* vp_periodic_bare(unsigned int p) { return new PeriodicEventHandler(p); }
MultipleEventHandler* vp_multiple(std::function<void()> c) { return new MultipleEventHandler(c); }
MultipleEventHandler* vp_multiple_bare() { return new MultipleEventHandler(); }
template void MultipleEventHandler::register_event_handler<EventHandler<eprosima::vp::OpVal>, eprosima::vp::OpVal>(
        std::unique_ptr<EventHandler<eprosima::vp::OpVal>>);
} } }
''' % {"r": REPO}}
DRIVER = {"src": "c16.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/event/PeriodicEventHandler.cpp", "cpp_utils/src/cpp/event/MultipleEventHandler.cpp",
                   "cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["std::condition_variable: a wait releases the lock and takes it again, may wake spuriously, and wakes after a notification "
               "that follows its start; a timed wait ends some time after its deadline",
               "fewer than 2^32 - 1 events are counted and fewer than 2^31 threads wait at a time",
               "a thread that is notified eventually runs (fair scheduling)",
               "a callback may do anything with the handler but end its own thread's hold of the lock; the callbacks given are not empty",
               "a callback of a periodic handler does not unset itself from its own thread"]
W = U + "event::"
V = T("eprosima::vp::OpVal")
EV = parse_type(W + "EventHandler<eprosima::vp::OpVal>")
PER, MUL = T(W + "PeriodicEventHandler"), T(W + "MultipleEventHandler")


class Ev(Waits):
    """wait mutex W: callback set?, number of events, waiting threads;  callback mutex C: the callback; both needed to change whether
    it is set;  event mutex E: only its holder sets and unsets"""
    def __init__(self, e, t=EV, o=None):
        self.e = e
        o = self.o = o or e.sym_obj(e.prog.record(t), "handler")
        base = [c for c in o.byname.values()]
        at = [c for c in base if c.t.noref().name.startswith("std::atomic")]
        st = [c for c in at if c.v.sort() == z3.BoolSort() and "callback" in c.name]
        num = [c for c in at if c.v.sort() != z3.BoolSort()]
        tw = [c for c in num if "thread" in c.name or "wait" in c.name]
        num = [c for c in num if c not in tw]
        mx = [c for c in base if isinstance(c.v, MutexV)]
        wm = [c for c in mx if not c.v.kind.startswith("std::recursive") and "period" not in c.name]
        rm = [c for c in mx if c.v.kind.startswith("std::recursive")]
        cm = [c for c in rm if "callback" in c.name]
        em = [c for c in rm if c not in cm]
        cv = [c for c in base if isinstance(c.v, CondVar) and "period" not in c.name]
        cb = [c for c in base if c.t.noref().name == "std::function"]
        if not (len(st) == len(num) == len(tw) == len(wm) == len(cm) == len(em) == len(cv) == len(cb) == 1):
            raise Unsupported("the fields of the handler are not the expected ones: %s" % [c.label for c in base])
        self.set, self.num, self.tw, self.cb = st[0], num[0], tw[0], cb[0]
        self.W = Lock([self.set, self.num, self.tw])
        self.C = Lock([self.cb], inv=self.valid, recursive=True)
        self.E = Lock([], recursive=True)
        self.cvl = cv[0].v.label
        super().__init__(e, {wm[0].v.label: self.W, cm[0].v.label: self.C, em[0].v.label: self.E}, [],
                         off=lambda s: z3.Not(s[self.set.label]), rely=self.others)
        self.conds = [Cond("the number of events", (self.W, self.cvl), None)]
        self.own = z3.IntVal(0)
        e.assume(z3.And(self.tw.v >= 0, self.tw.v < 2 ** 31, self.num.v >= 0, self.num.v < 2 ** 32 - 1))
        # ghosts: a notification is owed; nobody was counted as waiting while no callback was set
        self.debt = Cell(e, T("bool"), z3.BoolVal(False), "ghost/debt", name="debt")
        self.empty = Cell(e, T("bool"), z3.BoolVal(False), "ghost/empty", name="empty")
        self.counted = lambda: self.own + self.tw.v - self.W.cur.pre[self.tw.label] == 1
        self.first = self.set.v
        self.calls, self.hooks, self.gone = [], [], False
        self.now = None          # value of the set flag when it was last read
        self.quiet = True
        self.cb.set(FnV("opaque", name="current"))
        self.quiet = False

    def valid(self):
        f = self.cb.v
        ok = isinstance(f, FnV) and f.kind == "opaque" and f.name in ("current", "user")
        return z3.Implies(self.set.v, z3.And(z3.BoolVal(ok), z3.Not(f.null)) if ok else z3.BoolVal(False))

    def havoc(self, l):
        if l is self.C:
            # the callback that others left: it is a user's whenever it is set
            self.quiet = True
            if not self.E.held():
                self.cb.set(FnV("opaque", name="current"))
                self.fresh_w()
            self.quiet = False
            return
        super().havoc(l)

    def fresh_w(self):
        old = self.snapshot(self.W)
        for x in self.W.cells:
            x.set(self.e.lib.havoc(x))
        self.others(old)

    def others(self, old):
        e = self.e
        if self.set.label not in old:
            return
        e.assume(z3.And(self.tw.v >= self.own, self.tw.v < 2 ** 31, self.num.v >= 0, self.num.v < 2 ** 32 - 1))
        os, ot = old[self.set.label], old[self.tw.label]
        if self.C.held() or self.E.held():
            e.assume(self.set.v == os)
            e.assume(z3.Implies(z3.Not(os), self.tw.v <= ot))

    def acquire(self, m, shared, n):
        l = self.lock_of(m)
        if l is not None:
            rank = {id(self.E): 0, id(self.C): 1, id(self.W): 2}
            self.e.prove("the locks are taken in the same order everywhere", z3.BoolVal(
                bool(l.held() and l.recursive) or not any(x.held() and rank[id(x)] >= rank[id(l)] for x in self.locks.values())), n, "lock")
            self.alive(n)
        super().acquire(m, shared, n)

    def alive(self, n=None):
        """a thread that is not counted any more may not use the handler once it has left its critical section"""
        if self.gone:
            self.e.prove("the handler is not used after the thread stopped being counted as waiting", z3.BoolVal(False), n, "safety")

    def end(self, l, n):
        s = l.cur
        if l is self.W:
            e = self.e
            was = self.own
            self.own = self.own + self.tw.v - s.pre[self.tw.label]
            if not self.quiet and not e.holds(was == 0) and e.holds(self.own == 0):
                self.gone = True
            e.prove("threads are counted as waiting only while a callback is set",
                    z3.Implies(self.tw.v > s.pre[self.tw.label], s.pre[self.set.label]), n)
            if self.notified.get(self.cvl) != "all":
                self.debt.set(z3.Or(self.debt.v, s.pre[self.num.label] < self.num.v, z3.And(s.pre[self.set.label], z3.Not(self.set.v))))
            self.empty.set(z3.Or(self.empty.v, z3.And(z3.Not(s.pre[self.set.label]), z3.Not(self.set.v), s.pre[self.tw.label] == 0)))
            Monitor.end(self, l, n)
            self.notified = {}
            return
        Monitor.end(self, l, n)

    def notify(self, cv, how):
        super().notify(cv, how)
        if cv == self.cvl and how == "all":
            self.debt.set(z3.BoolVal(False))

    def settled(self, what, n=None):
        self.e.prove("%s: the waiting threads have been notified of what they may be waiting for" % what, z3.Not(self.debt.v), n)

    def atomic(self, base, o, name, argn, n, et):
        c = base.root() if isinstance(base, LV) else base
        if c not in (self.set, self.num, self.tw):
            return None
        e = self.e
        if name == "load" or name.startswith("operator "):
            self.alive(n)
            self.quiet = True
            if not self.W.held():
                self.fresh_w()
            v = base.get()
            self.quiet = False
            self.now = v if c is self.set else self.now
            return v
        e.prove("%s is written only while the mutex is held" % c.name, z3.BoolVal(bool(self.W.ex)), n, "lock")
        if c is self.set:
            e.prove("the callback is set or unset only by the one that holds both other mutexes",
                    z3.BoolVal(bool(self.E.ex and self.C.ex)), n, "lock")
        if not self.W.ex:
            raise PathEnd()
        return None

    def read(self, c):
        if c in (self.set, self.num, self.tw) and not self.quiet:
            return
        super().read(c)

    def write(self, c):
        if c in (self.set, self.num, self.tw):
            return
        super().write(c)

    def done(self):
        self.closed()
        self.e.prove("the thread is not counted any more", self.own == 0)

    def ws(self):
        return [s for s in self.sections if s.lock is self.W]

    def same(self, what, cells):
        for s in self.ws():
            for c in cells:
                self.e.prove("%s: %s is not changed" % (what, c.name), s.post[c.label] == s.pre[c.label])


def setup(e):
    hooks(e)
    e.lib.ext.append(Chrono(e))

    def call(f, args, n):
        m = e.path_state["mon"]
        m.calls.append((f, [rvalue(a) for a in args]))
        e.prove("the callback runs while the callback mutex is held, and only while it is set",
                z3.And(z3.BoolVal(bool(m.C.ex)), m.set.v), n)
        e.prove("the callback runs without the mutex of the waiting threads", z3.BoolVal(not m.W.held()), n)
        e.prove("the callback that runs is the one that was set", z3.BoolVal(f.name in ("current", "user")), n)
        # it may set, unset and reset the handler itself
        m.quiet = True
        for c in m.W.cells:
            c.set(e.lib.havoc(c))
        e.assume(z3.And(m.tw.v >= 0, m.tw.v < 2 ** 31, m.num.v >= 0, m.num.v < 2 ** 32 - 1))
        m.cb.set(FnV("opaque", name="current"))
        m.quiet = False
        return None
    e.opaque_call = call

    def hook(name):
        def f(e, d, this, args, node):
            m = e.path_state["mon"]
            m.hooks.append((name, len(m.sections)))
            e.prove("%s is called with the event mutex, and without the others" % name, z3.BoolVal(
                bool(m.E.ex) and not m.C.held() and not m.W.held()), node)
            return None
        return Contract(f)
    for n in ("callback_set_nts_", "callback_change_nts_", "callback_unset_nts_"):
        e.contracts[W + "EventHandler::" + n] = hook(n)
    e.contracts[U + "tsnh"] = Contract(lambda e, d, this, args, node: e.prove("an impossible case is not reached", z3.BoolVal(False), node))

    def inv(ctx):
        m = e.path_state.get("mon")
        if m is None or not hasattr(m, "W"):
            return
        yield "not set", z3.Not(m.set.v)
        yield "nothing owed", z3.Not(m.debt.v)
        for c in ctx.bools():
            if c.label.startswith("ghost/"):
                continue
            yield "%s: notified" % c.name, z3.Implies(c.v, z3.Not(m.debt.v))
            yield "%s: nobody waits" % c.name, z3.Implies(c.v, m.empty.v)
            yield "not %s: notified" % c.name, z3.Implies(z3.Not(c.v), z3.Not(m.debt.v))
            yield "not %s: nobody waits" % c.name, z3.Implies(z3.Not(c.v), m.empty.v)
        yield "waiting threads", z3.And(m.tw.v >= m.own, m.tw.v < 2 ** 31, m.num.v >= 0, m.num.v < 2 ** 32 - 1)
    e.invariants.append(inv)


def meth(e, name):
    return method(e, e.prog.record(EV), name)


def set_callback(e):
    m = Ev(e)
    f = FnV("opaque", name="user")
    run(e, meth(e, "set_callback"), [arg(e, typeof(params_of(meth(e, "set_callback"))[0]), f, "callback")], this=m.o)
    e.cover("set")
    m.done()
    m.same("set_callback", [m.num, m.tw])
    ws = m.ws()
    was = ws[0].pre[m.set.label] if ws else None
    m.quiet = True
    e.prove("set_callback: the callback is set", z3.And(z3.BoolVal(bool(ws)), ws[-1].post[m.set.label]) if ws else False)
    e.prove("set_callback: it is the one given", z3.BoolVal(isinstance(m.cb.v, FnV) and m.cb.v.name == "user"))
    e.prove("set_callback: nothing is called", z3.BoolVal(not m.calls))
    names = [h[0] for h in m.hooks]
    e.prove("set_callback: one hook is called, once everything is set", z3.BoolVal(len(names) == 1 and m.hooks[0][1] == len(m.sections)))
    if len(names) == 1 and ws:
        e.prove("set_callback: the hook for a change if there was one, and for a new one otherwise", z3.BoolVal(
            names[0] == "callback_change_nts_") == was if names[0] in ("callback_change_nts_", "callback_set_nts_") else False)


def nobody(m):
    return m.empty.v


def unset_callback(e):
    m = Ev(e)
    run(e, meth(e, "unset_callback"), [], this=m.o)
    e.cover("unset")
    m.done()
    m.same("unset_callback", [m.num, m.tw])
    names = [h[0] for h in m.hooks]
    e.prove("unset_callback: the callback is not set", z3.Not(m.set.v))
    e.prove("unset_callback: nothing is called", z3.BoolVal(not m.calls))
    e.prove("unset_callback: at most the hook for it is called", z3.BoolVal(names in ([], ["callback_unset_nts_"])))
    was = z3.Or(*[s.pre[m.set.label] for s in m.ws()]) if m.ws() else z3.BoolVal(False)
    e.prove("unset_callback: the hook is called if there was a callback", z3.BoolVal(bool(names)) == was)
    e.prove("unset_callback: no thread is waiting any more", z3.Implies(was, nobody(m)))
    if m.ws():
        e.cover("was set")


def awake(e):
    m = Ev(e)
    m.E.ex = 1
    e.assume(z3.Not(m.set.v))
    run(e, meth(e, "awake_all_waiting_threads_nts_"), [], this=m.o)
    e.cover("ends")
    m.E.ex = 0
    m.done()
    e.prove("awake_all_waiting_threads_nts_: no thread is waiting any more", nobody(m))


def occurred(name):
    def unit(e):
        m = Ev(e)
        x = e.fresh("value", e.sort_of(V))
        f = meth(e, name)
        run(e, f, [arg(e, V, x, "args")], this=m.o)
        e.cover("returns")
        m.done()
        m.same(name, [m.set, m.tw])
        e.prove("%s: the callback is called at most once" % name, z3.BoolVal(len(m.calls) <= 1))
        inc = [s.post[m.num.label] - s.pre[m.num.label] for s in m.ws()]
        if m.calls:
            e.cover("called")
            e.prove("%s: the callback gets what the event carries" % name, m.calls[0][1][0] == x if len(m.calls[0][1]) == 1 else False)
            e.prove("%s: the event is counted once" % name, z3.Sum(inc) == 1 if inc else False)
        else:
            e.cover("not set")
            e.prove("%s: the callback is called if it is set" % name, z3.Not(m.now) if m.now is not None else False)
            e.prove("%s: an event without callback is not counted" % name, z3.And(*[i == 0 for i in inc]))
    return unit


def wait_for(e):
    m = Ev(e)
    n = e.fresh("n", z3.IntSort())
    e.assume(z3.And(n >= 0, n < 2 ** 32))
    m.may_block = lambda st: z3.And(st[m.set.label], st[m.num.label] < n)
    r = rvalue(run(e, meth(e, "wait_for_event"), [arg(e, UINT, n, "n")], this=m.o))
    e.cover("returns")
    m.done()
    m.same("wait_for_event", [m.num, m.set])
    ws = m.ws()
    e.prove("wait_for_event: works in a critical section", z3.BoolVal(bool(ws)))
    if not ws:
        raise PathEnd()
    last = ws[-1]
    e.prove("wait_for_event: true if the events happened", r == (last.pre[m.num.label] >= n))
    e.prove("wait_for_event: false only if there is no callback", z3.Implies(z3.Not(r), z3.Not(last.pre[m.set.label])))
    if m.waits:
        e.cover("blocks")
    for _, d in m.waits:
        e.prove("wait_for_event: has no time limit", z3.BoolVal(d is None))


def counter(name, new):
    def unit(e):
        m = Ev(e)
        r = run(e, meth(e, name), [], this=m.o)
        e.cover("returns")
        m.done()
        m.same(name, [m.set, m.tw] + ([m.num] if new is None else []))
        e.prove("%s: calls nothing" % name, z3.BoolVal(not m.calls and not m.hooks))
        if new is None:
            e.prove("event_count: the number of events", rvalue(r) == m.num.v)
        else:
            ws = m.ws()
            k = m.num.label
            e.prove("%s: the new number of events, in one critical section" % name, z3.Or(*[z3.And(
                s.post[k] == new(s.pre[k]), *[x.post[k] == x.pre[k] for x in ws if x is not s]) for s in ws]) if ws else False)
    return unit


def created(e):
    o = rvalue(run(e, fn(e, W + "vp_event"), [])).target
    m = o if isinstance(o, Obj) else rvalue(o)
    cs = {c.name: c for c in m.byname.values()}
    e.cover("made")
    m = Ev(e, EV, m)
    e.prove("no callback is set, nothing was counted, nobody waits", z3.And(z3.Not(m.set.v), m.num.v == 0, m.tw.v == 0))


# ---------------------------------------------------------------- periodic handler

class Per(Waits):
    """periodic mutex P: whether the timer is active; the thread exists exactly while it is"""
    def __init__(self, e, o=None):
        self.e = e
        o = self.o = o or e.sym_obj(e.prog.record(PER), "handler")
        own = {c["id"] for c in e.prog.record(PER)["inner"] if c.get("kind") == "FieldDecl"}
        cs = [c for k, c in o.fields.items() if k in own]
        act = [c for c in cs if c.t.noref().name.startswith("std::atomic")]
        mx = [c for c in cs if isinstance(c.v, MutexV)]
        cv = [c for c in cs if isinstance(c.v, CondVar)]
        th = [c for c in cs if isinstance(c.v, ThreadV)]
        per = [c for c in cs if c not in act + mx + cv + th]
        if not (len(act) == len(mx) == len(cv) == len(th) == len(per) == 1):
            raise Unsupported("the fields of the periodic handler are not the expected ones")
        self.act, self.th, self.per = act[0], th[0], per[0]
        self.P = Lock([self.act])
        super().__init__(e, {mx[0].v.label: self.P}, [], off=lambda s: z3.Not(s[self.act.label]), rely=self.others)
        self.conds = [Cond("stopped", (self.P, cv[0].v.label), lambda s: z3.Not(s[self.act.label]))]
        self.cvl = cv[0].v.label
        self.events, self.calls, self.joins = [], [], 0
        self.thread = False      # this is the thread of the timer (others may stop it)
        self.due = Cell(e, T("bool"), z3.BoolVal(False), "ghost/due", name="due")
        self.stopped = []

    def others(self, old):
        if not self.thread and self.act.label in old:
            self.e.assume(self.act.v == old[self.act.label])      # only the holder of the event mutex starts and stops it

    def end(self, l, n):
        s = l.cur
        how = self.notified.get(self.cvl)
        # one thread at most waits for it
        if how is None:
            self.owe(self.cvl, "one", z3.And(s.pre[self.act.label], z3.Not(self.act.v)), how)
        Monitor.end(self, l, n)
        self.notified = {}

    def atomic(self, base, o, name, argn, n, et):
        c = base.root() if isinstance(base, LV) else base
        if c is not self.act:
            return None
        if name == "load" or name.startswith("operator "):
            self.quiet = True
            if not self.P.held() and self.thread:
                c.set(self.e.lib.havoc(c))
            v = base.get()
            self.quiet = False
            return v
        self.e.prove("%s is written only while its mutex is held" % c.name, z3.BoolVal(bool(self.P.ex)), n, "lock")
        if not self.P.ex:
            raise PathEnd()

    def read(self, c):
        if c is not self.act:
            super().read(c)

    def write(self, c):
        if c is not self.act:
            super().write(c)


def per_setup(e):
    hooks(e)
    e.lib.ext.append(Chrono(e))

    def joined(t, n):
        m = e.path_state["mon"]
        m.joins += 1
        e.prove("the thread is joined only once it has been told to stop, and woken", z3.And(z3.Not(m.act.v), *[
            z3.Not(f) for f in m.owed.values()]), n)
        e.prove("no lock is held while joining", z3.BoolVal(not m.P.held()), n)
    e.lib.ext.append(Threads(e, joined=joined))

    def event(e, d, this, args, node):
        m = e.path_state["mon"]
        m.events.append(1)
        e.prove("an event occurs only once its period has passed, while the timer is active", m.due.v, node)
        m.due.set(z3.BoolVal(False))
        return None

    def note(name):
        def f(e, d, this, args, node):
            e.path_state["mon"].calls.append((name, [rvalue(a) for a in args]))
            return None
        return Contract(f)
    e.contracts[W + "EventHandler::event_occurred_"] = Contract(event)

    def inv(ctx):
        m = e.path_state.get("mon")
        if hasattr(m, "due"):
            yield "no event is due", z3.Not(m.due.v)
    e.invariants.append(inv)
    for n in ("set_callback", "unset_callback"):
        e.contracts[W + "EventHandler::" + n] = note(n)


def pm(e, name):
    return method(e, e.prog.record(PER), name, 0)


def whole(x):
    """the object that a this or a pointer designates"""
    if isinstance(x, Ptr):
        x = x.target
    return x if isinstance(x, Obj) else rvalue(x)


def per_start(name):
    def unit(e):
        m = Per(e)
        e.assume(z3.And(z3.Not(m.th.v.joinable), z3.Not(m.act.v)))
        run(e, pm(e, name), [], this=m.o)
        e.cover("started")
        m.closed()
        t = m.th.v
        e.prove("the timer is active and its thread exists", z3.And(m.act.v, t.joinable))
        ran = []
        e.contracts[W + "PeriodicEventHandler::period_thread_routine_"] = Contract(lambda e, d, this, args, node: ran.append(whole(this)))
        if t.fn is None:
            raise Unsupported("what the thread runs is not known")
        e.invoke(t.fn[0], t.fn[1], None)
        e.prove("the thread runs the routine of this timer", z3.BoolVal(ran == [m.o]))
    return unit


def per_stop(name):
    def unit(e):
        m = Per(e)
        e.assume(z3.And(m.th.v.joinable, m.act.v))
        run(e, pm(e, name), [], this=m.o)
        e.cover("stopped")
        m.closed()
        e.prove("the timer is not active and its thread has been joined", z3.And(z3.Not(m.act.v), z3.Not(m.th.v.joinable), z3.BoolVal(m.joins == 1)))
    return unit


def per_routine(e):
    m = Per(e)
    m.thread = True
    per = m.per.v
    e.assume(z3.And(per > 0, per < 2 ** 32))

    def wait(l, o, deadline, n, st):
        e.prove("an event occurs whenever the period has passed", z3.Not(m.due.v), n)
        want = per * 10 ** 6
        if isinstance(deadline, tuple):
            e.prove("the thread waits for one period", deadline[1] == want, n)
        else:
            raise Unsupported("the thread does not wait for a duration", n)
        e.cover("waits")
    m.on_block = wait
    m.may_block = lambda st: st[m.act.label]
    old = m.condvar

    def condvar(o, name, argn, n):
        m.timed_out = None
        r = old(o, name, argn, n)
        if m.timed_out is not None:
            m.due.set(m.act.v)
            e.cover("period passed")
        return r
    m.condvar = condvar
    run(e, pm(e, "period_thread_routine_"), [], this=m.o)
    e.cover("ends")
    m.closed()
    e.prove("the thread ends only once it was told to stop", z3.Not(m.act.v))


def per_make(name):
    def unit(e):
        p = e.fresh("period", z3.IntSort())
        e.assume(z3.And(p >= 0, p < 2 ** 32))
        e.path_state["mon"] = rec = type("Rec", (), {"calls": [], "condvar": lambda *a: None, "atomic": lambda *a: None,
                                                     "acquire": lambda *a: None, "release": lambda *a: None,
                                                     "read": lambda *a: None, "write": lambda *a: None})()
        f = fn(e, W + name)
        a = []
        if "bare" not in name:
            a.append(arg(e, typeof(params_of(f)[0]), FnV("opaque", name="user"), "callback"))
        a.append(arg(e, UINT, p, "period"))
        try:
            o = rvalue(run(e, f, a, throws=True)).target
        except CppThrow as x:
            e.cover("refused")
            e.prove("only a period of 0 is refused, with InitializationException", z3.And(p == 0, z3.BoolVal("InitializationException" in x.t.name)))
            return
        o = o if isinstance(o, Obj) else rvalue(o)
        e.cover("made")
        e.prove("a period of 0 is refused", p > 0)
        calls = list(rec.calls)
        m = Per(e, o)
        e.prove("the period is the one given, no thread runs yet", z3.And(m.per.v == p, z3.Not(m.act.v), z3.Not(m.th.v.joinable)))
        e.prove("the callback is set, if any is given", z3.BoolVal(
            [c[0] for c in calls] == ([] if "bare" in name else ["set_callback"]) and all(c[1][0].name == "user" for c in calls)))
    return unit


def per_destroy(e):
    m = Per(e)
    def unset(e, d, this, args, node):
        m.calls.append(("unset_callback", []))
        m.th.set(ThreadV(z3.BoolVal(False), "thread"))      # (unset_callback calls the hook that joins it)
        return None
    e.contracts[W + "EventHandler::unset_callback"] = Contract(unset)
    e.destroy(m.o)
    e.cover("destroyed")
    e.prove("destruction: the callback is unset first", z3.BoolVal([c[0] for c in m.calls] == ["unset_callback"]))


# ---------------------------------------------------------------- multiple handler

class Kids:
    """the handlers that belong to another one: how often each of them has ended. They are those of a list of any length
    (self.g: the list as it was, where each is in it, their count of ends) or one made for the purpose"""
    def __init__(self, e):
        self.e = e
        e.hooks["clear"] = self.all
        e.hooks["remove"] = self.remove

    def one(self, v):
        st = self.e.path_state
        if isinstance(v, SharedV) and v.kind == "unique":
            for k, ended in st.get("kids", ()):
                if v.target is k:
                    ended.append(1)
        g = st.get("list")
        if g is not None and isinstance(v, z3.ExprRef) and v.sort() == g.null.sort():
            g.ended.set(z3.Store(g.ended.v, v, z3.Select(g.ended.v, v) + z3.If(v == g.null, 0, 1)))

    def all(self, base, v):
        g = self.e.path_state.get("list")
        if v.items is not None:
            for x in v.items:
                self.one(x if isinstance(x, SharedV) else rvalue(x))
        elif g is not None:
            p = z3.Const("p!q", g.null.sort())
            i = z3.Select(g.at, p)
            new = self.e.fresh("ended", g.ended.v.sort())
            self.e.assume(z3.ForAll([p], z3.Select(new, p) == z3.Select(g.ended.v, p) + z3.If(z3.And(
                p != g.null, i >= 0, i < v.n, z3.Select(v.arr, i) == p), 1, 0), patterns=[z3.Select(new, p)]))
            g.ended.set(new)

    def remove(self, base, v, name):
        if self.e.path_state.get("list") is not None and v.items is None:
            raise Unsupported("handlers taken out of their list one by one")

    def assigned(self, lv, v):
        old = lv.v if isinstance(lv, Cell) else lv.get()
        if isinstance(old, SharedV) and not (isinstance(v, SharedV) and v.target is old.target):
            self.one(old)

    def destroy(self, v):
        if isinstance(v, SharedV):
            self.one(v)
            return True
        if isinstance(v, Vec) and ("kids" in self.e.path_state or "list" in self.e.path_state):
            self.all(None, v)
            return True

    def method(self, base, o, name, argn, n, bt):
        g = self.e.path_state.get("list")
        if g is None or not isinstance(o, z3.ExprRef) or o.sort() != g.null.sort():
            return None
        if name in ("get", "operator->", "operator bool"):
            return z3.Not(o == g.null) if name == "operator bool" else o
        if name in ("reset", "operator="):
            for a in self.e.args_of(argn):
                if not isinstance(rvalue(a), (Ptr, SharedV)) or rvalue(a).target is not None:
                    return None
            self.one(o)
            base.set(g.null)
            return NONE if name == "reset" else base
        if name == "release" and not argn:
            base.set(g.null)
            return o

    def truth(self, v):
        g = self.e.path_state.get("list")
        if isinstance(v, z3.ExprRef) and g is not None and v.sort() == g.null.sort():
            return v != g.null


def mul_setup(e):
    hooks(e)
    e.lib.ext.append(Kids(e))
    e.lib.ext.append(Threads(e))

    def note(name):
        def f(e, d, this, args, node):
            e.path_state.setdefault("calls", []).append((name, this, [rvalue(a) for a in args]))
            return None
        return Contract(f)

    def inv(ctx):
        g = e.path_state.get("list")
        if g is None:
            return
        v = g.cell.v
        if v.items is not None:
            return
        i = z3.Int("i!q")
        yield "as many handlers", v.n == g.n
        ks = [(c.label, c.v.pos) for c in ctx.iters(True) if c.v.pos is not None] + [(c.label, c.v) for c in ctx.ints(True)]
        for nm, k in ks:
            x, y = z3.Select(g.arr, i), z3.Select(v.arr, i)
            yield nm + ": range", z3.And(k >= 0, k <= v.n)
            yield nm + ": handlers ended so far", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.n), z3.And(
                y == z3.If(i < k, g.null, x), z3.Select(g.ended.v, x) == z3.If(i < k, 1, 0))), patterns=[x])
        p = z3.Const("p!q", g.null.sort())
        yield "nothing else ended", z3.ForAll([p], z3.Implies(z3.Or(z3.Select(g.at, p) < 0, z3.Select(g.at, p) >= g.n),
                                                             z3.Select(g.ended.v, p) == 0), patterns=[z3.Select(g.at, p)])
    e.invariants.append(inv)
    for n in ("set_callback", "unset_callback", "event_occurred_"):
        e.contracts[W + "EventHandler::" + n] = note(n)


def mul_register(e):
    o = e.sym_obj(e.prog.record(MUL), "handler")
    ls = [c for c in o.byname.values() if c.t.noref().name in ("std::list", "std::vector", "std::deque")]
    if len(ls) != 1:
        raise Unsupported("no list of handlers")
    ls[0].set(Vec(z3.IntVal(0), None, ls[0].t.args[0], []))
    child = e.new_obj(e.prog.record(EV), "child")
    ended = []
    e.path_state["kids"] = [(child, ended)]
    f = fn(e, W + "MultipleEventHandler::register_event_handler")
    t = typeof(params_of(f)[0]).noref()
    run(e, f, [arg(e, t, SharedV("unique", child, z3.BoolVal(False)), "handler")], this=o)
    e.cover("registered")
    calls = e.path_state.get("calls", [])
    own = lambda x: (x if isinstance(x, Obj) else rvalue(x)) is child
    e.prove("the handler gets one callback", z3.BoolVal([c[0] for c in calls] == ["set_callback"] and own(calls[0][1])))
    ok = len(ls[0].v.items or []) == 1
    if ok:
        x = rvalue(ls[0].v.items[0])
        ok = own(x.target)
    e.prove("the handler is kept", z3.BoolVal(ok and not ended))
    if calls:
        cb = calls[0][2][0]
        del calls[:]
        e.invoke(cb, [arg(e, V, e.fresh("value", e.sort_of(V)), "arg")], None)
        e.prove("its callback is one event of the whole", z3.BoolVal(len(calls) == 1 and calls[0][0] == "event_occurred_" and
                                                                      (calls[0][1] if isinstance(calls[0][1], Obj) else rvalue(calls[0][1])) is o))


def mul_make(name):
    def unit(e):
        f = fn(e, W + name)
        given = "bare" not in name
        o = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), FnV("opaque", name="user"), "callback")] if given else [])).target
        o = o if isinstance(o, Obj) else rvalue(o)
        e.cover("made")
        calls = e.path_state.get("calls", [])
        e.prove("one callback is set: the one given, or one by default", z3.BoolVal(
            [c[0] for c in calls] == ["set_callback"] and (calls[0][1] if isinstance(calls[0][1], Obj) else rvalue(calls[0][1])) is o))
        cb = calls[0][2][0] if calls else None
        if given:
            e.prove("the callback is the one given", z3.BoolVal(getattr(cb, "name", None) == "user"))
        elif cb is not None:
            del calls[:]
            e.invoke(cb, [], None)
            e.prove("the default callback does nothing to the handler", z3.BoolVal(not calls))
        ls = [c for c in o.byname.values() if isinstance(c.v, Vec)]
        e.prove("no handler is registered yet", z3.And(*[c.v.n == 0 for c in ls]))
    return unit


def mul_destroy(e):
    o = e.sym_obj(e.prog.record(MUL), "handler")
    ls = [c for c in o.byname.values() if c.t.noref().name in ("std::list", "std::vector", "std::deque")]
    if len(ls) != 1:
        raise Unsupported("no list of handlers")
    P = e.sort_of(ls[0].t.args[0])
    n, arr, at = e.fresh("n", z3.IntSort()), e.fresh("handlers", z3.ArraySort(z3.IntSort(), P)), e.fresh("at", z3.ArraySort(P, z3.IntSort()))
    null = z3.Const("no_handler", P)
    i = z3.Int("i!q")
    e.assume(n >= 0)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(arr, i) != null, z3.Select(at, z3.Select(arr, i)) == i)),
                       patterns=[z3.Select(arr, i)]))
    ls[0].set(Vec(n, arr, ls[0].t.args[0]))
    ended = Cell(e, T("ghost"), z3.K(P, z3.IntVal(0)), "ghost/ended", name="ended")
    e.path_state["list"] = type("List", (), dict(null=null, at=at, ended=ended, n=n, arr=arr, cell=ls[0]))
    e.destroy(o)
    e.cover("destroyed")
    calls = e.path_state.get("calls", [])
    e.prove("destruction: the callback is unset", z3.BoolVal(
        [c[0] for c in calls if (c[1] if isinstance(c[1], Obj) else rvalue(c[1])) is o] == ["unset_callback"]))
    k = z3.Int("any")
    e.prove("destruction: each handler that was registered ends with it, once",
            z3.Implies(z3.And(k >= 0, k < n), z3.Select(ended.v, z3.Select(arr, k)) == 1))


def units():
    us = [Unit("EventHandler::set_callback", set_callback, setup), Unit("EventHandler::unset_callback", unset_callback, setup),
          Unit("EventHandler::awake_all_waiting_threads_nts_", awake, setup), Unit("EventHandler::event_occurred_", occurred("event_occurred_"), setup),
          Unit("EventHandler::simulate_event_occurred", occurred("simulate_event_occurred"), setup),
          Unit("EventHandler::wait_for_event", wait_for, setup), Unit("EventHandler::event_count", counter("event_count", None), setup),
          Unit("EventHandler::reset_event_count", counter("reset_event_count", lambda v: z3.IntVal(0)), setup),
          Unit("EventHandler::decrement_event_count", counter("decrement_event_count", lambda v: z3.If(v > 0, v - 1, v)), setup),
          Unit("EventHandler construction", created, setup)]
    us += [Unit("PeriodicEventHandler::" + n, per_start(n), per_setup) for n in ("start_period_thread_nts_", "callback_set_nts_")]
    us += [Unit("PeriodicEventHandler::" + n, per_stop(n), per_setup) for n in ("stop_period_thread_nts_", "callback_unset_nts_")]
    us += [Unit("PeriodicEventHandler::period_thread_routine_", per_routine, per_setup),
           Unit("PeriodicEventHandler construction", per_make("vp_periodic"), per_setup),
           Unit("PeriodicEventHandler construction without callback", per_make("vp_periodic_bare"), per_setup),
           Unit("PeriodicEventHandler destruction", per_destroy, per_setup),
           Unit("MultipleEventHandler::register_event_handler", mul_register, mul_setup),
           Unit("MultipleEventHandler construction", mul_make("vp_multiple"), mul_setup),
           Unit("MultipleEventHandler construction without callback", mul_make("vp_multiple_bare"), mul_setup),
           Unit("MultipleEventHandler destruction", mul_destroy, mul_setup)]
    return us


UNITS = units()
