"""C14: wait handlers."""
from .common import *
from .waits import *
from vc.frontend import REPO

PROGS = {"main": '''#include <functional>
#include "%(r)s/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/wait/IntWaitHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/time/time_utils.cpp"
namespace eprosima { namespace vp { struct OpVal { OpVal(); OpVal& operator=(const OpVal&); int x; }; }
namespace utils { namespace event {
template class WaitHandler<eprosima::vp::OpVal>;
template class WaitHandler<unsigned int>;
WaitHandler<eprosima::vp::OpVal> vp_any(eprosima::vp::OpVal v, bool en) { return WaitHandler<eprosima::vp::OpVal>(v, en); }
WaitHandler<eprosima::vp::OpVal> vp_any_on(eprosima::vp::OpVal v) { return WaitHandler<eprosima::vp::OpVal>(v); }
WaitHandler<eprosima::vp::OpVal> vp_no_value(bool en) { return WaitHandler<eprosima::vp::OpVal>(en); }
WaitHandler<eprosima::vp::OpVal> vp_no_value_on() { return WaitHandler<eprosima::vp::OpVal>(); }
CounterWaitHandler vp_counter(unsigned int t, unsigned int v, bool en) { return CounterWaitHandler(t, v, en); }
CounterWaitHandler vp_counter_on(unsigned int t, unsigned int v) { return CounterWaitHandler(t, v); }
IntWaitHandler vp_int(int v, bool en) { return IntWaitHandler(v, en); }
IntWaitHandler vp_int_on(int v) { return IntWaitHandler(v); }
BooleanWaitHandler vp_bool(bool v, bool en) { return BooleanWaitHandler(v, en); }
BooleanWaitHandler vp_bool_on() { return BooleanWaitHandler(); }
} } }
''' % {"r": REPO}}
DRIVER = {"src": "c14.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/wait/CounterWaitHandler.cpp", "cpp_utils/src/cpp/wait/IntWaitHandler.cpp",
                   "cpp_utils/src/cpp/wait/BooleanWaitHandler.cpp", "cpp_utils/src/cpp/time/time_utils.cpp",
                   "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["std::condition_variable: a wait releases the lock and takes it again, may wake spuriously, and wakes after a notification "
               "that follows its start; a timed wait ends some time after its deadline",
               "predicates given to wait are pure functions of the value; fewer than 2^32 threads wait at a time",
               "the value of an IntWaitHandler stays within int when it is incremented or decremented", "a thread that is notified eventually runs (fair scheduling)"]
W = U + "event::"
V = T("eprosima::vp::OpVal")
GEN = parse_type(W + "WaitHandler<eprosima::vp::OpVal>")
CNT, INT, BOOL = T(W + "CounterWaitHandler"), T(W + "IntWaitHandler"), T(W + "BooleanWaitHandler")


class H(Waits):
    """a handler: value, enabled and number of waiting threads, guarded by the mutex of the condition variables; the enabled flag
    changes only with the status mutex too"""
    def __init__(self, e, t, o=None):
        self.e = e
        o = self.o = o or e.sym_obj(e.prog.record(t), "handler")
        cs = list(o.byname.values())
        at = [c for c in cs if c.t.noref().name.startswith("std::atomic")]
        en = [c for c in at if c.v.sort() == z3.BoolSort()]
        tw = [c for c in at if c.v.sort() != z3.BoolSort()]
        mx = [c for c in cs if isinstance(c.v, MutexV)]
        wm = [c for c in mx if not c.v.kind.startswith("std::recursive")]
        sm = [c for c in mx if c.v.kind.startswith("std::recursive")]
        cv = [c for c in cs if isinstance(c.v, CondVar)]
        rest = [c for c in cs if c not in at + mx + cv]
        const = [c for c in rest if c.t.const]
        val = [c for c in rest if c not in const]
        if not (len(en) == len(tw) == len(wm) == len(sm) == len(val) == 1 and 1 <= len(cv) <= 2):
            raise Unsupported("the fields of the handler are not the expected ones: %s" % [c.label for c in cs])
        self.enabled, self.tw, self.val = en[0], tw[0], val[0]
        self.threshold = const[0].v if const else None
        self.W = Lock([self.val, self.enabled, self.tw])
        self.S = Lock([], recursive=True)
        self.cv = [c.v.label for c in cv]
        super().__init__(e, {wm[0].v.label: self.W, sm[0].v.label: self.S}, [], off=lambda s: z3.Not(s[self.enabled.label]),
                         rely=self.others)
        vl, el = self.val.label, self.enabled.label
        if t is CNT:
            th = self.threshold
            self.conds = [Cond("more than the threshold", (self.W, self.cv[0]), lambda s: s[vl] > th, True, lambda s: s[vl]),
                          Cond("the threshold", (self.W, self.cv[-1]), lambda s: s[vl] == th)]
        elif t is BOOL:
            self.conds = [Cond("open", (self.W, self.cv[0]), lambda s: s[vl])]
        else:
            self.conds = []
            self.conds = [Cond("any condition", (self.W, self.cv[0]), None)]
        self.first = self.enabled.v
        self.own = z3.IntVal(0)          # how much this thread adds to the number of waiting threads
        self.value_change_notifies = True
        e.assume(self.tw.v >= 0)
        e.assume(self.tw.v < 2 ** 31)
        self.counted = lambda: self.own + self.tw.v - self.W.cur.pre[self.tw.label] == 1
        self.inv_value = None

    def end(self, l, n):
        s = l.cur
        if l is self.W:
            self.own = self.own + s_post(self, self.tw) - s.pre[self.tw.label]
            e = self.e
            e.prove("threads are counted as waiting only while enabled",
                    z3.Implies(self.tw.v > s.pre[self.tw.label], s.pre[self.enabled.label]), n)
            if self.conds[0].holds is None:
                # any predicate: a change of the value may make any of them true
                how = self.notified.get(self.cv[0])
                self.owe(self.cv[0], "all", z3.And(self.enabled.v, s.pre[self.val.label] != self.val.v), how)
                self.owe(self.cv[0], "all", z3.And(s.pre[self.enabled.label], z3.Not(self.enabled.v)), how)
                Monitor.end(self, l, n)
                self.notified = {}
                return
        super().end(l, n)

    def others(self, old):
        """what other threads may do between critical sections"""
        e = self.e
        if self.enabled.label not in old:
            return
        e.assume(z3.And(self.tw.v >= self.own, self.tw.v < 2 ** 31))
        if self.inv_value:
            e.assume(self.inv_value())
        if self.S.held():
            oe, ot = old[self.enabled.label], old[self.tw.label]
            e.assume(self.enabled.v == oe)
            e.assume(z3.Implies(z3.Not(oe), self.tw.v <= ot))

    def atomic(self, base, o, name, argn, n, et):
        c = base.root() if isinstance(base, LV) else base
        if c not in (self.enabled, self.tw):
            return None
        e = self.e
        if name == "load" or name.startswith("operator ") or name in ("operator bool", "operator unsigned int"):
            if not self.W.held():
                old = self.snapshot(self.W)
                self.quiet = True
                for x in (self.enabled, self.tw):
                    x.set(e.lib.havoc(x))
                self.others(old)
                self.quiet = False
            self.quiet = True
            v = base.get()
            self.quiet = False
            return v
        e.prove("%s is written only while the mutex is held" % c.name, z3.BoolVal(bool(self.W.ex)), n, "lock")
        if c is self.enabled:
            e.prove("enabled changes only while the status mutex is held", z3.BoolVal(bool(self.S.ex)), n, "lock")
        if not self.W.ex:
            raise PathEnd()
        return None

    def read(self, c):
        if c.label in (self.enabled.label, self.tw.label):
            return
        super().read(c)

    def write(self, c):
        if c.label in (self.enabled.label, self.tw.label):
            return
        super().write(c)

    def done(self):
        self.closed()
        self.e.prove("the thread is not counted any more", self.own == 0)

    def last(self):
        return [s for s in self.sections if s.lock is self.W][-1]

    def wsections(self):
        return [s for s in self.sections if s.lock is self.W]


def s_post(m, c):
    return c.v


def predf(e, v):
    return z3.Function("predicate", e.sort_of(V), z3.BoolSort())(v)


def setup(e):
    hooks(e)
    e.lib.ext.append(Chrono(e))

    def call(f, args, n):
        return predf(e, rvalue(args[0]))
    e.opaque_call = call

    def now(e, d, this, args, node):
        t = e.fresh("now", z3.IntSort())
        e.assume(z3.And(t >= 0, t <= 2 ** 62))
        e.path_state.setdefault("now", []).append(t)
        return TimeV(t)
    e.contracts[U + "now"] = Contract(now)

    def inv(ctx):
        m = e.path_state.get("mon")
        if m is None or not hasattr(m, "W"):
            return
        yield "disabled", z3.Not(m.enabled.v)
        yield "waiting threads", z3.And(m.tw.v >= m.own, m.tw.v < 2 ** 31)
    e.invariants.append(inv)


ALIAS = {"Duration_ms": UINT, "CounterType": UINT, "IntWaitHandlerType": T("int")}


def param(e, m, p):
    t = typeof(p).noref()
    t = ALIAS.get(t.name.split("::")[-1], t)
    if t.name == "std::function":
        return arg(e, t, FnV("opaque", name="predicate", null=z3.BoolVal(False)), p.get("name"))
    return arg(e, t, e.sym(t, p.get("name", "p")), p.get("name", "p"))


def find(e, t, name):
    """the method of the class, or of its base"""
    rec = e.prog.record(t)
    while True:
        try:
            return method(e, rec, name)
        except Unsupported:
            if not rec.get("bases"):
                raise
            rec = e.base_rec(rec["bases"][0])


def call(e, m, t, name, **kw):
    f = find(e, t, name)
    a = [param(e, m, p) for p in params_of(f)]
    return a, run(e, f, a, this=m.o, **kw)


def same(e, m, what, cells=None):
    """no critical section changes these fields"""
    for i, s in enumerate(m.wsections()):
        for c in cells or (m.val, m.enabled):
            e.prove("%s: %s is not changed" % (what, c.name), s.post[c.label] == s.pre[c.label])


def status(which):
    def unit(e):
        m = H(e, which[0])
        name = which[1]
        call(e, m, which[0], name)
        e.cover("returns")
        m.done()
        ws = m.wsections()
        same(e, m, name, [m.val, m.tw])
        on = {"enable": True, "stop_and_continue": True}.get(name, False)
        last = m.enabled.v
        e.prove("%s: %s afterwards" % (name, "enabled" if on else "disabled"), last == on)
        if name == "blocking_disable" or name == "stop_and_continue":
            off = [s for s in ws if s is not None]
            goal = [z3.And(z3.Not(s.pre[m.enabled.label]), z3.Not(s.post[m.enabled.label]), s.pre[m.tw.label] == 0) for s in off]
            if name == "stop_and_continue":
                goal.append(z3.Not(m.first))
            e.prove("%s: no thread is waiting any more (the mutex was taken while disabled and nobody was counted)" % name,
                    z3.Or(*goal) if goal else False)
    return unit


def get(t, name):
    def unit(e):
        m = H(e, t)
        _, r = call(e, m, t, name)
        e.cover("returns")
        m.done()
        same(e, m, name, [m.val, m.tw, m.enabled])
        if name == "enabled":
            e.prove("enabled: the flag", rvalue(r) == m.enabled.v)
        else:
            e.prove("%s: the value" % name, z3.Or(*[rvalue(r) == s.post[m.val.label] for s in m.wsections()]))
    return unit


def put(t, name, value=None):
    """set_value, open, close, ++ and --"""
    def unit(e):
        m = H(e, t)
        if t is INT and name.startswith("operator"):
            m.inv_value = lambda: z3.And(m.val.v > -2 ** 31, m.val.v < 2 ** 31 - 1)
        a, r = call(e, m, t, name)
        e.cover("returns")
        if name == "set_value":
            note = rvalue(a[1])
            Monitor.closed(m)
            for k, f in m.owed.items():
                e.prove("set_value: the waiting threads are notified, if asked to", z3.Not(z3.And(note, f)))
            e.prove("set_value: the thread is not counted", m.own == 0)
        else:
            m.done()
        same(e, m, name, [m.tw, m.enabled])
        ws = m.wsections()
        new = (lambda s: rvalue(a[0]) if value is None else value(s[m.val.label]))
        e.prove("%s: the value changes in one critical section to what was asked" % name, z3.Or(*[z3.And(
            s.post[m.val.label] == new(s.pre), *[x.post[m.val.label] == x.pre[m.val.label] for x in ws if x is not s]) for s in ws])
            if ws else False)
        if name.startswith("operator"):
            e.prove("%s: gives the handler itself" % name, z3.BoolVal(rvalue(r) is m.o or r is m.o))
    return unit


def wait(t, name, cond, after=None):
    """cond(m, value, args): what is waited for; after(m, value): the value once it is met"""
    def unit(e):
        m = H(e, t)
        f = find(e, t, name)
        a = [param(e, m, p) for p in params_of(f)]
        vl, el, tl = m.val.label, m.enabled.label, m.tw.label
        tmo = [rvalue(x) for x, p in zip(a, params_of(f)) if typeof(p).noref().name.split("::")[-1] == "Duration_ms"][0]
        m.may_block = lambda st: z3.And(st[el], z3.Not(cond(m, st[vl], a)))
        def blocks(l, o, d, n, st):
            nows = e.path_state.get("now", [])
            e.cover("blocks")
            e.prove("%s: waits for ever, or until its timeout after the call" % name, z3.If(
                num(tmo) == 0, deadline_is_end(e, d), z3.Or(*[d == x + 10 ** 6 * num(tmo) for x in nows]) if nows and d is not None else False), n)
        m.on_block = blocks
        m.once_late = True
        r = rvalue(run(e, f, a, this=m.o))
        e.cover("returns")
        m.done()
        ws = m.wsections()
        e.prove("%s: works in a critical section" % name, z3.BoolVal(bool(ws)))
        if not ws:
            raise PathEnd()
        last = ws[-1]
        dis, tim, met = [enumerator(e, x) for x in ("disabled", "timeout", "condition_met")]
        for s in ws:
            e.prove("%s: enabled is not changed" % name, s.post[el] == s.pre[el])
            if s is not last or after is None:
                e.prove("%s: the value is not changed" % name, s.post[vl] == s.pre[vl])
        e.prove("%s: gives one of the reasons" % name, z3.Or(r == dis, r == tim, r == met))
        e.prove("%s: disabled only if waiting is disabled" % name, z3.Implies(r == dis, z3.Not(last.pre[el])))
        e.prove("%s: disabled whenever waiting is disabled" % name, z3.Implies(z3.Not(last.pre[el]), r == dis))
        e.prove("%s: condition met only if the value fulfils it" % name, z3.Implies(r == met, z3.And(
            last.pre[el], cond(m, last.pre[vl], a))))
        e.prove("%s: the value is changed only once the condition is met" % name, last.post[vl] == (
            z3.If(r == met, after(m, last.pre[vl]), last.pre[vl]) if after else last.pre[vl]))
        nows = e.path_state.get("now", [])
        late = z3.BoolVal(False)
        if m.timed_out is not None:
            late = z3.And(m.late, z3.Or(*[m.timed_out == x + z3.IntVal(10 ** 6) * num(tmo) for x in nows]))
            e.cover("timed out")
        e.prove("%s: timeout only if there is a timeout, it ran out and the condition is false" % name, z3.Implies(
            r == tim, z3.And(num(tmo) > 0, late, z3.Not(cond(m, last.pre[vl], a)))))
    return unit


def num(x):
    return x


def deadline_is_end(e, d):
    return z3.BoolVal(True) if d is None else d == END


def enumerator(e, name):
    return z3.IntVal({"disabled": 0, "timeout": 1, "condition_met": 2}[name])


def destroy(t):
    def unit(e):
        m = H(e, t)
        e.destroy(m.o)
        e.cover("destroyed")
        m.done()
        ws = m.wsections()
        e.prove("destruction: no thread is waiting any more", z3.Or(*[z3.And(
            z3.Not(s.pre[m.enabled.label]), z3.Not(s.post[m.enabled.label]), s.pre[m.tw.label] == 0) for s in ws]) if ws else False)
    return unit


def construct(t, name, types):
    def unit(e):
        a = [arg(e, x, e.sym(x, "a%d" % i), "a%d" % i) for i, x in enumerate(types)]
        v = [rvalue(x) for x in a]
        o = rvalue(run(e, fn(e, W + name), a))
        e.cover("made")
        m = H(e, t, o)
        if t is CNT:
            e.prove("the threshold", m.threshold == v[0])
            v = v[1:]
        if "no_value" in name:
            v = [None] + v
        else:
            e.prove("the initial value", m.val.v == (v[0] if v else z3.BoolVal(False)))
        e.prove("enabled as asked, or by default", m.enabled.v == (v[1] if len(v) > 1 else z3.BoolVal(True)))
        e.prove("nobody waits", m.tw.v == 0)
    return unit


def units():
    us = [Unit("WaitHandler::" + n, status((GEN, n)), setup) for n in ("enable", "disable", "blocking_disable", "stop_and_continue")]
    us += [Unit("CounterWaitHandler::" + n, status((CNT, n)), setup) for n in ("disable", "blocking_disable", "stop_and_continue")]
    us += [Unit("WaitHandler::" + n, get(GEN, n), setup) for n in ("enabled", "get_value")]
    us += [Unit("WaitHandler::set_value", put(GEN, "set_value"), setup),
           Unit("CounterWaitHandler::operator++", put(CNT, "operator++", lambda v: z3.If(v == 2 ** 32 - 1, 0, v + 1)), setup),
           Unit("IntWaitHandler::operator++", put(INT, "operator++", lambda v: v + 1), setup),
           Unit("IntWaitHandler::operator--", put(INT, "operator--", lambda v: v - 1), setup),
           Unit("BooleanWaitHandler::open", put(BOOL, "open", lambda v: z3.BoolVal(True)), setup),
           Unit("BooleanWaitHandler::close", put(BOOL, "close", lambda v: z3.BoolVal(False)), setup),
           Unit("BooleanWaitHandler::is_open", get(BOOL, "is_open"), setup)]
    us += [Unit("WaitHandler::wait", wait(GEN, "wait", lambda m, v, a: predf(m.e, v)), setup),
           Unit("BooleanWaitHandler::wait", wait(BOOL, "wait", lambda m, v, a: v), setup),
           Unit("CounterWaitHandler::wait_and_decrement", wait(CNT, "wait_and_decrement", lambda m, v, a: v > m.threshold,
                                                               lambda m, v: v - 1), setup),
           Unit("CounterWaitHandler::wait_threshold_reached", wait(CNT, "wait_threshold_reached",
                                                                   lambda m, v, a: v == m.threshold), setup)]
    for n, c in (("equal", lambda m, v, a: v == rvalue(a[0])), ("greater_than", lambda m, v, a: v > rvalue(a[0])),
                 ("greater_equal_than", lambda m, v, a: v >= rvalue(a[0])), ("lower_than", lambda m, v, a: v < rvalue(a[0])),
                 ("lower_equal_than", lambda m, v, a: v <= rvalue(a[0]))):
        us.append(Unit("IntWaitHandler::wait_" + n, wait(INT, "wait_" + n, c), setup))
    for n, t, ts in (("vp_any", GEN, [V, T("bool")]), ("vp_any_on", GEN, [V]), ("vp_no_value", GEN, [T("bool")]), ("vp_no_value_on", GEN, []),
                     ("vp_counter", CNT, [UINT, UINT, T("bool")]), ("vp_counter_on", CNT, [UINT, UINT]), ("vp_int", INT, [T("int"), T("bool")]),
                     ("vp_int_on", INT, [T("int")]), ("vp_bool", BOOL, [T("bool"), T("bool")]), ("vp_bool_on", BOOL, [])):
        us.append(Unit("construction " + n[3:], construct(t, n, ts), setup))
    us += [Unit(n + " destruction", destroy(t), setup) for n, t in (("WaitHandler", GEN), ("CounterWaitHandler", CNT),
                                                                     ("IntWaitHandler", INT), ("BooleanWaitHandler", BOOL))]
    return us


UNITS = units()
