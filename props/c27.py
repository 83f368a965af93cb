"""C27: signals."""
from .common import *
from .waits import *
from .threads import Threads
from .monitor import Monitor, Lock, method
from vc.stdlib import MutexV, CondVar, ThreadV, NONE

PROGS = {"main": '''#include <functional>
#include <memory>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>
namespace eprosima { namespace utils { namespace event {
template class SignalManager<Signal::sigusr1>;
template class SignalManager<Signal::sigterm>;
template class SignalEventHandler<Signal::sigusr1>;
template class SignalEventHandler<Signal::sigterm>;
SignalEventHandler<Signal::sigusr1>* vp_handler_10() { return new SignalEventHandler<Signal::sigusr1>(); }
SignalEventHandler<Signal::sigusr1>* vp_handler_of_10(std::function<void(Signal)> c) { return new SignalEventHandler<Signal::sigusr1>(c); }
SignalEventHandler<Signal::sigterm>* vp_handler_15() { return new SignalEventHandler<Signal::sigterm>(); }
SignalEventHandler<Signal::sigterm>* vp_handler_of_15(std::function<void(Signal)> c) { return new SignalEventHandler<Signal::sigterm>(c); }
} } }
'''}
DRIVER = {"src": "c27.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined"],
          "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/math/math_extension.cpp", "cpp_utils/src/cpp/exception/Exception.cpp",
                   "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["signal(number, function) makes the function run, in any thread, whenever the signal arrives, until it is called again",
               "std::condition_variable::notify_one may be called by a signal handler (POSIX does not say so)",
               "a timed wait ends some time after its time has passed; a static local variable is made once",
               "fewer than 2^32 - 1 callbacks are registered and fewer than 2^32 - 1 signals are pending at a time",
               "callbacks do not register, unregister or unset handlers of their own signal (documented nowhere: they run with the mutex of the callbacks)",
               "EventHandler::set_callback, unset_callback and event_occurred_ as proved for C16"]
W = U + "event::"
I = z3.IntSort()


def rec(e, cls, sig):
    return e.prog.record(parse_type("%s%s<%d>" % (W, cls, sig)))


class Fns:
    """callbacks kept in a map are terms"""
    def __init__(self, e):
        self.e = e
        self.s = None

    def sort(self):
        return self.e.sort_of(parse_type("std::function<void ()>"))

    def box(self, x, t):
        if isinstance(x, FnV) and t.name == "std::function":
            known = self.e.path_state.setdefault("fns", [])
            for f, c in known:
                if f is x or (f.kind == x.kind == "opaque" and f.name == x.name):
                    return c
            c = z3.Const("callback_%d_%s" % (len(known), x.name or x.kind), self.e.sort_of(t))
            known.append((x, c))
            return c

    def call(self, v, n):
        m = self.e.path_state.get("mon")
        if isinstance(v, z3.ExprRef) and str(v.sort()).startswith("S_std::function") and hasattr(m, "called"):
            m.called(v, n)
            return NONE

    def invoke_ref(self, base, argn, n):
        if not argn and str(getattr(base.t, "name", "")).startswith("std::function"):
            return self.call(rvalue(base), n)

    def operator(self, name, args, n):
        if name == "operator()" and len(args) == 1:
            return self.call(rvalue(args[0]), n)

    def call_free(self, name, args, n, argn):
        e = self.e
        if name == "bind" and args:
            f, bound = rvalue(args[0]), [rvalue(a) for a in args[1:]]
            return FnV("py", node=lambda e, a: e.invoke(f, bound, n), name="bound")
        if name == "signal" and len(args) == 2:
            e.path_state.setdefault("signal", []).append((rvalue(args[0]), rvalue(args[1])))
            return FnV("opaque", name="previous")


class Man(Waits):
    """callback mutex A: the callbacks by their id;  id mutex B: the last id given;  signal mutex S with the condition variable; the
    number of signals received changes at any time, by signal handlers"""
    def __init__(self, e, sig, o=None):
        self.e, self.sig = e, sig
        self.rec = rec(e, "SignalManager", sig)
        o = self.o = o or e.sym_obj(self.rec, "manager")
        cs = list(o.byname.values())
        maps = [c for c in cs if c.t.noref().name in ("std::map", "std::unordered_map")]
        mx = [c for c in cs if isinstance(c.v, MutexV)]
        am, bm = [c for c in mx if "callback" in c.name], [c for c in mx if "id" in c.name]
        sm = [c for c in mx if c not in am + bm]
        stop = [c for c in cs if c.t.noref().name.startswith("std::atomic")]
        th = [c for c in cs if isinstance(c.v, ThreadV)]
        ids = [c for c in cs if e.isint(c.t.noref())]
        if not (len(maps) == len(am) == len(bm) == len(sm) == len(stop) == len(th) == len(ids) == 1):
            raise Unsupported("the fields of the manager are not the expected ones: %s" % [c.label for c in cs])
        self.map, self.stop, self.th, self.last = maps[0], stop[0], th[0], ids[0]
        self.A, self.B, self.S = Lock([self.map]), Lock([self.last]), Lock([])
        self.G = Lock([], recursive=True)
        super().__init__(e, {am[0].v.label: self.A, bm[0].v.label: self.B, sm[0].v.label: self.S}, [], rely=None)
        self.mutexes = {"A": am[0], "B": bm[0], "S": sm[0]}
        self.known = z3.IntVal(0)               # ids given up to this one, at least
        self.R = None                           # signals received
        self.low = z3.IntVal(0)
        self.cvl = None
        self.notes, self.counted_up = [], []
        self.in_handler = False
        self.thread = False
        self.taken = Cell(e, T("int"), z3.IntVal(0), "ghost/taken", name="taken")       # signals taken and not handled yet
        self.log = Cell(e, T("int"), z3.K(I, z3.Const("none", e.sort_of(self.map.t.args[1]))), "ghost/log", name="log")
        self.num = Cell(e, T("int"), z3.IntVal(0), "ghost/num", name="num")
        self.joins = 0

    # ---- static members
    def glob(self, d):
        t = typeof(d).noref()
        if "signal" in d["name"] and t.name.startswith("std::atomic"):
            if self.R is None:
                v = self.e.fresh("received", I)
                self.e.assume(z3.And(v >= 0, v < 2 ** 32 - 1))
                self.R = Cell(self.e, t, v, "static/received", name="signals_received_")
            return self.R
        if t.name == "std::condition_variable":
            if self.cvl is None:
                v = self.e.default_value(t, "cv")
                self.cvl = Cell(self.e, t, v, "static/cv", name="cv")
            return self.cvl
        if "mutex" in t.name:
            if not hasattr(self, "gm"):
                v = self.e.default_value(t, "instance_mutex")
                self.gm = Cell(self.e, t, v, "static/mutex", name="instance_mutex")
                self.locks[v.label] = self.G
            return self.gm

    def begin(self, l, shared, fresh=True):
        e = self.e
        super().begin(l, shared, fresh)
        if l is self.B:
            e.assume(z3.And(self.last.v >= self.known, self.last.v < 2 ** 32 - 1, self.last.v >= 0))
            if not isinstance(self.last.v, int):
                l.cur.pre[self.last.label] = self.last.v
        if l is self.A:
            top = e.fresh("given", I)           # ids given when the mutex was taken
            e.assume(top >= self.known)
            self.known = l.cur.top = top

    def end(self, l, n):
        s = l.cur
        Monitor.end(self, l, n)
        if l is self.B:
            e = self.e
            e.prove("ids are given upwards", s.post[self.last.label] >= s.pre[self.last.label], n)
            self.known = s.post[self.last.label]
        self.notified = {}

    def fact(self, s, k):
        """the invariant of the callbacks at a section of A, for one id"""
        m = s.pre[self.map.label]
        self.e.assume(z3.Implies(m.has(k), z3.And(k >= 1, k <= s.top)))
        # an id given to this thread is used by no other one (each registers with an id that it was given itself)
        own = z3.Or(*[z3.And(k > b.pre[self.last.label], k <= b.post[self.last.label]) for b in self.sec(self.B)])
        before = [x for x in self.sec(self.A)[:self.sec(self.A).index(s)]]
        self.e.assume(z3.Implies(z3.And(own, *[z3.Not(x.post[self.map.label].has(k)) for x in before]), z3.Not(m.has(k))))

    def acquire(self, m, shared, n):
        if self.in_handler:
            self.e.prove("a signal handler takes no lock", z3.BoolVal(False), n, "lock")
            raise PathEnd()
        l = self.lock_of(m)
        order = [self.G, self.S, self.A, self.B]
        if l is not None and not (l is self.G and l.held()):
            self.e.prove("the locks are taken in the same order everywhere", z3.BoolVal(
                not any(x.held() and order.index(x) >= order.index(l) for x in self.locks.values())), n, "lock")
        super().acquire(m, shared, n)

    def atomic(self, base, o, name, argn, n, et):
        c = base.root() if isinstance(base, LV) else base
        e = self.e
        if c is self.R and c is not None:
            new = e.fresh("received", I)
            e.assume(z3.And(new < 2 ** 32 - 1, new >= 0))
            if not self.in_handler:
                # only signal handlers, which only add, run beside the thread of the signals
                if self.thread:
                    e.assume(new >= c.v)
            c.v = new
            if name in ("load",) or name.startswith("operator "):
                return None
            if name in ("operator++", "++", "fetch_add"):
                self.counted_up.append(len(self.notes))
                return None
            if name in ("operator--", "--"):
                e.prove("only the thread of the signals takes one", z3.BoolVal(self.thread), n)
                e.prove("a signal is taken only if one was received", c.v > 0, n)
                self.taken.set(self.taken.v + 1)
                return None
            raise Unsupported("%s on the signals received" % name, n)
        if c is self.stop:
            if name == "load" or name.startswith("operator "):
                if self.thread:
                    v = e.fresh("stop", z3.BoolSort())
                    e.assume(z3.Implies(c.v, v))
                    c.v = v
                return None
            e.prove("the thread is told to stop only by the destruction", z3.BoolVal(not self.thread), n)
            return None

    def read(self, c):
        if c not in (self.R, self.stop):
            super().read(c)

    def write(self, c):
        if c not in (self.R, self.stop):
            super().write(c)

    def notify(self, cv, how):
        self.notes.append(cv)

    def called(self, v, n):
        e = self.e
        e.prove("callbacks run while their mutex is held", z3.BoolVal(bool(self.A.held())), n)
        self.log.set(z3.Store(self.log.v, self.num.v, v))
        self.num.set(self.num.v + 1)

    def sec(self, l):
        return [s for s in self.sections if s.lock is l]


def setup(e):
    hooks(e)
    e.lib.ext.append(Chrono(e))
    e.lib.ext.append(Fns(e))

    def joined(t, n):
        m = e.path_state["mon"]
        m.joins += 1
        e.prove("the thread is joined only once it has been told to stop", m.stop.v, n)
        e.prove("no lock is held while joining", z3.BoolVal(not any(l.held() for l in m.locks.values())), n)

    def spawn(t, n):
        m = e.path_state.get("mon")
        if hasattr(m, "spawned"):
            m.spawned(t, n)
    e.lib.ext.append(Threads(e, spawn=spawn, joined=joined))
    e.hooks["global"] = lambda d: e.path_state["mon"].glob(d) if hasattr(e.path_state.get("mon"), "glob") else None

    def inv(ctx):
        m = e.path_state.get("mon")
        if not isinstance(m, Man):
            return
        if m.thread:
            yield "every signal taken is handled", m.taken.v == 0
            yield "signals", z3.And(m.R.v >= 0, m.R.v < 2 ** 32 - 1) if m.R is not None else z3.BoolVal(True)
        en = getattr(m, "enum", None)
        if en is None:
            return
        k = z3.Int("k!log")
        for c in ctx.iters():
            if c.v.pos is not None:
                p = c.v.pos
                yield "%s: as many calls" % (c.name or c.label), m.num.v == p
                yield "%s: in range" % (c.name or c.label), z3.And(p >= 0, p <= en[1])
                yield "%s: the calls" % (c.name or c.label), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p), z3.Select(m.log.v, k) == en[0](k)))
    e.invariants.append(inv)


def mm(e, m, name, np=None):
    return method(e, m.rec, name, np)


def new_id(sig):
    def unit(e):
        m = Man(e, sig)
        m.A.ex = 1
        r = rvalue(run(e, mm(e, m, "new_unique_id_"), [], this=m.o))
        e.cover("given")
        m.A.ex = 0
        m.closed()
        b = m.sec(m.B)
        k = m.last.label
        e.prove("an id that nobody was given before, nor will be", z3.Or(*[z3.And(r > s.pre[k], r <= s.post[k]) for s in b]) if b else False)
    return unit


def register(sig):
    def unit(e):
        m = Man(e, sig)
        f = mm(e, m, "register_callback")
        r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), FnV("opaque", name="user"), "callback")], this=m.o))
        e.cover("registered")
        m.closed()
        ss, b, k, l = m.sec(m.A), m.sec(m.B), m.last.label, m.map.label
        e.prove("the id is new, and not 0", z3.Or(*[z3.And(r > s.pre[k], r <= s.post[k], r >= 1) for s in b]) if b else False)
        cb = [c for x, c in e.path_state.get("fns", []) if x.name == "user"]
        for s in ss:
            m.fact(s, r)
        e.prove("the callback is registered with that id, nothing else changes", z3.Or(*[z3.And(
            z3.Not(s.pre[l].has(r)), s.post[l].dom == z3.Store(s.pre[l].dom, r, True), s.post[l].val == z3.Store(s.pre[l].val, r, cb[0]),
            *same(m, s)) for s in ss]) if ss and cb else False)
        e.prove("nothing is called", m.num.v == 0)
    return unit


def same(m, but):
    l = m.map.label
    return [z3.And(x.post[l].dom == x.pre[l].dom, x.post[l].val == x.pre[l].val) for x in m.sec(m.A) if x is not but]


def unregister(sig):
    def unit(e):
        m = Man(e, sig)
        k = e.fresh("id", I)
        e.assume(z3.And(k >= 0, k < 2 ** 32))
        l = m.map.label
        try:
            run(e, mm(e, m, "unregister_callback"), [arg(e, UINT, k, "id")], this=m.o, throws=True)
        except CppThrow as x:
            e.cover("refused")
            m.closed()
            ss = m.sec(m.A)
            e.prove("InconsistencyException only if nothing is registered with that id, and nothing changes", z3.And(
                z3.BoolVal("InconsistencyException" in x.t.name), z3.Or(*[z3.Not(s.pre[l].has(k)) for s in ss]), *same(m, None)) if ss else False)
            return
        e.cover("unregistered")
        m.closed()
        ss = m.sec(m.A)
        e.prove("exactly the callback with that id is not registered any more", z3.Or(*[z3.And(
            s.pre[l].has(k), s.post[l].dom == z3.Store(s.pre[l].dom, k, False), gone(s, l, k), *same(m, s)) for s in ss]) if ss else False)
        e.prove("nothing is called", m.num.v == 0)
    return unit


def gone(s, l, k):
    j = z3.Int("j!id")
    return z3.ForAll([j], z3.Implies(s.post[l].has(j), s.post[l].select(j) == s.pre[l].select(j)))


def handle(sig):
    def unit(e):
        m = Man(e, sig)
        m.S.ex = 1
        old = m.begin

        def begin(l, shared, fresh=True):
            old(l, shared, fresh)
            if l is m.A:
                m.quiet = True
                en = e.lib.enumerate(m.map)
                m.enum = ((lambda i: m.map.v.select(en[0](i)) if callable(en[0]) else m.map.v.select(z3.Select(en[0], i))), m.map.v.n)
                m.quiet = False
        m.begin = begin
        run(e, mm(e, m, "signal_handler_routine_"), [], this=m.o)
        e.cover("returns")
        m.S.ex = 0
        m.closed()
        ss = m.sec(m.A)
        k = z3.Int("k!end")
        e.prove("the callbacks are not changed", z3.And(*same(m, None)))
        e.prove("every callback that is registered is called once, under one lock", z3.And(
            z3.BoolVal(len(ss) == 1), m.num.v == m.enum[1], z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m.enum[1]),
                                                                                    z3.Select(m.log.v, k) == m.enum[0](k)))) if ss else False)
    return unit


def received(sig, name):
    def unit(e):
        m = Man(e, sig)
        m.in_handler = True
        f = mm(e, m, name)
        run(e, f, [arg(e, typeof(p), z3.IntVal(sig), "sig") for p in params_of(f)], this=m.o if f.get("storageClass") != "static" else None)
        e.cover("returns")
        e.prove("the signal is counted once", z3.BoolVal(len(m.counted_up) == 1))
        e.prove("the thread of the signals is woken after that", z3.BoolVal(bool(m.counted_up) and len(m.notes) > m.counted_up[0]))
    return unit


def routine(sig):
    def unit(e):
        m = Man(e, sig)
        m.thread = True
        for d in e.prog.decls.values():
            if d.get("kind") == "VarDecl" and "signal" in d.get("name", "") and typeof(d).noref().name.startswith("std::atomic"):
                m.glob(d)
                break

        def handled(e, d, this, args, node):
            e.prove("a signal is handled once it was taken", m.taken.v == 1, node)
            e.prove("the mutex of the callbacks is free", z3.BoolVal(not m.A.held()), node)
            m.taken.set(m.taken.v - 1)
            e.cover("handled")
        e.contracts[W + "SignalManager::signal_handler_routine_"] = Contract(handled)

        def wait(l, o, deadline, n, st):
            e.cover("waits")
            e.prove("no signal is waiting to be handled when the thread waits", m.taken.v == 0, n)
            e.prove("the wait ends by itself: a signal handler notifies without the mutex, maybe before the thread waits", z3.BoolVal(
                deadline is not None), n)
            if isinstance(deadline, tuple):
                e.prove("it ends soon", deadline[1] <= 10 ** 10, n)
        m.on_block = wait
        run(e, mm(e, m, "signal_handler_thread_routine_"), [], this=m.o)
        e.cover("ends")
        m.closed()
        e.prove("the thread ends only once it was told to stop", m.stop.v)
        e.prove("every signal taken was handled", m.taken.v == 0)
    return unit


def whole(x):
    if isinstance(x, Ptr):
        x = x.target
    return x if isinstance(x, Obj) else rvalue(x)


def made(sig):
    def unit(e):
        r = rec(e, "SignalManager", sig)
        state = type("Rec", (), {a: (lambda *x: None) for a in ("condvar", "atomic", "acquire", "release", "read", "write")})()
        spawned = []
        state.spawned = lambda t, n: spawned.append(t)
        e.path_state["mon"] = state
        ctor = [d for d in r["inner"] if d.get("kind") == "CXXConstructorDecl" and not params_of(d)]
        if len(ctor) != 1:
            raise Unsupported("constructor of the manager")
        o = e.new_obj(r, "manager")
        run(e, e.prog.definition(ctor[0]["id"]) or ctor[0], [], this=o)
        e.cover("made")
        m = Man(e, sig, o)
        e.prove("no callback is registered, no id was given, the thread is not told to stop", z3.And(
            m.map.v.n == 0, m.last.v == 0, z3.Not(m.stop.v)))
        e.prove("one thread was started", z3.And(z3.BoolVal(len(spawned) == 1), m.th.v.joinable))
        ran = []
        e.contracts[W + "SignalManager::signal_handler_thread_routine_"] = Contract(lambda e, d, this, args, node: ran.append(whole(this)))
        if m.th.v.fn is None:
            raise Unsupported("what the thread runs is not known")
        e.invoke(m.th.v.fn[0], m.th.v.fn[1], None)
        e.prove("the thread handles the signals of this manager", z3.BoolVal(ran == [o]))
        sg = e.path_state.get("signal", [])
        e.prove("the handler is installed, for this signal", z3.And(z3.BoolVal(len(sg) == 1), sg[0][0] == sig) if sg else False)
        if sg:
            m.in_handler = True
            e.invoke(sg[-1][1], [z3.IntVal(sig)], None)
            e.prove("the handler counts the signal", z3.BoolVal(len(m.counted_up) == 1))
    return unit


def destroyed(sig):
    def unit(e):
        m = Man(e, sig)
        e.assume(m.th.v.joinable)
        e.assume(z3.Not(m.stop.v))
        e.destroy(m.o)
        e.cover("destroyed")
        m.closed()
        e.prove("the thread has been told to stop, and joined", z3.BoolVal(m.joins == 1))
    return unit


def instance(sig):
    def unit(e):
        m = Man(e, sig)
        news = []
        e.hooks["static"] = lambda d: news.append(d) or Cell(e, typeof(d).noref(), m.o, "static/instance", name="instance") \
            if e.prog.record(typeof(d).noref()) is m.rec else None
        a = rvalue(run(e, mm(e, m, "get_instance"), []))
        b = rvalue(run(e, mm(e, m, "get_instance"), []))
        e.cover("given")
        m.closed()
        e.prove("one manager for each signal", z3.BoolVal(whole(a) is m.o and whole(b) is m.o and len(news) == 1))
    return unit


# ---- the handlers

class Reg:
    """what is registered in the manager of each signal: a list of (id, function, signal)"""
    def __init__(self, e, sig):
        self.e, self.sig = e, sig
        self.regs, self.events = [], []
        e.path_state["mon"] = self
        for a in ("condvar", "acquire", "release", "read", "write", "atomic"):
            setattr(self, a, lambda *x: None)


def hsetup(e):
    hooks(e)
    e.lib.ext.append(Chrono(e))
    e.lib.ext.append(Fns(e))
    e.lib.ext.append(Threads(e))

    def reg():
        return e.path_state["mon"]

    def inst(e, d, this, args, node):
        o = e.path_state.setdefault("managers", {})
        k = d["_rec"]["_T"].key()
        if k not in o:
            o[k] = Cell(e, d["_rec"]["_T"], e.new_obj(e.prog.record(d["_rec"]["_T"]), "manager"), "static/manager", name="manager")
        return o[k]

    def which(this):
        return int(whole(this).rec["_T"].args[0].name)

    def register(e, d, this, args, node):
        k = e.fresh("id", I)
        e.assume(z3.And(k >= 1, k < 2 ** 32, *[k != x[0] for x in reg().regs]))
        reg().regs.append((k, rvalue(args[0]), which(this)))
        return k

    def unregister(e, d, this, args, node):
        k = rvalue(args[0])
        for x in list(reg().regs):
            if x[2] == which(this) and e.holds(x[0] == k):
                reg().regs.remove(x)
                return None
        e.prove("only a callback that is registered is unregistered", z3.BoolVal(False), node)
        raise PathEnd()

    def event(e, d, this, args, node):
        reg().events.append((whole(this), rvalue(args[0])))

    def hook(this, name, node):
        o = whole(this)
        c = method(e, o.rec, name, 0)
        e.call_function(c, o, [], node)

    def setc(e, d, this, args, node):
        reg().cb.append(("set", rvalue(args[0])))
        if not reg().set:
            reg().set = True
            hook(this, "callback_set_nts_", node)

    def unset(e, d, this, args, node):
        reg().cb.append(("unset", None))
        if reg().set:
            reg().set = False
            hook(this, "callback_unset_nts_", node)
    e.contracts[W + "SignalManager::get_instance"] = Contract(inst)
    e.contracts[W + "SignalManager::register_callback"] = Contract(register)
    e.contracts[W + "SignalManager::unregister_callback"] = Contract(unregister)
    e.contracts[W + "EventHandler::event_occurred_"] = Contract(event)
    e.contracts[W + "EventHandler::set_callback"] = Contract(setc)
    e.contracts[W + "EventHandler::unset_callback"] = Contract(unset)


def handler(e, sig, registered):
    m = Reg(e, sig)
    m.cb, m.set = [], registered
    o = e.sym_obj(rec(e, "SignalEventHandler", sig), "handler")
    own = {c["id"] for c in o.rec["inner"] if c.get("kind") == "FieldDecl"}
    cs = [c for k, c in o.fields.items() if k in own]
    flag = [c for c in cs if isinstance(c.v, z3.BoolRef)]
    num = [c for c in cs if isinstance(c.v, z3.ArithRef)]
    if len(flag) != 1 or len(num) != 1:
        raise Unsupported("the fields of the handler are not the expected ones")
    e.assume(flag[0].v == registered)
    e.assume(z3.And(num[0].v >= 1, num[0].v < 2 ** 32))
    if registered:
        m.regs.append((num[0].v, FnV("opaque", name="mine"), sig))
    m.flag, m.num, m.o = flag[0], num[0], o
    return m


def holds(e, m, registered):
    """the invariant of a handler"""
    e.prove("the handler knows whether it is registered", m.flag.v == registered)
    e.prove("it is registered %s" % ("once, with the id it keeps, for its signal" if registered else "not at all"),
            z3.And(z3.BoolVal(len(m.regs) == 1), m.regs[0][0] == m.num.v, z3.BoolVal(m.regs[0][2] == m.sig)) if registered and m.regs
            else z3.BoolVal(len(m.regs) == int(registered)))


def fires(e, m, o, sig):
    f = m.regs[-1][1]
    if isinstance(f, FnV) and f.name == "mine":
        return
    e.invoke(f, [], None)
    e.prove("what is registered raises one event of this handler, with its signal", z3.And(
        z3.BoolVal(len(m.events) == 1 and m.events[0][0] is o), m.events[0][1] == sig) if m.events else False)


def nts(sig, name, before, after):
    def unit(e):
        m = handler(e, sig, before)
        run(e, method(e, m.o.rec, name, 0), [], this=m.o)
        e.cover("returns")
        holds(e, m, after)
        e.prove("no event occurs", z3.BoolVal(not m.events))
        if after:
            fires(e, m, m.o, sig)
    return unit


def raised(sig):
    def unit(e):
        m = handler(e, sig, True)
        run(e, method(e, m.o.rec, "signal_received_callback_", 0), [], this=m.o)
        e.cover("returns")
        e.prove("one event of this handler, with its signal", z3.And(z3.BoolVal(len(m.events) == 1 and m.events[0][0] is m.o),
                                                                  m.events[0][1] == sig) if m.events else False)
        holds(e, m, True)
    return unit


def hmade(sig, own):
    def unit(e):
        m = Reg(e, sig)
        m.cb, m.set = [], False
        f = fn(e, W + ("vp_handler_of_%d" if own else "vp_handler_%d") % sig)
        o = rvalue(run(e, f, [arg(e, typeof(p), FnV("opaque", name="user"), "callback") for p in params_of(f)])).target
        o = whole(o)
        e.cover("made")
        mine = {c["id"] for c in o.rec["inner"] if c.get("kind") == "FieldDecl"}
        cs = [c for k, c in o.fields.items() if k in mine]
        m.flag, m.num = [c for c in cs if isinstance(c.v, z3.BoolRef)][0], [c for c in cs if isinstance(c.v, z3.ArithRef)][0]
        e.prove("the callback is set, %s" % ("the one given" if own else "one of its own"), z3.BoolVal(
            len(m.cb) == 1 and m.cb[0][0] == "set" and (m.cb[0][1].name == "user") == own))
        holds(e, m, True)
        fires(e, m, o, sig)
    return unit


def hgone(sig, registered):
    def unit(e):
        m = handler(e, sig, registered)
        e.destroy(m.o)
        e.cover("destroyed")
        e.prove("nothing is registered any more", z3.BoolVal(not m.regs))
    return unit


def units():
    us = []
    for s in (10, 15):
        a = " of signal %d" % s
        us += [Unit("new_unique_id_" + a, new_id(s), setup), Unit("register_callback" + a, register(s), setup),
               Unit("unregister_callback" + a, unregister(s), setup), Unit("signal_handler_routine_" + a, handle(s), setup),
               Unit("signal_received_" + a, received(s, "signal_received_"), setup),
               Unit("signal_handler_function_" + a, received(s, "signal_handler_function_"), setup),
               Unit("signal_handler_thread_routine_" + a, routine(s), setup), Unit("construction of the manager" + a, made(s), setup),
               Unit("destruction of the manager" + a, destroyed(s), setup), Unit("get_instance" + a, instance(s), setup),
               Unit("callback_set_nts_" + a, nts(s, "callback_set_nts_", False, True), hsetup),
               Unit("callback_set_nts_ again" + a, nts(s, "callback_set_nts_", True, True), hsetup),
               Unit("callback_unset_nts_" + a, nts(s, "callback_unset_nts_", True, False), hsetup),
               Unit("callback_unset_nts_ again" + a, nts(s, "callback_unset_nts_", False, False), hsetup),
               Unit("signal_received_callback_" + a, raised(s), hsetup), Unit("construction of a handler" + a, hmade(s, False), hsetup),
               Unit("construction of a handler with a callback" + a, hmade(s, True), hsetup),
               Unit("destruction of a handler" + a, hgone(s, True), hsetup), Unit("destruction of a handler that is unset" + a, hgone(s, False), hsetup)]
    return us


UNITS = units()
