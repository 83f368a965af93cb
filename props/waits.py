"""Contracts of condition variables over the monitor: a wait releases the lock, other threads run, and the lock is taken again; every
change that makes true what a thread may be waiting for is followed by a notification before the operation returns."""
from .common import *
from vc.engine import Restart, LoopInfo
from . import monitor
from .monitor import Monitor, Lock, Section, method
from vc.stdlib import MutexV, CondVar, GuardV


class Cond:
    """What threads wait for on a condition variable.
    holds(state): the condition, a function of a snapshot;  consuming: a thread that finds it true may make it false, so
    waking one thread is enough as long as it wakes the next one while the condition still holds."""
    def __init__(self, name, cv, holds, consuming=False, size=None):
        self.name, self.cv, self.holds, self.consuming, self.size = name, cv, holds, consuming, size


class Waits(Monitor):
    def __init__(self, e, locks, conds, off=None, rely=None):
        """off(state): whether waiting is disabled (every wait ends)"""
        super().__init__(e, locks, rely)
        self.conds, self.off = conds, off
        self.owed = {}            # (cv label, condition name, how) -> formula: a notification is still owed
        self.notified = {}        # cv label -> how, in the current section
        self.blocked = set()      # cvs this thread was waiting on in this call
        self.waits = []           # every blocking wait: (cv label, deadline or None, state)
        self.timed_out = None     # deadline of the wait that ended by timeout
        self.late = z3.BoolVal(False)         # a wait ended by timeout
        self.once_late = False    # whether a thread whose time ran out may not wait again
        self.may_block = None     # condition (formula of the state) under which this operation may block
        self.counted = None       # formula: this thread is counted while it blocks
        self.on_block = None

    def end(self, l, n):
        s = l.cur
        super().end(l, n)
        for c in self.conds:
            if c.cv[0] != l:
                continue
            cv = c.cv[1]
            how = self.notified.get(cv)
            if self.off is not None:
                off = z3.And(z3.Not(self.off(s.pre)), self.off(s.post))
                self.owe(cv, "all", off, how)
            on = z3.Not(self.off(s.post)) if self.off is not None else z3.BoolVal(True)
            change = z3.And(on, z3.Not(c.holds(s.pre)), c.holds(s.post))
            if c.consuming:
                k = z3.And(on, c.holds(s.post), z3.Or(c.size(s.post) > c.size(s.pre), z3.BoolVal(cv in self.blocked)))
                alone = len([d for d in self.conds if d.cv[1] == cv]) == 1
                self.owe(cv, "one" if alone else "all", k, how)
            else:
                self.owe(cv, "all", change, how)
        self.notified = {}

    def owe(self, cv, need, when, how):
        if how == "all" or how == need:
            return
        k = (cv, need)
        self.owed[k] = z3.Or(self.owed.get(k, z3.BoolVal(False)), when)

    def notify(self, cv, how):
        if any(l.held() for l in self.locks.values() if any(c.cv[0] is l and c.cv[1] == cv for c in self.conds)):
            if self.notified.get(cv) != "all":
                self.notified[cv] = how
        for k in list(self.owed):
            if k[0] == cv and (how == "all" or k[1] == "one"):
                del self.owed[k]

    def settled(self, what, n=None):
        e = self.e
        for (cv, need), f in self.owed.items():
            e.prove("%s: the threads whose condition now holds (or that were disabled) have been notified (%s, %s)" % (
                what, cv.split(".")[-1].split("/")[-1], need), z3.Not(f), n)

    def closed(self, n=None):
        super().closed(n)
        self.settled("at the end", n)

    def condvar(self, o, name, argn, n):
        e = self.e
        if name in ("notify_all", "notify_one"):
            self.notify(o.label, name[7:])
            return None
        if name not in ("wait", "wait_for", "wait_until"):
            return None
        args = e.args_of(argn)
        g = rvalue(args[0])
        if not isinstance(g, GuardV):
            raise Unsupported("wait with an unknown lock", n)
        m = rvalue(g.m)
        l = self.lock_of(m)
        if l is None:
            raise Unsupported("wait with an unknown mutex", n)
        e.prove("a thread waits with the lock it holds", z3.And(z3.BoolVal(bool(l.ex)), g.owned if isinstance(g.owned, z3.ExprRef)
                                                                else z3.BoolVal(bool(g.owned))), n, "safety")
        deadline = None
        rest = args[1:]
        if name != "wait":
            deadline = tv(rest[0])
            if name == "wait_for":
                deadline = ("for", deadline)
            rest = rest[1:]
        pred = rest[0] if rest else None

        def test():
            return e.truth(rvalue(e.invoke(rvalue(pred), [], n)))
        if pred is None:
            self.block(l, o, deadline, n)
            if deadline is None:
                return None
            e.lib.note("a wait for a time without condition ends at any moment, and says timeout only when the time has come")
            late = e.fresh("timed_out", z3.BoolSort())
            if e.branch(late, n):
                self.timed_out, self.late = deadline, z3.BoolVal(True)
                if isinstance(deadline, z3.ExprRef):
                    e.assume(deadline < END)
                return z3.IntVal(1)         # std::cv_status::timeout
            return z3.IntVal(0)
        if e.branch(test(), n):
            return z3.BoolVal(True)
        self.block(l, o, deadline, n)
        if e.branch(test(), n):
            return z3.BoolVal(True)
        if deadline is not None and e.branch(e.fresh("timed_out", z3.BoolSort()), n):
            self.timed_out, self.late = deadline, z3.BoolVal(True)
            if isinstance(deadline, z3.ExprRef):
                e.assume(deadline < END)        # the end of time never comes
            return z3.BoolVal(False)
        self.precheck(l, o, deadline, n)
        raise PathEnd()

    def precheck(self, l, o, deadline, n):
        """what must hold when this thread blocks"""
        e = self.e
        st = self.snapshot(l)
        for k, x in self.locks.items():
            if x is not l:
                e.prove("no other lock is held while waiting", z3.BoolVal(not x.held()), n)
        if self.may_block is not None:
            e.prove("a thread blocks only while its condition is false and waiting is enabled", self.may_block(st), n)
        if self.counted is not None:
            e.prove("a thread that blocks is counted", self.counted(), n)
        if self.conds:
            ok = [c for c in self.conds if c.cv[1] == o.label]
            e.prove("threads wait on the condition variable that is notified for their condition", z3.BoolVal(bool(ok)), n)
            if not ok:
                raise PathEnd()
        if self.on_block:
            self.on_block(l, o, deadline, n, st)

    tw = None                     # the number of waiting threads, if it is kept

    def may_vary(self, c):
        return c is self.tw

    def loop_head(self, ctx):
        e = self.e
        for f in self.owed.values():
            if not e.holds(z3.Not(f)):
                raise Unsupported("a notification is owed when a loop starts", ctx.node)
        if self.notified and ctx.info.waits:
            raise Unsupported("a notification inside the critical section of a loop that waits", ctx.node)
        self.owed = {}
        super().loop_head(ctx)
        for k in ctx.info.waits:
            self.blocked |= {c.cv[1] for c in self.conds if c.cv[0] is self.locks[k]}
        if ctx.info.waits:
            self.late = e.fresh("late", z3.BoolSort())
            self.timed_out = e.fresh("timed_out_at", z3.IntSort())

    def loop_back(self, ctx):
        for f in self.owed.values():
            if not self.e.holds(z3.Not(f)):
                raise Unsupported("a notification is owed when an iteration ends", ctx.node)
        super().loop_back(ctx)

    def loop_inv(self, ctx):
        """what a loop that waits may keep"""
        if not ctx.info.waits:
            return
        e = self.e
        for k in sorted(ctx.info.waits):
            l = self.locks[k]
            if not l.held() or l.cur is None:
                continue
            for c in l.cells:
                p = l.cur.pre.get(c.label)
                if isinstance(c.v, z3.ExprRef) and isinstance(p, z3.ExprRef):
                    yield "%s: as when the lock was taken" % (c.name or c.label), c.v == p
            if self.counted is not None:
                yield "the thread is counted", self.counted()
            p = l.cur.pre
            if self.own is not None and self.tw is not None and self.tw.label in p:
                own = self.own + self.tw.v - p[self.tw.label]
                yield "waiting threads with this one", z3.And(self.tw.v >= own, own >= 0, self.tw.v <= 2 ** 31)
                yield "counted before", p[self.tw.label] >= self.own
                if self.off is not None:
                    yield "counted while enabled", z3.Implies(self.tw.v > p[self.tw.label], z3.Not(self.off(p)))
            st = self.snapshot(l)
            for b in ctx.bools():
                if b.label.startswith("ghost/") or any(b in x.cells for x in self.locks.values()):
                    continue
                if self.may_block is not None:
                    yield "%s: nothing to wait for" % b.label, z3.Implies(b.v, z3.Not(self.may_block(st)))
                    yield "%s: something to wait for" % b.label, z3.Implies(b.v, self.may_block(st))
                    if self.off is not None:
                        try:
                            on = z3.Not(self.off(st))
                        except KeyError:
                            continue
                        yield "%s: something to wait for while enabled" % b.label, z3.Implies(z3.And(b.v, on), self.may_block(st))
                        yield "not %s: something to wait for while enabled" % b.label, z3.Implies(z3.And(z3.Not(b.v), on), self.may_block(st))
                    yield "not %s: nothing to wait for" % b.label, z3.Implies(z3.Not(b.v), z3.Not(self.may_block(st)))
                    yield "not %s: something to wait for" % b.label, z3.Implies(z3.Not(b.v), self.may_block(st))
                yield "%s: late" % b.label, z3.Implies(b.v, self.late)
                yield "%s: not late" % b.label, z3.Implies(b.v, z3.Not(self.late))
                yield "not %s: late" % b.label, z3.Implies(z3.Not(b.v), self.late)
                yield "not %s: not late" % b.label, z3.Implies(z3.Not(b.v), z3.Not(self.late))
        yield "not late", z3.Not(self.late)
        if isinstance(self.timed_out, z3.ExprRef):
            yield "the end of time did not come", z3.Implies(self.late, self.timed_out < END)
        for c in ctx.cells(lambda c: c.t.noref().name.endswith("cv_status") and isinstance(c.v, z3.ArithRef)):
            yield "%s: late" % c.label, self.late == (c.v == 1)
            yield "%s: a status" % c.label, z3.Or(c.v == 0, c.v == 1)
        for c in ctx.cells(lambda c: isinstance(c.v, TimeV)):
            if isinstance(self.timed_out, z3.ExprRef):
                yield "%s: the deadline" % c.label, z3.Implies(self.late, self.timed_out == c.v.v)
            else:
                yield "%s: the deadline" % c.label, z3.Not(self.late)

    def block(self, l, o, deadline, n):
        e = self.e
        k = [x for x in self.locks if self.locks[x] is l][0]
        if e.unrolling:
            # other threads run while this one waits: an arbitrary iteration, not one after the other
            e.loops[e.unrolling[-1]] = LoopInfo()
            raise Restart()
        for L in e.loopstack:
            if k not in L["info"].waits:
                L["info"].waits.add(k)
                raise Restart()
        if self.once_late:
            e.prove("a thread whose time has run out does not wait again", z3.Not(self.late), n)
        self.precheck(l, o, deadline, n)
        self.waits.append((o.label, deadline))
        self.end(l, n)
        self.settled("when blocking", n)
        self.blocked.add(o.label)
        self.begin(l, False)


def hooks(e):
    monitor.hooks(e)

    def mon():
        return e.path_state.get("mon")
    e.hooks["condvar"] = lambda *a: mon() and mon().condvar(*a)
    e.hooks["atomic"] = lambda *a: mon().atomic(*a) if mon() is not None and hasattr(mon(), "atomic") else None


class TimeV:
    """a time point or duration, in nanoseconds"""
    def __init__(self, v):
        self.v = v


def tv(x):
    x = rvalue(x)
    return x.v if isinstance(x, TimeV) else x


class Chrono:
    """time points and durations are integers, in nanoseconds"""
    NAMES = ("std::chrono::time_point", "std::chrono::duration")

    def __init__(self, e):
        self.e = e

    def is_(self, t):
        t = t.noref()
        return not t.ptr and t.name in self.NAMES

    def period(self, t):
        t = t.noref()
        if t.name == "std::chrono::time_point":
            return self.period(t.args[1]) if len(t.args) > 1 else 1
        if len(t.args) < 2:
            return 10 ** 9
        a = t.args[1]
        if a.name in ("std::nano", "std::micro", "std::milli"):
            return {"std::nano": 1, "std::micro": 1000, "std::milli": 10 ** 6}[a.name]
        v = [int(x.name) for x in a.args] if a.args else [1, 1]
        return 10 ** 9 * v[0] // (v[1] if len(v) > 1 else 1)

    def sym(self, t, name):
        if self.is_(t):
            return TimeV(self.e.fresh(name, z3.IntSort()))

    def default(self, t, label):
        if self.is_(t):
            return TimeV(z3.IntVal(0))

    def construct(self, t, inner, n):
        if not self.is_(t):
            return None
        if not inner:
            return TimeV(z3.IntVal(0))
        v = self.e.rv(inner[0])
        st = typeof(inner[0]).noref()
        if self.is_(st):
            return v
        return TimeV(self.num(v, st) * self.period(t))

    def num(self, v, t):
        if isinstance(v, int):
            return z3.IntVal(v)
        if v.sort().kind() == z3.Z3_BV_SORT:
            return z3.BV2Int(v, "unsigned" not in t.name)
        return v

    def operator(self, name, args, n):
        ops = {"operator+": lambda a, b: a + b, "operator-": lambda a, b: a - b, "operator<": lambda a, b: a < b,
               "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b, "operator>=": lambda a, b: a >= b,
               "operator==": lambda a, b: a == b, "operator!=": lambda a, b: a != b}
        if name not in ops or len(args) != 2:
            return None
        ts = [typeof(x) for x in n.get("inner", [])[1:]]
        if len(ts) == 2 and all(self.is_(t) for t in ts):
            r = ops[name](*[tv(a) for a in args])
            return TimeV(r) if name[8:] in "+-" else r

    def havoc(self, c, base=None):
        if isinstance(c.v, TimeV):
            return TimeV(self.e.fresh(c.label, z3.IntSort()))

    def copy(self, v, move):
        if isinstance(v, TimeV):
            return v


    def call_free(self, name, args, n, argn):
        t = typeof(n)
        if name in ("max", "min") and self.is_(t) and not args:
            return TimeV(END if name == "max" else -END)
        if name in ("duration_cast", "time_point_cast") and self.is_(t):
            v, p = tv(args[0]), self.period(t)
            return TimeV(v if p == 1 else z3.If(v >= 0, v / p, -((-v) / p)) * p)

    def method(self, base, o, name, argn, n, bt):
        if not self.is_(bt):
            return None
        if name == "operator=" and isinstance(base, LV):
            v = rvalue(self.e.ev(argn[0]))
            base.set(v)
            return base
        if name in ("operator+=", "operator-=") and isinstance(base, LV):
            v = tv(self.e.ev(argn[0]))
            base.set(TimeV(o.v + v if name[8] == "+" else o.v - v))
            return base
        if name == "count":
            p = self.period(bt)
            return o.v if p == 1 else o.v / p
        if name == "time_since_epoch":
            return o


END = z3.IntVal(2 ** 63 - 1)
