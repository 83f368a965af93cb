"""C20: timers."""
from .common import *
from .monitor import method
from .waits import Chrono, TimeV, tv
from vc.frontend import REPO

PROGS = {"main": '''#include <atomic>
#include "%(r)s/cpp_utils/src/cpp/time/Timer.cpp"
#include "%(r)s/cpp_utils/src/cpp/time/PausableTimer.cpp"
namespace eprosima { namespace utils {
Timer vp_timer() { return Timer(); }
PausableTimer vp_pausable(bool b) { return PausableTimer(b); }
} }
''' % {"r": REPO}}
DRIVER = {"src": "c20.cpp", "flags": ["-O1", "-g"],
          "repo": ["cpp_utils/src/cpp/time/Timer.cpp", "cpp_utils/src/cpp/time/PausableTimer.cpp"]}
ASSUMPTIONS = ["the clock does not go backwards (std::chrono::high_resolution_clock is the system clock in libstdc++)",
               "the milliseconds of a time are a fixed double for each number of nanoseconds, and the sums of doubles are IEEE sums: "
               "'the sum' of the playing times is the rounded sum", "elapsed_ms is asked for less than 2^32 ms after the reset",
               "a timer is used by one thread at a time (documented)"]
F64 = z3.FPSort(11, 53)
MS = z3.Function("ms_of_ns", z3.IntSort(), F64)
WHOLE = z3.Function("whole", F64, z3.IntSort())
TIMER, PAUSABLE = T(U + "Timer"), T(U + "PausableTimer")


class Clock(Chrono):
    """every reading of the clock is at or after the previous one"""
    def call_free(self, name, args, n, argn):
        e = self.e
        if name == "now" and not args:
            c = e.path_state.get("clock")
            if c is None:
                return None
            t = e.fresh("now", z3.IntSort())
            e.assume(t >= c[-1])
            c.append(t)
            return TimeV(t)
        return super().call_free(name, args, n, argn)

    def method(self, base, o, name, argn, n, bt):
        bt = bt.noref()
        if name == "count" and bt.name == "std::chrono::duration" and bt.args and bt.args[0].name == "double":
            return MS(tv(o)) if self.period(bt) == 10 ** 6 else None
        return super().method(base, o, name, argn, n, bt)

    def fpcast(self, ck, v, ft, tt, n):
        if ck == "FloatingToIntegral" and self.e.int_t(tt).name == "unsigned int":
            r = WHOLE(v)
            self.e.assume(z3.And(r >= 0, r < 2 ** 32))
            return r


def setup(e):
    e.lib.ext.append(Clock(e))


def start(e, t):
    """a timer whose last reset was not after the present; reads: the readings of the clock from now on"""
    now = e.fresh("present", z3.IntSort())
    e.path_state["clock"] = [now]
    if t is None:
        return None, None, None
    o = e.sym_obj(e.prog.record(t), "timer")
    s = since(o)
    e.assume(tv(s.v) <= now)
    return o, s, now


def reads(e):
    return e.path_state["clock"][1:]


def since(o):
    c = [c for c in o.byname.values() if isinstance(c.v, TimeV)]
    if len(c) != 1:
        raise Unsupported("not one starting time")
    return c[0]


def parts(o):
    p = [c for c in o.byname.values() if c.t.noref().name == "bool"]
    d = [c for c in o.byname.values() if c.t.noref().name == "double"]
    if len(p) != 1 or len(d) != 1:
        raise Unsupported("not one state and one stored time")
    return p[0], d[0]


def some(e, f):
    """at one of the moments of this call"""
    return z3.Or(*[f(t) for t in reads(e)]) if reads(e) else z3.BoolVal(False)


def add(a, b):
    return z3.fpAdd(z3.RNE(), a, b)


# ---------------------------------------------------------------- Timer

def ctor(e):
    start(e, None)
    o = rvalue(run(e, fn(e, "vp_timer"), []))
    e.cover("made")
    e.prove("a timer counts from its construction", some(e, lambda t: tv(since(o).v) == t))


def reset(e):
    o, s, now = start(e, TIMER)
    run(e, method(e, e.prog.record(TIMER), "reset", 0), [], this=o)
    e.cover("reset")
    e.prove("after a reset a timer counts from the reset", some(e, lambda t: tv(s.v) == t))


def elapsed(e):
    o, s, now = start(e, TIMER)
    s0 = tv(s.v)
    r = rvalue(run(e, method(e, e.prog.record(TIMER), "elapsed", 0), [], this=o))
    e.cover("elapsed")
    e.prove("the elapsed time is the time since the last reset", some(e, lambda t: r == MS(t - s0)))
    e.prove("asking changes nothing", tv(s.v) == s0)


def elapsed_ms(e):
    o, s, now = start(e, TIMER)
    s0 = tv(s.v)
    r = rvalue(run(e, method(e, e.prog.record(TIMER), "elapsed_ms", 0), [], this=o))
    e.cover("elapsed")
    e.prove("elapsed_ms is the elapsed time in whole milliseconds", some(e, lambda t: r == WHOLE(MS(t - s0))))


# ---------------------------------------------------------------- PausableTimer

def p_ctor(e):
    start(e, None)
    b = e.fresh("play", z3.BoolSort())
    o = rvalue(run(e, fn(e, "vp_pausable"), [arg(e, T("bool"), b)]))
    p, d = parts(o)
    e.cover("made")
    e.prove("a pausable timer starts in the state asked for", p.v == b)
    e.prove("nothing has elapsed at the start", d.v == z3.FPVal(0.0, F64))
    e.prove("a playing timer counts from its construction", z3.Implies(b, some(e, lambda t: tv(since(o).v) == t)))


def p_op(name):
    def unit(e):
        o, s, now = start(e, PAUSABLE)
        p, d = parts(o)
        p0, d0, s0 = p.v, d.v, tv(s.v)
        r = rvalue(run(e, method(e, e.prog.record(PAUSABLE), name, 0), [], this=o))
        e.cover("ran")
        same = z3.And(p.v == p0, d.v == d0, z3.Implies(p0, tv(s.v) == s0))
        if name == "play":
            e.prove("a playing timer is left as it is", z3.Implies(p0, same))
            e.prove("play: the timer plays, from this moment, and keeps what had elapsed", z3.Implies(
                z3.Not(p0), z3.And(p.v, d.v == d0, some(e, lambda t: tv(s.v) == t))))
        elif name == "pause":
            e.prove("a paused timer is left as it is", z3.Implies(z3.Not(p0), same))
            e.prove("pause: the timer stops, and the time it played is added once", z3.Implies(
                p0, z3.And(z3.Not(p.v), some(e, lambda t: d.v == add(d0, MS(t - s0))))))
        elif name == "elapsed":
            e.prove("a paused timer gives what it has played", z3.Implies(z3.Not(p0), r == d0))
            e.prove("a playing timer gives what it had played and the time since it plays", z3.Implies(
                p0, some(e, lambda t: r == add(d0, MS(t - s0)))))
            e.prove("asking changes nothing", same)
        elif name == "reset":
            e.prove("reset: nothing has elapsed, and the timer stays playing or paused", z3.And(p.v == p0, d.v == z3.FPVal(0.0, F64)))
            e.prove("a playing timer counts from the reset", z3.Implies(p0, some(e, lambda t: tv(s.v) == t)))
        else:
            e.prove("playing tells the state", z3.And(r == p0, same))
    return unit


def p_elapsed_ms(e):
    """the inherited operation, on a pausable timer"""
    o, s, now = start(e, PAUSABLE)
    p, d = parts(o)
    p0, d0, s0 = p.v, d.v, tv(s.v)
    r = rvalue(run(e, method(e, e.prog.record(TIMER), "elapsed_ms", 0), [], this=o))
    e.cover("elapsed")
    e.prove("elapsed_ms of a paused timer is what it has played", z3.Implies(z3.Not(p0), r == WHOLE(d0)))
    e.prove("elapsed_ms of a playing timer is what it has played", z3.Implies(
        p0, some(e, lambda t: r == WHOLE(add(d0, MS(t - s0))))))


UNITS = [Unit("Timer", ctor, setup), Unit("Timer::reset", reset, setup), Unit("Timer::elapsed", elapsed, setup),
         Unit("Timer::elapsed_ms", elapsed_ms, setup), Unit("PausableTimer", p_ctor, setup),
         Unit("PausableTimer::elapsed_ms", p_elapsed_ms, setup)] + \
        [Unit("PausableTimer::" + n, p_op(n), setup) for n in ("play", "pause", "elapsed", "reset", "playing")]
