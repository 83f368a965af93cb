"""C26: moments, dates and their texts."""
import copy
from .common import *
from vc.values import LV, TempLV
from vc.stdlib import NONE
from .waits import Chrono, TimeV, tv
from vc.frontend import REPO

PROGS = {"main": '''#include <cpp_utils/Log.hpp>
#include "%(r)s/cpp_utils/src/cpp/time/time_utils.cpp"
''' % {"r": REPO}}
DRIVER = {"src": "c26.cpp", "flags": ["-O1", "-g", "-fsanitize=undefined"],
          "repo": ["cpp_utils/src/cpp/time/time_utils.cpp", "cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["the C library: gmtime_r, localtime_r, timegm and mktime convert between a number of seconds and its date, timegm is the inverse of "
               "gmtime_r; they set the day of the week when they succeed, and change nothing and give -1 when they fail; gmtime and localtime "
               "give a buffer that every thread shares",
               "std::put_time and std::get_time: a fixed text for each format and date; a fixed date, or failure, for each text and format, "
               "fields that the format does not mention stay; a format has no null character",
               "the arguments of date_to_timestamp and time_to_timestamp are below 2^31, and their date can be represented (years 1678 to 2261)",
               "system_clock counts nanoseconds in 64 bits and drops the fraction of a second towards 1970 (libstdc++)"]
G = 10 ** 9
I, S = z3.IntSort(), z3.StringSort()
TM = ("tm", "std::tm")
FIELDS = ("tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_wday", "tm_yday", "tm_isdst", "tm_gmtoff")
SIX = FIELDS[:6]
ORDER = FIELDS + ("tm_zone",)
DATE = {k: {f: z3.Function("%s_%s" % (k, f), I, I) for f in FIELDS} for k in ("UTC", "LOCAL")}
DATE_OK = {k: z3.Function(k + "_ok", I, z3.BoolSort()) for k in DATE}
SECONDS = {"UTC": z3.Function("SECONDS_UTC", *[I] * 7), "LOCAL": z3.Function("SECONDS_LOCAL", *[I] * 8)}
SECONDS_OK = {"UTC": z3.Function("SECONDS_UTC_ok", *[I] * 6, z3.BoolSort()), "LOCAL": z3.Function("SECONDS_LOCAL_ok", *[I] * 7, z3.BoolSort())}
PUT = z3.Function("PUT_TIME", S, *[I] * len(FIELDS), S)
GET = {f: z3.Function("GET_TIME_" + f, S, S, I, I) for f in FIELDS}
GET_OK = z3.Function("GET_TIME_ok", S, S, z3.BoolSort())
FIRST, LAST = -(2 ** 63 // G), 2 ** 63 // G
END = 2 ** 63 - 1


def whole(ns):
    """seconds, without the fraction"""
    return z3.If(ns >= 0, ns / G, -((-ns) / G))


class TmV:
    """std::tm: the value of each field; None is a field that nothing has set"""
    def __init__(self, v=None):
        self.v = dict(v or {})

    def get(self, f):
        return self.v.get(f)


class TmField(LV):
    def __init__(self, base, f):
        self.base, self.f = base, f
        self.t = T("int")

    def get(self):
        v = self.base.get().get(self.f)
        if v is None:
            raise Unsupported("read of a field of a date that nothing has set")
        return v

    def set(self, v):
        self.base.set(TmV({**self.base.get().v, self.f: v}))

    def root(self):
        return self.base.root()


class TmText:
    def __init__(self, tm, fmt):
        self.tm, self.fmt = tm, fmt


class InText:
    """std::istringstream"""
    def __init__(self, s):
        self.s, self.failed = s, z3.BoolVal(False)


class Dates(Chrono):
    def construct(self, t, inner, n):
        if t.noref().name in ("std::istringstream", "std::basic_istringstream"):
            return InText(self.e.lib.tostr(self.e.rv(inner[0])))
        if t.noref().name in TM:
            return copy.copy(self.e.rv(inner[0])) if inner else TmV()
        if self.is_(t) and inner:
            v = self.e.rv(inner[0])
            if isinstance(v, TimeV):
                return v
        return super().construct(t, inner, n)

    def init_list(self, t, items, n):
        if t.noref().name in TM:
            return TmV({f: items[ORDER.index(f)] if ORDER.index(f) < len(items) else z3.IntVal(0) for f in ORDER})

    def default(self, t, label):
        if t.noref().name in TM:
            return TmV()
        return super().default(t, label)

    def sym(self, t, name):
        if t.noref().name in TM:
            return TmV({f: self.e.fresh(name + "_" + f, I) for f in ORDER})
        return super().sym(t, name)

    def assigned(self, old, new, *a):
        if isinstance(new, TmV):
            return TmV(new.v)

    def member(self, base, o, n):
        if isinstance(o, TmV):
            return TmField(base if isinstance(base, LV) else TempLV(o, None), n["name"])

    def copy(self, v, move):
        if isinstance(v, InText):
            r = InText(v.s)
            r.failed = v.failed
            return r
        if isinstance(v, TmV):
            return TmV(v.v)
        return super().copy(v, move)

    def truth(self, v):
        if isinstance(v, InText):
            return z3.Not(v.failed)

    def text(self, x):
        return self.e.lib.tostr(rvalue(x))

    def call_free(self, name, args, n, argn):
        e = self.e
        if name == "now" and not args:
            t = e.fresh("now", I)
            e.assume(z3.And(t >= 0, t < END))
            e.path_state.setdefault("now", []).append(t)
            e.assume(DATE_OK["UTC"](whole(t)))
            e.path_state.get("on_now", lambda t: None)(t)
            return TimeV(t)
        if name == "to_time_t":
            return whole(tv(args[0]))
        if name == "from_time_t":
            v = rvalue(args[0])
            self.e.prove("the moment can be represented", z3.And(v >= FIRST, v <= LAST), n, "safety")
            return TimeV(v * G)
        if name in ("put_time", "get_time"):
            return TmText(where(args[0]), self.text(args[1]))
        if name == "sleep_for":
            e.path_state["slept"] = e.path_state.get("slept", z3.IntVal(0)) + tv(args[0])
            return NONE
        c = self.e.clib.get(name)
        if c:
            return c(args, n)
        if name == "min" and self.is_(typeof(n)) and not args:
            return TimeV(z3.IntVal(-2 ** 63))
        return super().call_free(name, args, n, argn)

    def format(self, x, t, n):
        if isinstance(x, TmText):
            v = x.tm.get()
            if any(v.get(f) is None for f in FIELDS):
                self.e.prove("every field of the date has a value", z3.BoolVal(False), n, "safety")
                raise PathEnd()
            return PUT(x.fmt, *[v.get(f) for f in FIELDS])

    def operator(self, name, args, n):
        if name == "operator>>" and isinstance(rvalue(args[0]), InText):
            e = self.e
            s, x = rvalue(args[0]), rvalue(args[1])
            if not isinstance(x, TmText):
                raise Unsupported("reading something else than a time", n)
            ok = GET_OK(s.s, x.fmt)
            new = InText(s.s)
            new.failed = z3.Or(s.failed, z3.Not(ok))
            args[0].set(new)
            v = x.tm.get()
            if any(v.get(f) is None for f in FIELDS):
                e.prove("every field of the date has a value", z3.BoolVal(False), n, "safety")
                raise PathEnd()
            x.tm.set(TmV({**v.v, **{f: z3.If(ok, GET[f](s.s, x.fmt, v.get(f)), e.fresh("partial_" + f, I)) for f in FIELDS
                                    if f != "tm_isdst"}}))
            return args[0]
        if name == "operator!" and isinstance(rvalue(args[0]), InText):
            return rvalue(args[0]).failed
        return super().operator(name, args, n)

    def method(self, base, o, name, argn, n, bt):
        if isinstance(o, InText):
            if name in ("fail", "operator!"):
                return o.failed
            if name == "operator bool":
                return z3.Not(o.failed)
            if name == "bad":               # a text that is not the expected one fails, its stream is not damaged
                return z3.BoolVal(False)
            if name == "good":              # neither failed nor at its end, which it may be or not
                return z3.And(z3.Not(o.failed), z3.Not(self.e.fresh("at_end", z3.BoolSort())))
            if name == "eof":
                return self.e.fresh("at_end", z3.BoolSort())
        return super().method(base, o, name, argn, n, bt)



def where(a):
    """the date that a pointer designates"""
    p = rvalue(a)
    return p.target if isinstance(p, Ptr) else p


def setup(e):
    e.lib.whole_c_strings = True
    e.lib.ext.append(Dates(e))
    clib = {}

    def rel(which, shared):
        def f(args, node):
            t = rvalue(where(args[0]))
            if shared:
                e.prove("the date is not kept in the buffer that every thread shares", z3.BoolVal(False), node, "safety")
                raise PathEnd()
            tm = where(args[1])
            if not e.branch(DATE_OK[which](t), node):
                return Ptr(None)
            tm.set(TmV({**{k: DATE[which][k](t) for k in FIELDS}, "tm_zone": z3.IntVal(0)}))
            return rvalue(args[1])
        return f
    for n, w in (("gmtime", "UTC"), ("localtime", "LOCAL")):
        clib[n + "_r"] = rel(w, False)
        clib[n] = rel(w, True)

    def inv(which):
        def f(args, node):
            tm = where(args[0])
            v = tm.get()
            x = [v.get(k) for k in SIX] + ([v.get("tm_isdst")] if which == "LOCAL" else [])
            if any(k is None for k in x):
                e.prove("every field of the date has a value", z3.BoolVal(False), node, "safety")
                raise PathEnd()
            if not e.branch(SECONDS_OK[which](*x), node):
                return z3.IntVal(-1)
            r = SECONDS[which](*x)
            new = {k: e.fresh(k, I) for k in FIELDS}
            e.assume(z3.And(new["tm_wday"] >= 0, new["tm_wday"] <= 6))
            tm.set(TmV({**new, "tm_zone": z3.IntVal(0)}))
            return r
        return f
    clib["timegm"] = inv("UTC")
    clib["mktime"] = inv("LOCAL")
    clib["tzset"] = lambda args, node: NONE
    e.clib = clib


def date(e):
    a = [e.fresh(k, I) for k in ("year", "month", "day", "hour", "minute", "second")]
    for x in a:
        e.assume(z3.And(x >= 0, x < 2 ** 31))
    y, mo, d, h, mi, s = a
    args = (s, mi, h, d, mo - 1, y - 1900)
    e.assume(SECONDS_OK["UTC"](*args))
    e.assume(z3.And(SECONDS["UTC"](*args) >= FIRST, SECONDS["UTC"](*args) <= LAST))
    r = rvalue(run(e, fn(e, "date_to_timestamp"), [arg(e, T("unsigned int"), x, str(x)) for x in a]))
    e.cover("made")
    e.prove("a date is the moment of that date in UTC", tv(r) == G * SECONDS["UTC"](*args))


def time(e):
    a = [e.fresh(k, I) for k in ("hour", "minute", "second")]
    for x in a:
        e.assume(z3.And(x >= 0, x < 2 ** 31))
    h, mi, s = a

    def at(t):
        return (s, mi, h, *[DATE["UTC"][k](whole(t)) for k in SIX[3:]])

    def on_now(t):
        e.assume(z3.And(SECONDS["UTC"](*at(t)) >= FIRST, SECONDS["UTC"](*at(t)) <= LAST))
    e.path_state["on_now"] = on_now
    r = rvalue(run(e, fn(e, "time_to_timestamp"), [arg(e, T("unsigned int"), x, str(x)) for x in a]))
    e.cover("made")
    now = e.path_state.get("now", [])
    e.prove("a time is the moment of that time in UTC at the date of the call", z3.Or(*[
        tv(r) == G * z3.If(SECONDS_OK["UTC"](*at(t)), SECONDS["UTC"](*at(t)), -1) for t in now]) if now else False)


def moment(e, name="t"):
    t = e.fresh(name, I)
    e.assume(z3.And(t >= -2 ** 63, t <= END))
    return t


def written(e):
    t = moment(e)
    fmt = e.fresh("format", S)
    loc = e.fresh("local", z3.BoolSort())
    f = fn(e, "timestamp_to_string")
    k = [z3.If(loc, DATE["LOCAL"][x](whole(t)), DATE["UTC"][x](whole(t))) for x in FIELDS]
    ok = z3.If(loc, DATE_OK["LOCAL"](whole(t)), DATE_OK["UTC"](whole(t)))
    ps = params_of(f)
    try:
        r = rvalue(run(e, f, [arg(e, typeof(ps[0]).noref(), TimeV(t), "t"), arg(e, T("std::string"), fmt, "format"), arg(e, T("bool"), loc, "local")], throws=True))
    except CppThrow as x:
        e.cover("refused")
        e.prove("a moment is refused only if it has no date, with PreconditionNotMet",
                z3.And(z3.Not(ok), z3.BoolVal("PreconditionNotMet" in x.t.name)))
        return
    e.cover("written")
    e.prove("the text of a moment is its date, UTC or local, in the format", z3.And(ok, r == PUT(fmt, *k)))


def read(e):
    s, fmt = e.fresh("text", S), e.fresh("format", S)
    loc = e.fresh("local", z3.BoolSort())
    f = fn(e, "string_to_timestamp")
    six = [GET[k](s, fmt, z3.IntVal(0)) for k in SIX]
    loc7 = six + [z3.IntVal(-1)]
    ok = z3.If(loc, SECONDS_OK["LOCAL"](*loc7), SECONDS_OK["UTC"](*six))
    v = z3.If(loc, SECONDS["LOCAL"](*loc7), SECONDS["UTC"](*six))
    fits = z3.And(v >= FIRST, v <= LAST)
    ts = T("std::string")
    try:
        r = rvalue(run(e, f, [arg(e, ts, s, "text"), arg(e, ts, fmt, "format"), arg(e, T("bool"), loc, "local")], throws=True))
    except CppThrow as x:
        if "PreconditionNotMet" in x.t.name:
            e.cover("not in the format")
            e.prove("PreconditionNotMet only for a text that is not in the format", z3.Not(GET_OK(s, fmt)))
        else:
            e.cover("no moment")
            e.prove("ValueNotAllowedException only for a date that is no representable moment", z3.And(
                GET_OK(s, fmt), z3.Not(z3.And(ok, fits)), z3.BoolVal("ValueNotAllowedException" in x.t.name)))
        return
    e.cover("read")
    e.prove("a text is the moment of its date, UTC or local, and no other text is accepted", z3.And(
        GET_OK(s, fmt), ok, fits, tv(r) == G * v))


def inverse(e):
    """what was written is read back: over the contracts of both directions"""
    t = moment(e)
    fmt = e.fresh("format", S)
    w = whole(t)
    u = {f: DATE["UTC"][f](w) for f in FIELDS}
    s = PUT(fmt, *[u[f] for f in FIELDS])
    e.assume(DATE_OK["UTC"](w))
    # a format that has the six fields: reading gives them back
    e.assume(GET_OK(s, fmt))
    for f in SIX:
        e.assume(GET[f](s, fmt, z3.IntVal(0)) == u[f])
    six = [u[f] for f in SIX]
    e.assume(z3.And(SECONDS_OK["UTC"](*six), SECONDS["UTC"](*six) == w))
    f = fn(e, "string_to_timestamp")
    ts = T("std::string")
    r = rvalue(run(e, f, [arg(e, ts, s, "text"), arg(e, ts, fmt, "format"), arg(e, T("bool"), z3.BoolVal(False), "local")]))
    e.cover("read back")
    e.prove("reading what was written gives the moment, to the second", tv(r) == G * w)


def duration(e):
    d = e.fresh("ms", I)
    e.assume(z3.And(d >= 0, d < 2 ** 32))
    r = rvalue(run(e, fn(e, "duration_to_ms"), [arg(e, T("unsigned int"), d, "ms")]))
    e.cover("made")
    e.prove("a duration is that number of milliseconds", tv(r) == d * 10 ** 6)


def sleep(e):
    d = e.fresh("ms", I)
    e.assume(z3.And(d >= 0, d < 2 ** 32))
    run(e, fn(e, "sleep_for"), [arg(e, T("unsigned int"), d, "ms")])
    e.cover("slept")
    e.prove("the thread sleeps that number of milliseconds", e.path_state.get("slept", z3.IntVal(0)) == d * 10 ** 6)


def limit(name, last):
    def unit(e):
        r = rvalue(run(e, fn(e, name), []))
        e.cover("given")
        e.prove("%s is the %s moment that can be represented" % (name, "last" if last else "first"), tv(r) == (END if last else -2 ** 63))
    return unit


def current(e):
    r = rvalue(run(e, fn(e, "now"), []))
    e.cover("given")
    e.prove("now is the time of the clock", z3.Or(*[tv(r) == t for t in e.path_state.get("now", [])]) if e.path_state.get("now") else False)


UNITS = [Unit("date_to_timestamp", date, setup), Unit("time_to_timestamp", time, setup), Unit("timestamp_to_string", written, setup),
         Unit("string_to_timestamp", read, setup), Unit("reading what was written", inverse, setup), Unit("duration_to_ms", duration, setup),
         Unit("sleep_for", sleep, setup), Unit("the_end_of_time", limit("the_end_of_time", True), setup),
         Unit("the_beginning_of_time", limit("the_beginning_of_time", False), setup), Unit("now", current, setup)]
