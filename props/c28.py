"""C28: log entries: what is configured, what is accepted, who is told."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from vc.frontend import REPO
from vc.stdlib import NONE, MutexV, SharedV

PROGS = {"main": '''#include <functional>
#include <memory>
#include <cpp_utils/Formatter.hpp>
#include "%(r)s/cpp_utils/src/cpp/logging/BaseLogConfiguration.cpp"
#include "%(r)s/cpp_utils/src/cpp/logging/BaseLogConsumer.cpp"
#include "%(r)s/cpp_utils/src/cpp/logging/StdLogConsumer.cpp"
namespace eprosima { namespace utils {
BaseLogConfiguration* vp_conf() { return new BaseLogConfiguration(); }
StdLogConsumer* vp_std(const BaseLogConfiguration* c) { return new StdLogConsumer(c); }
} }
''' % {"r": REPO}, "events": '''#include <functional>
#include <memory>
#include <cpp_utils/Formatter.hpp>
#include "%(r)s/cpp_utils/src/cpp/event/logging/LogConsumerConnection.cpp"
#include "%(r)s/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp"
#include <algorithm>
#include "%(r)s/cpp_utils/src/cpp/testing/LogChecker.cpp"
namespace eprosima { namespace utils { namespace event {
LogEventHandler* vp_log() { return new LogEventHandler(); }
LogEventHandler* vp_log_of(std::function<void(Log::Entry)> c) { return new LogEventHandler(c); }
LogSevereEventHandler* vp_severe(std::function<void(Log::Entry)> c, Log::Kind t) { return new LogSevereEventHandler(c, t); }
testing::LogChecker* vp_checker(Log::Kind t, unsigned int expected, unsigned int max) { return new testing::LogChecker(t, expected, max); }
} } }
''' % {"r": REPO}}
CLANG_FLAGS = ["-I%s/cpp_utils/src/cpp" % REPO]
DRIVER = {"src": "c28.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-I%s/cpp_utils/src/cpp" % REPO],
          "repo": ["cpp_utils/src/cpp/" + x for x in ("logging/BaseLogConfiguration.cpp", "logging/BaseLogConsumer.cpp", "logging/StdLogConsumer.cpp",
                   "event/logging/LogConsumerConnection.cpp", "event/logging/LogEventHandler.cpp", "event/logging/LogSevereEventHandler.cpp", "testing/LogChecker.cpp",
                   "utils.cpp", "math/math_extension.cpp", "exception/Exception.cpp", "Formatter.cpp")]}
ASSUMPTIONS = ["the filters are valid regular expressions; std::regex_search(text, regex) depends on nothing else",
               "Fuzzy as proved for C12 (for every type of value)", "a configuration always has the filters of the three kinds, as its constructor makes them, and so have the filters it is given",
               "Fast DDS gives every entry it lets through to every consumer once, at any time from their registration on, in a thread of its own",
               "OwnerPtr, LesseePtr and GuardedPtr as proved for C11: reset waits for the guards; EventHandler as proved for C16",
               "a handler is not destroyed by its own callback"]
L = "eprosima::fastdds::dds::"
CONF, BASE, STDC = T(U + "BaseLogConfiguration"), T(U + "BaseLogConsumer"), T(U + "StdLogConsumer")
ENTRY = T(L + "Log::Entry")
I, B = z3.IntSort(), z3.BoolSort()
STR = z3.StringSort()
SEARCH = z3.Function("regex_search", STR, STR, B)
ERROR, WARNING, INFO = 0, 1, 2


class Fz:
    """a Fuzzy as its value and its level"""
    def __init__(self, e):
        self.e = e

    def sort(self, t):
        return self.e.sort_of(t)

    def value(self, f, t):
        return z3.Function("value_" + str(f.sort()), f.sort(), self.e.sort_of(t.args[0].noref()))(f)

    def level(self, f):
        return z3.Function("level_" + str(f.sort()), f.sort(), I)(f)

    def make(self, t, v, l):
        e = self.e
        s = self.sort(t)
        f = e.fresh("fuzzy", s)
        e.assume(z3.And(self.value(f, t) == v, self.level(f) == l))
        return f


def fz(e):
    return [x for x in e.lib.ext if isinstance(x, Logs)][0].fz


def isfuzzy(t):
    return t is not None and t.noref().name == U + "Fuzzy"


class RegV:
    def __init__(self, pat):
        self.pat = pat


class Logs:
    def __init__(self, e):
        self.e, self.fz = e, Fz(e)

    # ---- the fields of an entry
    def entry(self, name, sort, v):
        return z3.Function("entry_" + name, v.sort(), sort)(v)

    def member(self, base, o, n):
        e = self.e
        if isinstance(o, z3.ExprRef):
            t = typeof(n).noref()
            if n["name"] == "kind":
                k = self.entry("kind", I, o)
                e.assume(z3.And(k >= 0, k <= 2))
                return TempLV(k, t)
            if n["name"] in ("message", "timestamp", "category", "context"):
                s = STR if n["name"] != "context" else e.sort_of(t)
                return TempLV(self.entry(n["name"], s, o), t)

    def construct(self, t, inner, n):
        if t.name in ("std::regex", "std::basic_regex", "std::__cxx11::basic_regex") and len(inner) >= 1:
            v = rvalue(self.e.rv(inner[0]))
            if isinstance(v, RegV):
                return v
            if isinstance(v, z3.SeqRef) and all(i.get("kind") == "CXXDefaultArgExpr" for i in inner[1:]):
                return RegV(v)

    def opaque_construct(self, t, inner, n):
        e = self.e
        if isfuzzy(t):
            a = [rvalue(e.rv(i)) for i in inner if i.get("kind")]
            if len(a) == 1 and isinstance(a[0], z3.ExprRef) and a[0].sort() == e.sort_of(t):
                return a[0]
            if not a:
                return self.default(t, "fuzzy")
            if len(a) == 2:
                return self.fz.make(t, a[0], a[1])
    opaque_make = opaque_construct

    def default(self, t, name):
        e = self.e
        if isfuzzy(t):
            f = e.fresh(name, e.sort_of(t))
            e.assume(self.fz.level(f) == 0)
            if t.args[0].noref().name == "std::string":
                e.assume(self.fz.value(f, t) == sv(""))
            return f

    def method(self, base, o, name, argn, n, bt):
        e, z = self.e, self.fz
        if name == "flush" and isinstance(o, Opaque):
            return base
        if not isfuzzy(bt):
            return None
        t = bt.noref()
        if name in ("get_value",) or name.startswith("operator "):
            return z.value(o, t)
        if name == "get_level":
            return z.level(o)
        if name == "get_reference" and (t.const or base.t.const):
            return TempLV(z.value(o, t), t.args[0])
        if name in ("set_value", "set_level"):
            a = [rvalue(e.rv(x)) for x in argn]
            base.set(z.make(t, a[0], a[1]) if name == "set_value" else z.make(t, z.value(o, t), a[0]))
            return NONE

    def call_free(self, name, args, n, argn):
        if name == "regex_search" and len(args) == 2:
            s, r = rvalue(args[0]), rvalue(args[1])
            if isinstance(r, RegV) and isinstance(s, z3.SeqRef):
                return SEARCH(s, r.pat)


def setup(e):
    e.opaque_types |= {U + "Fuzzy", ENTRY.name, L + "Log::Context"}
    x = Logs(e)
    e.lib.ext.append(x)

    def prints(name):
        def f(e, d, this, args, node):
            e.path_state["printed"].append((name, stream_of(args[0]), rvalue(args[1]) if len(args) > 2 else None))
        return f
    for nm in ("timestamp", "header", "message", "context", "new_line"):
        e.contracts[L + "LogConsumer::print_" + nm] = Contract(prints("print_" + nm))


def conf(e):
    o = e.sym_obj(e.prog.record(CONF), "conf")
    m = [c for c in o.byname.values() if c.t.noref().name in ("std::map", "std::unordered_map")]
    v = [c for c in o.byname.values() if isfuzzy(c.t)]
    if len(m) != 1 or len(v) != 1:
        raise Unsupported("fields of the configuration")
    for k in (ERROR, WARNING, INFO):
        e.assume(m[0].v.has(z3.IntVal(k)))
    return o, v[0], m[0]


def same_map(a, b):
    return z3.And(a.dom == b.dom, a.val == b.val)


def set_verbosity(e):
    o, v, m = conf(e)
    f = method(e, e.prog.record(CONF), "set", 1, lambda d: not any(x in qualtype(params_of(d)[0]) for x in ("map", "LogFilter")))
    new = e.sym(v.t, "new")
    old, om = v.v, m.v
    run(e, f, [arg(e, typeof(params_of(f)[0]), new, "new")], this=o)
    e.cover("set")
    z = fz(e)
    e.prove("replaced exactly when its level is not above that of the new one", z3.If(z.level(old) <= z.level(new), v.v == new, v.v == old))
    e.prove("the filters stay", same_map(m.v, om))


def set_filter(e):
    o, v, m = conf(e)
    f = method(e, e.prog.record(CONF), "set", 1, lambda d: any(x in qualtype(params_of(d)[0]) for x in ("map", "LogFilter")))
    new = e.sym(m.t, "new")
    for k in (ERROR, WARNING, INFO):
        e.assume(new.has(z3.IntVal(k)))
    ov, om = v.v, m.v
    run(e, f, [arg(e, typeof(params_of(f)[0]), new, "new")], this=o)
    e.cover("set")
    z = fz(e)
    for nm, k in (("Error", ERROR), ("Warning", WARNING), ("Info", INFO)):
        k = z3.IntVal(k)
        a, b = om.select(k), new.select(k)
        e.prove("the filter of %s is replaced exactly when its level is not above that of the new one" % nm,
                m.v.select(k) == z3.If(z.level(a) <= z.level(b), b, a))
    e.prove("no other filter appears", m.v.dom == om.dom)
    e.prove("the verbosity stays", v.v == ov)


def default(e):
    o = rvalue(run(e, fn(e, "vp_conf"), [])).target
    o = o.v if isinstance(o, Cell) else o
    m = [c for c in o.byname.values() if c.t.noref().name in ("std::map", "std::unordered_map")][0]
    v = [c for c in o.byname.values() if isfuzzy(c.t)][0]
    e.cover("made")
    z = fz(e)
    e.prove("verbosity Warning, that anything replaces", z3.And(z.value(v.v, v.t) == WARNING, z.level(v.v) == 0))
    for k in (ERROR, WARNING, INFO):
        k = z3.IntVal(k)
        e.prove("a filter that accepts everything and that anything replaces for kind %s" % k, z3.And(
            m.v.has(k), z.value(m.v.select(k), m.t.args[1]) == sv(""), z.level(m.v.select(k)) == 0))


def consumer(e, t):
    o = e.sym_obj(e.prog.record(t), "consumer")
    m = [c for c in o.byname.values() if c.t.noref().name in ("std::map", "std::unordered_map")]
    v = [c for c in o.byname.values() if e.isint(c.t.noref()) or c.t.noref().name.endswith("Kind")]
    if len(m) != 1 or len(v) != 1:
        raise Unsupported("fields of the consumer")
    for k in (ERROR, WARNING, INFO):
        e.assume(m[0].v.has(z3.IntVal(k)))
    e.assume(z3.And(v[0].v >= 0, v[0].v <= 2))
    return o, v[0], m[0]


def accepted(e, en, v, m, mt):
    x = [x for x in e.lib.ext if isinstance(x, Logs)][0]
    k = x.entry("kind", I, en)
    pat = fz(e).value(m.select(k), mt.args[1])
    ctx = x.entry("context", e.sort_of(T(L + "Log::Context")), en)
    return z3.And(k <= v, z3.Or(SEARCH(x.entry("message", STR, en), pat), SEARCH(x.entry("category", STR, ctx), pat)))


def accept(e):
    o, v, m = consumer(e, STDC)
    om, ov = m.v, v.v
    en = e.sym(ENTRY, "entry")
    k = [x for x in e.lib.ext if isinstance(x, Logs)][0].entry("kind", I, en)
    e.assume(z3.And(k >= 0, k <= 2))
    f = method(e, e.prog.record(BASE), "accept_entry_", 1)
    r = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), en, "entry")], this=o))
    e.cover("answered")
    e.prove("accepted exactly when it is severe enough and its category or its message match the filter of its kind", r == accepted(e, en, ov, om, m.t))
    e.prove("the configuration stays", z3.And(same_map(m.v, om), v.v == ov))


def made(e):
    o, v, m = conf(e)
    ov, om = v.v, m.v
    p = rvalue(run(e, fn(e, "vp_std"), [arg(e, parse_type("const %s *" % CONF.name), Ptr(o, z3.BoolVal(False)), "conf")]))
    t = p.target.v if isinstance(p.target, Cell) else p.target
    e.cover("made")
    mm = [c for c in t.byname.values() if c.t.noref().name in ("std::map", "std::unordered_map")]
    vv = [c for c in t.byname.values() if e.isint(c.t.noref()) or c.t.noref().name.endswith("Kind")]
    e.prove("the consumer has the filters of the configuration", same_map(mm[0].v, om) if len(mm) == 1 else False)
    e.prove("the consumer has the verbosity of the configuration", vv[0].v == fz(e).value(ov, v.t) if len(vv) == 1 else False)
    e.prove("the configuration stays", z3.And(same_map(m.v, om), v.v == ov))


def stream_of(lv):
    v = lv.get() if isinstance(lv, LV) else lv
    return getattr(v, "label", None)


def printing(e):
    """what is printed, where"""
    out = e.path_state["printed"] = []
    return out


def consume(e):
    o, v, m = consumer(e, STDC)
    om, ov = m.v, v.v
    out = printing(e)
    en = e.sym(ENTRY, "entry")
    k = [x for x in e.lib.ext if isinstance(x, Logs)][0].entry("kind", I, en)
    e.assume(z3.And(k >= 0, k <= 2))
    f = method(e, e.prog.record(STDC), "Consume", 1)
    run(e, f, [arg(e, typeof(params_of(f)[0]), en, "entry")], this=o)
    e.cover("consumed")
    acc = accepted(e, en, ov, om, m.t)
    names = [x[0] for x in out]
    e.prove("an entry that is not accepted is not printed", z3.Or(acc, z3.BoolVal(not out)))
    e.prove("an entry that is accepted is printed once: its message and context, then the end of the line", z3.Or(z3.Not(acc), z3.BoolVal(
        names.count("print_message") == 1 and names.count("print_context") == 1 and names.count("print_header") == 1
        and names.count("print_timestamp") == 1 and names.count("print_new_line") == 1 and names[-1] == "print_new_line")))
    for nm, st, x in out:
        e.prove("it is that entry that is printed", z3.BoolVal(True) if x is None else x == en)
        e.prove("Info goes to the standard output, the others to the error output", z3.BoolVal(st == "cout") == (k == INFO) if st in ("cout", "cerr") else False)
    if out:
        e.cover("printed")


# ---------------------------------------------------------------- who is told

W = U + "event::"


class OwnV:
    """an owner of the function that the connection calls"""
    def __init__(self, f):
        self.f = f


class LesV:
    def __init__(self, own):
        self.own = own


class GrdV:
    def __init__(self, own, valid):
        self.own, self.valid = own, valid


class AtomV:
    """the entries, with their lock"""
    locked = True

    def __init__(self, e, label):
        self.label = label


class Told:
    """set_callback, unset_callback and the owner of the function, as they happen"""
    def __init__(self, e, o=None):
        self.e, self.o = e, o
        e.path_state["mon"] = self
        self.events, self.regs, self.guards, self.calls, self.kept = [], [], [], [], []
        self.held = 0
        self.released = False
        self.cb = None
        self.sets = []
        self.unsets = 0
        for a in ("condvar", "read", "write", "atomic"):
            setattr(self, a, lambda *x: None)

    def acquire(self, m, shared, n):
        if isinstance(m, AtomV):
            self.e.prove("the entries are not locked twice", z3.BoolVal(not self.held), n, "lock")
            self.held = 1

    def release(self, m, shared, n):
        if isinstance(m, AtomV):
            self.e.prove("the entries are unlocked by who locked them", z3.BoolVal(bool(self.held)), n, "lock")
            self.held = 0


class Pointers:
    def __init__(self, e):
        self.e, self.k = e, 0

    def mon(self):
        return self.e.path_state["mon"]

    def kind(self, t):
        t = t.noref()
        if not t.ptr and t.name.startswith(U):
            k = t.name[len(U):]
            if k in ("OwnerPtr", "LesseePtr", "GuardedPtr"):
                return k
            if k == "Atomicable" and t.args and t.args[0].name == "std::vector":
                return k

    def reset(self):
        self.k = 0

    def new(self, t, name):
        k = self.kind(t)
        if k == "OwnerPtr":
            return OwnV(FnV("opaque", name="told"))
        if k == "LesseePtr":
            return LesV(OwnV(FnV("opaque", name="told")))
        if k == "Atomicable":
            self.k += 1
            return AtomV(self.e, "entries%d" % self.k)
    sym = new

    def default(self, t, label):
        if self.kind(t) == "Atomicable":
            return self.new(t, label)

    def construct(self, t, inner, n):
        k = self.kind(t)
        if not k:
            return None
        args = [rvalue(a) for a in self.e.args_of([c for c in inner if c.get("kind") != "CXXDefaultArgExpr"])]
        if not args:
            return self.default(t, "")
        if k == "OwnerPtr" and isinstance(args[0], Ptr) and len(args) == 1:
            f = args[0].target
            return OwnV(rvalue(f))
        if isinstance(args[0], (LesV, GrdV)):
            return args[0]
    opaque_construct = construct

    def copy(self, v, move):
        if isinstance(v, (LesV, GrdV, OwnV)):
            return v

    def needs_dtor(self, v):
        return isinstance(v, (OwnV, GrdV)) or None

    def destroy(self, v):
        if isinstance(v, OwnV):
            self.mon().released = True
            return NONE
        if isinstance(v, GrdV):
            if v in self.mon().guards:
                self.mon().guards.remove(v)
            return NONE

    def truth(self, v):
        if isinstance(v, GrdV):
            return v.valid

    def method(self, base, o, name, argn, n, bt):
        e, m = self.e, self.mon()
        if isinstance(o, OwnV):
            if name == "reset" and not argn:
                m.released = True
                return NONE
            if name == "lease":
                return LesV(o)
        if isinstance(o, LesV) and name == "lock":
            g = GrdV(o.own, e.fresh("alive", B))
            m.guards.append(g)
            return g
        if isinstance(o, GrdV):
            if name == "operator bool":
                return o.valid
            if name in ("get", "operator->"):
                return Ptr(Cell(e, T("std::function"), o.own.f, "told", name="told"), z3.Not(o.valid))
            if name == "operator*":
                return self.operator("operator*", [base], n)
        if isinstance(o, AtomV):
            if name in ("lock", "unlock"):
                (e.lib.acquire if name == "lock" else e.lib.release)(o, False, n)
                return NONE
            e.prove("the entries are used only while they are locked", z3.BoolVal(bool(m.held)), n, "lock")
            if name in ("push_back", "emplace_back") and len(argn) == 1:
                m.kept.append(rvalue(e.ev(argn[0])))
                return NONE

    def operator(self, name, args, n):
        e = self.e
        o = rvalue(args[0]) if args else None
        if isinstance(o, GrdV):
            p = Ptr(Cell(e, T("std::function"), o.own.f, "told", name="told"), z3.Not(o.valid))
            if name == "operator->":
                return p
            if name == "operator*":
                return e.deref(p, n)
            if name == "operator bool":
                return o.valid
            if name in ("operator==", "operator!="):
                return z3.Not(o.valid) if name == "operator==" else o.valid


def esetup(e):
    monitor.hooks(e)
    e.opaque_types |= {ENTRY.name, L + "Log::Context"} | {U + x for x in ("OwnerPtr", "LesseePtr", "GuardedPtr", "Atomicable")}
    x = Logs(e)
    e.lib.ext += [x, Pointers(e)]

    def mon():
        return e.path_state["mon"]

    def set_callback(e, d, this, args, node):
        m = mon()
        m.sets.append((whole(this), rvalue(args[0])))
        m.cb = rvalue(args[0])
        th = threshold_of(whole(this))
        if th is not None:
            e.prove("the callback is set once the threshold is there", th.v == e.path_state["threshold"] if th.v is not None else False, node)

    def unset(e, d, this, args, node):
        mon().unsets += 1
        mon().cb = None

    def event(e, d, this, args, node):
        mon().events.append((whole(this), rvalue(args[0])))

    def register(e, d, this, args, node):
        mon().regs.append(rvalue(args[0]))

    def getv(e, d, this, args, node):
        return e.path_state.setdefault("verbosity", verbosity(e))

    def setv(e, d, this, args, node):
        getv(e, d, this, args, node)
        e.path_state["verbosity"] = rvalue(args[0])
    for nm, f in (("set_callback", set_callback), ("unset_callback", unset), ("event_occurred_", event), ("simulate_event_occurred", event)):
        e.contracts[W + "EventHandler::" + nm] = Contract(f)
    for nm, f in (("RegisterConsumer", register), ("GetVerbosity", getv), ("SetVerbosity", setv)):
        e.contracts[L + "Log::" + nm] = Contract(f)

    def call(f, args, n):
        m = mon()
        e.prove("the function is called while its owner cannot go", z3.Or(*[g.valid for g in m.guards if g.own.f is f]), n)
        m.calls.append((f, rvalue(args[0])))
    e.opaque_call = call


def verbosity(e):
    v = e.fresh("verbosity", I)
    e.assume(z3.And(v >= 0, v <= 2))
    e.path_state["first verbosity"] = v
    return v


def whole(x):
    if isinstance(x, Ptr):
        x = x.target
    return x if isinstance(x, Obj) else rvalue(x)


def threshold_of(o):
    c = [c for k, c in o.byname.items() if c.t.noref().name.endswith("Log::Kind")]
    return c[0] if len(c) == 1 else None


def entry(e):
    en = e.sym(ENTRY, "entry")
    k = z3.Function("entry_kind", en.sort(), I)(en)
    e.assume(z3.And(k >= 0, k <= 2))
    return en, k


def connection(e):
    o = e.sym_obj(e.prog.record(T(W + "LogConsumerConnection")), "connection")
    m = Told(e, o)
    en, k = entry(e)
    f = method(e, o.rec, "Consume", 1)
    run(e, f, [arg(e, typeof(params_of(f)[0]), en, "entry")], this=o)
    e.cover("consumed")
    e.prove("no guard is left", z3.BoolVal(not m.guards))
    e.prove("the function is called at most once, with the entry", z3.And(z3.BoolVal(len(m.calls) <= 1), *[x == en for f, x in m.calls]))
    e.path_state["asked"] = True
    if m.calls:
        e.cover("told")


def connection_told(e):
    """the function is called whenever the guard says it is there"""
    o = e.sym_obj(e.prog.record(T(W + "LogConsumerConnection")), "connection")
    m = Told(e, o)
    seen = []
    old = m.guards
    en, k = entry(e)

    class L2(list):
        def append(self, g):
            seen.append(g)
            list.append(self, g)
    m.guards = L2()
    f = method(e, o.rec, "Consume", 1)
    run(e, f, [arg(e, typeof(params_of(f)[0]), en, "entry")], this=o)
    e.cover("consumed")
    e.prove("the function is called exactly when its owner is there", z3.And(
        z3.BoolVal(bool(seen)), seen[-1].valid == z3.BoolVal(len(m.calls) == 1)) if seen else False)


def follow(e, m, o):
    """what the registered consumer leads to"""
    e.prove("one consumer is registered in the Log", z3.BoolVal(len(m.regs) == 1))
    if len(m.regs) != 1:
        raise PathEnd()
    r = m.regs[0]
    t = r.target if isinstance(r, (SharedV, Ptr)) else r
    t = t.v if isinstance(t, Cell) else t
    own = [c.v for c in o.byname.values() if isinstance(c.v, OwnV)]
    les = [c.v for c in t.byname.values() if isinstance(c.v, LesV)] if isinstance(t, Obj) else []
    e.prove("it has a lessee of the function of the handler", z3.BoolVal(len(own) == len(les) == 1 and les[0].own is own[0]))
    if not (len(own) == len(les) == 1):
        raise PathEnd()
    got = []
    e.contracts[W + "LogEventHandler::consume_"] = Contract(lambda e, d, this, args, node: got.append((whole(this), rvalue(args[0]))))
    en, k = entry(e)
    e.invoke(own[0].f, [en], None)
    th = threshold_of(o)
    want = z3.BoolVal(len(got) == 1 and got[0][0] is o)
    if th is None:
        e.prove("the function gives the entry to the handler", z3.And(want, got[0][1] == en) if got else False)
    else:
        e.prove("the function gives the entry to the handler if it is severe", z3.If(k <= th.v, z3.And(want, got[0][1] == en) if got else False, not got))
    e.prove("the owner is not released", z3.BoolVal(not m.released))


def made_handler(which):
    def unit(e):
        m = Told(e)
        args = []
        cb = FnV("opaque", name="user")
        e.path_state["threshold"] = None
        if which != "log":
            args.append(arg(e, T("std::function"), cb, "callback"))
        if which == "severe":
            th = e.fresh("threshold", I)
            e.assume(z3.And(th >= 0, th <= 2))
            e.path_state["threshold"] = th
            args.append(arg(e, T(L + "Log::Kind"), th, "threshold"))
            verb = e.path_state["verbosity"] = verbosity(e)
        o = whole(rvalue(run(e, fn(e, W + "vp_" + which), args)))
        e.cover("made")
        if which == "log":
            e.prove("no callback is set", z3.BoolVal(not m.sets))
        else:
            e.prove("the callback is set, once", z3.BoolVal(len(m.sets) == 1 and m.sets[0][0] is o and isinstance(m.cb, FnV) and m.cb.name == "user"))
        if which == "severe":
            c = threshold_of(o)
            e.prove("the threshold is the one asked for", c.v == th if c is not None and c.v is not None else False)
            e.prove("the Log lets through what is asked for, and all it let through before",
                    e.path_state["verbosity"] == z3.If(th > verb, th, verb))
        e.prove("no entry is there", z3.BoolVal(not m.events))
        follow(e, m, o)
    return unit


def told(cls):
    def unit(e):
        o = e.sym_obj(e.prog.record(T(W + cls)), "handler")
        m = Told(e, o)
        en, k = entry(e)
        f = method(e, o.rec, "consume_", 1)
        run(e, f, [arg(e, typeof(params_of(f)[0]), en, "entry")], this=o)
        e.cover("consumed")
        ok = z3.BoolVal(True)
        if cls != "LogEventHandler":
            th = threshold_of(o)
            if th is None:
                raise Unsupported("the threshold")
            e.assume(z3.And(th.v >= 0, th.v <= 2))
            ok = k <= th.v
        one = z3.And(z3.BoolVal(len(m.events) == 1 and m.events[0][0] is o), m.events[0][1] == en) if m.events else z3.BoolVal(False)
        e.prove("the event occurs once, with the entry, if it is severe enough", z3.If(ok, one, z3.BoolVal(not m.events)))
        e.prove("what is kept is the entry", z3.And(z3.BoolVal(len(m.kept) <= 1), *[z3.And(ok, x == en) for x in m.kept]))
        e.prove("the entries are left unlocked", z3.BoolVal(not m.held))
        if m.events:
            e.cover("told")
    return unit


def body(e, o):
    """run the body of the destructor of the class"""
    d = [c for c in o.rec["inner"] if c.get("kind") == "CXXDestructorDecl"]
    f = e.prog.definition(d[0]["id"]) if d and not d[0].get("isImplicit") and not d[0].get("explicitlyDefaulted") else None
    if f is not None:
        run(e, f, [], this=o)
    return f


def gone(cls):
    def unit(e):
        o = e.sym_obj(e.prog.record(T(W + cls)), "handler")
        m = Told(e, o)
        m.cb = FnV("opaque", name="user")
        body(e, o)
        e.cover("destroyed")
        if cls == "LogEventHandler":
            order = [c for c in o.byname.values() if isinstance(c.v, (OwnV, AtomV))]
            last = bool(order) and isinstance(order[-1].v, OwnV)
            e.prove("no entry arrives any more when the members of the handler are destroyed", z3.BoolVal(m.released or last))
        e.prove("the callback is unset: nobody is told when the handler is not whole any more", z3.BoolVal(m.unsets >= 1))
        e.prove("nobody is told", z3.BoolVal(not m.events))
    return unit


def checker_made(e):
    m = Told(e)
    th, lo, hi = e.fresh("threshold", I), e.fresh("expected", I), e.fresh("max", I)
    e.assume(z3.And(th >= 0, th <= 2, lo >= 0, lo < 2**32, hi >= 0, hi < 2**32))
    e.path_state["threshold"] = th
    verb = e.path_state["verbosity"] = verbosity(e)
    o = whole(rvalue(run(e, fn(e, W + "vp_checker"), [arg(e, T(L + "Log::Kind"), th, "threshold"), arg(e, UINT, lo, "expected"), arg(e, UINT, hi, "max")])))
    e.cover("made")
    inner = [c.v for c in o.byname.values() if isinstance(c.v, Obj)]
    lim = [c for c in o.byname.values() if e.isint(c.t.noref())]
    if len(inner) != 1 or len(lim) != 2:
        raise Unsupported("fields of the checker")
    c = threshold_of(inner[0])
    e.prove("it counts the entries as severe as the threshold", z3.And(z3.BoolVal(len(m.sets) == 1 and m.sets[0][0] is inner[0]), c.v == th) if c is not None else False)
    e.prove("the Log lets them through", e.path_state["verbosity"] == z3.If(th > verb, th, verb))
    # as many as expected, at most the maximum (which is never below)
    e.path_state["flushed"] = 1
    run_valid(e, o, lo, z3.If(hi < lo, lo, hi))


def run_valid(e, o, lo, hi):
    counts = e.path_state["counts"] = []

    def count(e, d, this, args, node):
        v = e.fresh("count", I)
        e.assume(z3.And(v >= 0, v < 2**32))
        e.prove("the entries queued are flushed before they are counted", z3.BoolVal(bool(e.path_state.get("flushed_now"))), node)
        if counts:
            e.assume(v >= counts[-1])       # entries may arrive meanwhile
        counts.append(v)
        return v
    e.contracts[W + "EventHandler::event_count"] = Contract(count)

    def flush(e, d, this, args, node):
        e.path_state["flushed_now"] = True
    e.contracts[L + "Log::Flush"] = Contract(flush)
    f = method(e, o.rec, "check_valid", 0)
    r = rvalue(run(e, f, [], this=o))
    e.cover("checked")
    ok = [z3.And(lo <= c, c <= hi) for c in counts]
    e.prove("valid: at some moment the entries that arrived were between the limits", z3.Implies(r, z3.Or(*ok)))
    e.prove("not valid: at some moment they were not", z3.Implies(z3.Not(r), z3.Or(*[z3.Not(x) for x in ok])))


UNITS = [Unit("set verbosity", set_verbosity, setup), Unit("set filter", set_filter, setup), Unit("default configuration", default, setup),
         Unit("accept_entry_", accept, setup), Unit("construction of a consumer", made, setup), Unit("Consume", consume, setup),
         Unit("LogConsumerConnection::Consume", connection, esetup, prog="events"),
         Unit("LogConsumerConnection::Consume while the owner lives", connection_told, esetup, prog="events"),
         Unit("construction of a handler", made_handler("log"), esetup, prog="events"),
         Unit("construction of a handler with a callback", made_handler("log_of"), esetup, prog="events"),
         Unit("construction of a severe handler", made_handler("severe"), esetup, prog="events"),
         Unit("LogChecker", checker_made, esetup, prog="events"),
         Unit("consume_", told("LogEventHandler"), esetup, prog="events"),
         Unit("consume_ of a severe handler", told("LogSevereEventHandler"), esetup, prog="events"),
         Unit("destruction of a handler", gone("LogEventHandler"), esetup, prog="events"),
         Unit("destruction of a severe handler", gone("LogSevereEventHandler"), esetup, prog="events")]
