"""C18: singletons."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from vc.stdlib import MutexV, SharedV

PROGS = {"main": '''#include <memory>
#include <mutex>
#include <utility>
#include <cpp_utils/types/Singleton.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
namespace eprosima { namespace vp { struct Data { int x; int y; Data() : x(-1), y(-1) {} Data(int a, int b) : x(a), y(b) {} }; }
namespace utils {
#define D eprosima::vp::Data
template class Singleton<D, 1>;
template class Singleton<D, 2>;
template class InitializableSingleton<D, 1>;
template class InitializableSingleton<D, 2>;
template class SafeInitializableSingleton<D, 1>;
template class SafeInitializableSingleton<D, 2>;
bool vp_init0_1() { return InitializableSingleton<D, 1>::initialize(); }
bool vp_init2_1(int a, int b) { return InitializableSingleton<D, 1>::initialize(a, b); }
bool vp_init0_2() { return InitializableSingleton<D, 2>::initialize(); }
bool vp_sinit0_1() { return SafeInitializableSingleton<D, 1>::initialize(); }
bool vp_sinit2_1(int a, int b) { return SafeInitializableSingleton<D, 1>::initialize(a, b); }
bool vp_sinit0_2() { return SafeInitializableSingleton<D, 2>::initialize(); }
} }
'''}
DRIVER = {"src": "c18.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"], "repo": []}
ASSUMPTIONS = ["std::shared_ptr keeps its object until the last copy is gone; a static local variable is initialized once, by one thread",
               "the constructor of the object does not throw and does not use its own singleton",
               "InitializableSingleton is initialized by one thread at a time (documented)"]
D = T("eprosima::vp::Data")
NAMES = ("Singleton", "InitializableSingleton", "SafeInitializableSingleton")


def cls(e, name, i):
    c = [r for r in e.prog.records.values() if r["_T"].name == U + name and [a.name for a in r["_T"].args] == [D.name, str(i)]] \
        if hasattr(e.prog, "records") else []
    return c[0] if c else e.prog.record(parse_type("%s%s<%s, %d>" % (U, name, D.name, i)))


class State(Monitor):
    """the static members of the classes, and what is constructed"""
    def __init__(self, e, started):
        self.started = started          # class key -> z3 bool: whether there is an instance already
        self.cells, self.made, self.old, self.ready = {}, [], {}, []
        super().__init__(e, {})

    def key(self, d):
        while d is not None:
            q = d.get("_rec")
            if q is not None:
                return q["_T"].key()
            d = self.e.prog.decls.get(d.get("previousDecl"))        # defined out of the class

    def local(self, d):
        """a static variable of a function: not initialized yet (then its initialization runs), or already"""
        k = d["id"]
        if k in self.cells:
            return self.cells[k]
        if self.e.branch(self.started(k)):
            c = Cell(self.e, typeof(d).noref(), SharedV("shared", self.instance(k), z3.BoolVal(False)), "static/" + k, name=d["name"])
            self.cells[k] = c
            self.ready.append(c)
            return c

    def instance(self, k):
        """the instance that exists already"""
        if k not in self.old:
            e = self.e
            rec = e.prog.record(D)
            o = e.sym_obj(rec, "instance_of_" + str(len(self.old)))
            self.old[k] = Cell(e, D, o, "instance/%d" % len(self.old), name="instance")
        return self.old[k]

    def glob(self, d):
        """a static member"""
        e, k, t = self.e, self.key(d), typeof(d).noref()
        if k is None:
            return None
        c = self.cells.get(d["name"] + k)
        if c is not None:
            return c
        if t.name == "std::shared_ptr":
            null = z3.Not(self.started(k))
            v = SharedV("shared", self.instance(k), null)
        elif "mutex" in t.name:
            v = e.default_value(t, "static_mutex")
            v.label = "mutex/" + k
        else:
            return None
        c = Cell(e, t, v, "static/%s/%s" % (k, d["name"]), name=d["name"])
        self.cells[d["name"] + k] = c
        if "SafeInit" in k:
            ptr = [x for n, x in self.cells.items() if n.endswith(k) and isinstance(x.v, SharedV)]
            mx = [x for n, x in self.cells.items() if n.endswith(k) and isinstance(x.v, MutexV)]
            if len(ptr) == 1 and len(mx) == 1:
                l = Lock(ptr)
                l.ptr, l.k = ptr[0], k
                self.locks[mx[0].v.label] = l
                self.guard[ptr[0].label] = (mx[0].v.label, ptr[0])
        return c

    def havoc(self, l):
        """others may have created the instance; once there it stays"""
        e, v = self.e, l.ptr.v
        self.quiet = True
        if e.branch(v.null):
            if e.branch(e.fresh("created_by_others", z3.BoolSort())):
                l.ptr.set(SharedV("shared", self.instance(l.k), z3.BoolVal(False)))
            else:
                l.ptr.set(SharedV("shared", v.target, z3.BoolVal(True)))
        self.quiet = False

    def end(self, l, n):
        super().end(l, n)
        a, b = l.ptr.label, self.sections[-1]
        x, y = b.pre[a], b.post[a]
        self.e.prove("an instance, once there, is never replaced nor dropped", z3.Or(x.null, same(x, y)), n)


def target(v):
    t = v.target
    return t


def same(x, y):
    return z3.And(z3.Not(x.null), z3.Not(y.null), z3.BoolVal(target(x) is target(y)))


def setup(e):
    monitor.hooks(e)

    def mon():
        return e.path_state.get("mon")

    def glob(d):
        return mon().glob(d) if mon() is not None else None
    e.hooks["global"] = glob

    def new(t, inner, n):
        if mon() is not None and t.noref().name == D.name:
            m = mon()
            m.made.append(t)
            for l in m.locks.values():
                if l.k == m.about:
                    e.prove("an instance is made while the lock is held", z3.BoolVal(bool(l.ex)), n, "lock")
                    if l.ex:
                        e.prove("an instance is made only when there is none", l.ptr.v.null, n)
    e.hooks["new"] = new

    def static(d):
        m = mon()
        if m is None or typeof(d).noref().name != "std::shared_ptr":
            return None
        return m.local(d)
    e.hooks["static"] = static


def start(e, name, i, **started):
    """all the singletons, each with or without an instance"""
    flags = {}

    def there(k):
        if k not in flags:
            flags[k] = e.fresh("there", z3.BoolSort())
        return flags[k]
    m = State(e, there)
    rec = cls(e, name, i)
    m.about = rec["_T"].key()
    for n in NAMES[1:]:
        for j in (1, 2):
            r = cls(e, n, j)
            for d in r["inner"]:
                if d.get("kind") == "VarDecl":
                    m.glob(d)
    return m, rec


def pointer(m, rec):
    p = [c for n, c in m.cells.items() if n.endswith(rec["_T"].key()) and isinstance(c.v, SharedV)]
    if len(p) != 1:
        raise Unsupported("not one static pointer")
    return p[0]


def others_same(e, m, rec, before):
    for n, c in m.cells.items():
        if isinstance(c.v, SharedV) and not n.endswith(rec["_T"].key()):
            b = before[n]
            e.prove("the other singletons are left as they are", z3.Or(z3.And(b.null, c.v.null), same(b, c.v)))


def snapshot(m):
    return {n: c.v for n, c in m.cells.items() if isinstance(c.v, SharedV)}


def holds(e, m, v, args):
    """the object made: from these arguments"""
    t = v.target
    o = t.v if isinstance(t, Cell) else t
    xs = [c for c in o.byname.values() if e.isint(c.t)]
    return z3.And(*[c.v == a for c, a in zip(xs, args)])


def got(v, null, target):
    """the pointer given to the caller is this"""
    if isinstance(v, Ptr):
        t = v.target
        ok = t is target or (isinstance(target, Cell) and t is target.v) or (isinstance(t, Cell) and t.v is getattr(target, "v", None))
        return z3.If(null, v.null if z3.is_expr(v.null) else z3.BoolVal(bool(v.null)), z3.And(z3.Not(v.null), z3.BoolVal(bool(ok))))
    if isinstance(v, SharedV):
        return z3.If(null, v.null, z3.And(z3.Not(v.null), z3.BoolVal(v.target is target)))
    raise Unsupported("%r" % (v,))


# ---------------------------------------------------------------- Singleton

def same_object(a, b):
    ta, tb = a.target, b.target
    return ta is tb or getattr(ta, "v", 0) is tb or getattr(tb, "v", 0) is ta or (
        isinstance(ta, Cell) and isinstance(tb, Cell) and ta.v is tb.v)


def given(v):
    v = rvalue(v)
    if not isinstance(v, (Ptr, SharedV)):
        raise Unsupported("%r" % (v,))
    return v


def ever(e, name1, name2):
    """the calls of a singleton, from before the first one or from any later moment"""
    m, rec = start(e, "Singleton", 1)
    a = given(run(e, method(e, rec, name1, 0), []))
    e.prove("there is always an instance", z3.Not(a.null))
    if m.ready:
        e.cover("later")
        e.prove("a later call makes nothing", z3.BoolVal(not m.made))
        e.prove("a later call gives the instance that was there", z3.BoolVal(same_object(a, m.ready[0].v)))
    else:
        e.cover("first")
        e.prove("the first call makes one instance", z3.BoolVal(len(m.made) == 1))
        e.prove("the instance is made without arguments", holds(e, m, a, [z3.IntVal(-1)] * 2))
    made = len(m.made)
    b = given(run(e, method(e, rec, name2, 0), []))
    e.prove("the next call makes nothing", z3.BoolVal(len(m.made) == made))
    e.prove("the next call gives the same instance", z3.And(z3.Not(b.null), z3.BoolVal(same_object(a, b))))
    c = given(run(e, method(e, cls(e, "Singleton", 2), name1, 0), []))
    e.prove("singletons of another index have another instance", z3.BoolVal(not same_object(a, c)))


def order(n1, n2):
    return lambda e: ever(e, n1, n2)


# ---------------------------------------------------------------- InitializableSingleton

def i_get(name):
    def unit(e):
        m, rec = start(e, "InitializableSingleton", 1)
        p = pointer(m, rec)
        b = snapshot(m)
        r = rvalue(run(e, method(e, rec, name, 0), []))
        e.cover("got")
        e.prove("the instance last initialized, or nothing before any", got(r, p.v.null, p.v.target))
        e.prove("asking makes nothing", z3.BoolVal(not m.made))
        v = [x for n, x in b.items() if m.cells[n] is p][0]
        e.prove("asking changes nothing", z3.Or(z3.And(v.null, p.v.null), same(v, p.v)))
        others_same(e, m, rec, b)
    return unit


def i_init(n):
    def unit(e):
        m, rec = start(e, "InitializableSingleton", 1)
        p = pointer(m, rec)
        b = snapshot(m)
        xs = [e.sym(T("int"), "arg%d" % i) for i in range(n)]
        r = rvalue(run(e, fn(e, "vp_init%d_1" % n), [arg(e, T("int"), x, "arg%d" % i) for i, x in enumerate(xs)]))
        e.cover("initialized")
        e.prove("initialize says yes", r)
        e.prove("one instance is made", z3.BoolVal(len(m.made) == 1))
        v = [x for k, x in b.items() if m.cells[k] is p][0]
        e.prove("the new instance replaces the old one", z3.And(z3.Not(p.v.null), z3.BoolVal(p.v.target is not v.target)))
        e.prove("the instance is made of the arguments given", holds(e, m, p.v, xs or [z3.IntVal(-1)] * 2))
        others_same(e, m, rec, b)
    return unit


# ---------------------------------------------------------------- SafeInitializableSingleton

def section(e, m, rec):
    p = pointer(m, rec)
    return p, [s for s in m.sections if s.done and s.lock.ptr is p]


def s_init(n):
    def unit(e):
        m, rec = start(e, "SafeInitializableSingleton", 1)
        xs = [e.sym(T("int"), "arg%d" % i) for i in range(n)]
        b = snapshot(m)
        r = rvalue(run(e, fn(e, "vp_sinit%d_1" % n), [arg(e, T("int"), x, "arg%d" % i) for i, x in enumerate(xs)]))
        e.cover("ran")
        m.closed()
        p, ss = section(e, m, rec)
        e.prove("initialize acts once, while the lock is held", z3.BoolVal(bool(ss)))
        k = p.label
        first, last = (ss[0].pre[k], ss[-1].post[k]) if ss else (p.v, p.v)
        made = z3.BoolVal(len(m.made) == 1)
        e.prove("initialize makes the instance exactly when it says so", r == made)
        e.prove("at most one instance is made", z3.BoolVal(len(m.made) <= 1))
        e.prove("there is an instance afterwards", z3.Not(last.null))
        mine = z3.And(z3.Or(*[z3.And(s.pre[k].null, z3.Not(s.post[k].null)) for s in ss] or [z3.BoolVal(False)]))
        e.prove("the instance made is the one kept, made of the arguments given", z3.Implies(made, z3.And(
            mine, holds(e, m, last, xs or [z3.IntVal(-1)] * 2) if m.made else z3.BoolVal(True))))
        e.prove("without making one, the instance that was there stays", z3.Implies(z3.Not(made), z3.And(
            z3.Or(*[same(s.pre[k], s.post[k]) for s in ss] or [z3.BoolVal(False)]), z3.Not(mine))))
        others_same(e, m, rec, b)
    return unit


def s_get(name):
    def unit(e):
        m, rec = start(e, "SafeInitializableSingleton", 1)
        create = e.fresh("create", z3.BoolSort())
        b = snapshot(m)
        r = rvalue(run(e, method(e, rec, name, 1), [arg(e, T("bool"), create, "create")]))
        e.cover("got")
        m.closed()
        p, ss = section(e, m, rec)
        k = p.label
        made = z3.BoolVal(len(m.made) > 0)
        if not ss:
            e.prove("the instance is looked up while the lock is held", z3.BoolVal(False))
            raise PathEnd()
        last = ss[-1].post[k]
        e.prove("what is given is the instance at one moment", z3.Or(*[z3.And(
            got(r, s.post[k].null, s.post[k].target), z3.Implies(create, z3.Not(s.post[k].null))) for s in ss]))
        e.prove("an instance is made only if asked for and there is none", z3.Implies(made, z3.And(create, z3.Or(*[s.pre[k].null for s in ss]))))
        e.prove("at most one instance is made", z3.BoolVal(len(m.made) <= 1))
        if m.made:
            e.cover("made")
            e.prove("the instance made is the one kept, made without arguments", z3.And(
                z3.Not(last.null), holds(e, m, last, [z3.IntVal(-1)] * 2)))
        else:
            e.prove("nothing changes when none is made", z3.And(*[z3.Or(z3.And(s.pre[k].null, s.post[k].null), same(
                s.pre[k], s.post[k])) for s in ss]))
        others_same(e, m, rec, b)
    return unit


UNITS = [Unit("Singleton::%s, %s" % (a, b), order(a, b), setup) for a in ("get_instance", "get_shared_instance")
         for b in ("get_instance", "get_shared_instance")] + \
        [Unit("InitializableSingleton::" + n, i_get(n), setup) for n in ("get_instance", "get_shared_instance")] + \
        [Unit("InitializableSingleton::initialize(%d)" % n, i_init(n), setup) for n in (0, 2)] + \
        [Unit("SafeInitializableSingleton::" + n, s_get(n), setup) for n in ("get_instance", "get_shared_instance")] + \
        [Unit("SafeInitializableSingleton::initialize(%d)" % n, s_init(n), setup) for n in (0, 2)]
