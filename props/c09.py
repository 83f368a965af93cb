"""C09: the concurrent database is an atomic map."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from vc.stdlib import MutexV, SharedV, GuardV, CondVar

PROGS = {"main": '''#include <cpp_utils/collection/database/SafeDatabase.hpp>
namespace eprosima { namespace vp {
struct OpKey { bool operator<(const OpKey&) const; };
struct OpVal { };
} namespace utils {
template class SafeDatabaseIterator<eprosima::vp::OpKey, eprosima::vp::OpVal>;
template class SafeDatabase<eprosima::vp::OpKey, eprosima::vp::OpVal>;
using DbIt = SafeDatabaseIterator<eprosima::vp::OpKey, eprosima::vp::OpVal>;
DbIt copy_of(const DbIt& it) { return DbIt(it); }
} }
'''}
DRIVER = {"src": "c09.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"], "repo": []}
ASSUMPTIONS = ["keys and values are opaque types; the order of keys is a strict weak order that distinguishes them",
               "std::shared_timed_mutex gives exclusive and shared access; a thread may take the shared lock more than once "
               "(holding two iterators at a time needs it; POSIX read locks allow it)"]
K, V = T("eprosima::vp::OpKey"), T("eprosima::vp::OpVal")
DB = parse_type("eprosima::utils::SafeDatabase<eprosima::vp::OpKey, eprosima::vp::OpVal>")
IT = parse_type("eprosima::utils::SafeDatabaseIterator<eprosima::vp::OpKey, eprosima::vp::OpVal>")


class Ext:
    """opaque values; the iterator class has a library iterator as its base"""
    def __init__(self, e):
        self.e = e

    def moved_from(self, v):
        if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            return self.e.fresh("moved", v.sort())

    def construct(self, t, inner, n):
        if t.name.endswith("_iterator") and len(inner) == 1:
            v = rvalue(self.e.ev(inner[0]))
            return v.ghost.get("iter") if isinstance(v, Obj) else v

    def init_base(self, obj, t, e):
        if "iterator" in t.name:
            v = self.e.rv(e) if isinstance(e, dict) else e
            if isinstance(v, Obj):
                v = v.ghost.get("iter")
            obj.ghost["iter"] = v
            return True


def setup(e):
    monitor.hooks(e)
    e.lib.ext.append(Ext(e))


def start(e):
    db = e.sym_obj(e.prog.record(DB), "db")
    m = [c for c in db.byname.values() if isinstance(c.v, MutexV)]
    d = [c for c in db.byname.values() if isinstance(c.v, MapV)]
    if len(m) != 1 or len(d) != 1:
        raise Unsupported("the database has not one mutex and one map")
    lk = Lock(d)
    mon = Monitor(e, {m[0].v.label: lk})
    return db, d[0].label, lk, mon


def keys_of(kt, e):
    return z3.Const("anykey", e.sort_of(kt))


def same(a, b):
    return a is b or (z3.eq(a.dom, b.dom) and z3.eq(a.val, b.val) and z3.eq(a.n, b.n))


def map_eq(e, m, dom, val, n):
    """m has domain dom and size n, and agrees with val on every key of dom"""
    k = z3.Const("anykey!q", e.sort_of(m.kt))
    return z3.And(m.n == n, z3.ForAll([k], m.has(k) == z3.Select(dom, k)),
                  z3.ForAll([k], z3.Implies(z3.Select(dom, k), m.select(k) == z3.Select(val, k))))


def unchanged(e, a, b):
    return z3.BoolVal(True) if same(a, b) else map_eq(e, b, a.dom, a.val, a.n)


def linear(e, mon, key, spec, name):
    """there is one critical section where the operation takes effect, and the others change nothing"""
    goals = []
    for s in mon.sections:
        if not s.done:
            continue
        goals.append(z3.And(spec(s.pre[key], s.post[key]),
                            *[unchanged(e, o.pre[key], o.post[key]) for o in mon.sections if o is not s and o.done]))
    e.prove(name, z3.Or(*goals) if goals else z3.BoolVal(False))


def inserted(e, a, b, k, v):
    return map_eq(e, b, z3.Store(a.dom, k, True), z3.Store(a.val, k, v), a.n + 1)


def changed(e, a, b, k, v):
    return map_eq(e, b, a.dom, z3.Store(a.val, k, v), a.n)


def writer(name, byref, spec, text):
    def unit(e):
        db, key, lk, mon = start(e)
        k, v = e.sym(K, "key"), e.sym(V, "value")
        cls = e.prog.record(DB)
        if name == "erase":
            f, args = method(e, cls, name, 1), [arg(e, K, k)]
        else:
            f = method(e, cls, name, 2, lambda d: ("&&" in qualtype(params_of(d)[0]) if byref is not None else True) == (byref or byref is None))
            args = [arg(e, K, k, "key"), arg(e, V, v, "value")]
        r = rvalue(run(e, f, args, this=db))
        e.cover("returns")
        mon.closed()
        linear(e, mon, key, lambda a, b: spec(e, a, b, r, k, v), text)
        if byref is False or name == "erase":
            e.prove("the key given is left as it is", args[0].v == k)
    return unit


def add(e, a, b, r, k, v):
    return z3.And(r == z3.Not(a.has(k)), z3.If(a.has(k), unchanged(e, a, b), inserted(e, a, b, k, v)))


def modify(e, a, b, r, k, v):
    return z3.And(r == a.has(k), z3.If(a.has(k), changed(e, a, b, k, v), unchanged(e, a, b)))


def add_or_modify(e, a, b, r, k, v):
    return z3.And(r == z3.Not(a.has(k)), z3.If(a.has(k), changed(e, a, b, k, v), inserted(e, a, b, k, v)))


def erase(e, a, b, r, k, v):
    return z3.And(r == a.has(k), z3.If(a.has(k), map_eq(e, b, z3.Store(a.dom, k, False), a.val, a.n - 1),
                                       unchanged(e, a, b)))


def is_unit(e):
    db, key, lk, mon = start(e)
    k = e.sym(K, "key")
    r = rvalue(run(e, method(e, e.prog.record(DB), "is", 1), [arg(e, K, k)], this=db))
    e.cover("returns")
    mon.closed()
    linear(e, mon, key, lambda a, b: z3.And(r == a.has(k), unchanged(e, a, b)), "is: whether the key is there at one moment")


def at_unit(e):
    db, key, lk, mon = start(e)
    k = e.sym(K, "key")
    try:
        r = rvalue(run(e, method(e, e.prog.record(DB), "at", 1), [arg(e, K, k)], this=db, throws=True))
    except CppThrow as x:
        e.cover("absent")
        mon.closed()
        e.prove("at: the absence is reported as std::out_of_range", z3.BoolVal(x.t.name == "std::out_of_range"))
        linear(e, mon, key, lambda a, b: z3.And(z3.Not(a.has(k)), unchanged(e, a, b)), "at: fails only when the key is absent")
        raise PathEnd()
    e.cover("present")
    mon.closed()
    linear(e, mon, key, lambda a, b: z3.And(a.has(k), r == a.select(k), unchanged(e, a, b)), "at: the value at one moment")


def size_unit(e):
    db, key, lk, mon = start(e)
    r = rvalue(run(e, method(e, e.prog.record(DB), "size", 0), [], this=db))
    e.cover("returns")
    mon.closed()
    linear(e, mon, key, lambda a, b: z3.And(r == a.n % (1 << 32), unchanged(e, a, b)), "size: the number of keys at one moment")


def iterator(name):
    def unit(e):
        db, key, lk, mon = start(e)
        k = e.sym(K, "key")
        args = [arg(e, K, k)] if name == "find" else []
        r = rvalue(run(e, method(e, e.prog.record(DB), name, len(args)), args, this=db))
        e.cover("returns")
        e.prove("%s: the database stays share-locked, once, while the iterator is there" % name,
                z3.BoolVal(lk.sh == 1 and lk.ex == 0))
        it = r.ghost.get("iter") if isinstance(r, Obj) else None
        if not isinstance(it, IterV):
            raise Unsupported("the iterator returned is not modelled")
        m = it.cont.v
        mon.quiet = True
        e.prove("%s: the iterator is over the database as it is now" % name,
                z3.And(z3.BoolVal(it.cont.label == key and len(mon.sections) >= 1),
                       *[unchanged(e, s.pre[key], s.post[key]) for s in mon.sections if s.done]))
        if name == "find":
            e.prove("find: designates the key, or the end if it is absent", z3.And(it.end == z3.Not(m.has(k)),
                                                                                    z3.Or(it.end, it.key == k)))
        elif name == "begin":
            e.prove("begin: at the end exactly when the database is empty", it.end == (m.n == 0))
        else:
            e.prove("end: at the end", it.end)
        mon.quiet = False
        e.destroy(r)
        mon.closed()
    return unit


def copy_unit(e):
    db, key, lk, mon = start(e)
    rec = e.prog.record(IT)
    a = rvalue(run(e, method(e, e.prog.record(DB), "begin", 0), [], this=db))
    n = lk.sh
    b = rvalue(run(e, fn(e, "copy_of"), [TempLV(a, IT)]))
    e.cover("copied")
    e.prove("a copy of an iterator holds the lock too", z3.BoolVal(lk.sh == n + 1))
    e.prove("a copy of an iterator designates the same", z3.BoolVal(b.ghost.get("iter") is a.ghost.get("iter")))
    e.destroy(a)
    e.prove("the lock is held until both iterators are gone", z3.BoolVal(lk.sh == 1))
    e.destroy(b)
    mon.closed()


UNITS = [Unit("add (moving)", writer("add", True, add, "add: inserts exactly when the key is absent"), setup),
         Unit("add (copying)", writer("add", False, add, "add: inserts exactly when the key is absent"), setup),
         Unit("modify", writer("modify", None, modify, "modify: changes exactly an existing key"), setup),
         Unit("add_or_modify (moving)", writer("add_or_modify", True, add_or_modify, "add_or_modify: inserts or changes"), setup),
         Unit("add_or_modify (copying)", writer("add_or_modify", False, add_or_modify, "add_or_modify: inserts or changes"), setup),
         Unit("erase", writer("erase", None, erase, "erase: removes exactly an existing key"), setup),
         Unit("is", is_unit, setup), Unit("at", at_unit, setup), Unit("size", size_unit, setup),
         Unit("find", iterator("find"), setup), Unit("begin", iterator("begin"), setup), Unit("end", iterator("end"), setup),
         Unit("copy of an iterator", copy_unit, setup)]
