"""C11: owned data, lessees and guards."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from vc.stdlib import MutexV, SharedV

PROGS = {"main": '''#include <functional>
#include <utility>
#include <cpp_utils/memory/owner_ptr.hpp>
namespace eprosima { namespace vp { struct OpData { int x; }; } namespace utils {
#define D eprosima::vp::OpData
template class GuardedPtr<D>;
template class OwnerPtr<D>;
GuardedPtr<D> vp_lock(const LesseePtr<D>& l) { return l.lock(); }
GuardedPtr<D> vp_lock_e(const LesseePtr<D>& l) { return l.lock_with_exception(); }
D* vp_arrow(const LesseePtr<D>& l) { return l.operator->(); }
D& vp_star(const LesseePtr<D>& l) { return *l; }
bool vp_bool(const LesseePtr<D>& l) { return bool(l); }
LesseePtr<D> vp_copy(const LesseePtr<D>& l) { return LesseePtr<D>(l); }
void vp_assign(LesseePtr<D>& a, const LesseePtr<D>& b) { a = b; }
void vp_move_assign(LesseePtr<D>& a, LesseePtr<D>& b) { a = std::move(b); }
GuardedPtr<D> vp_move(GuardedPtr<D>& g) { return GuardedPtr<D>(std::move(g)); }
void vp_gassign(GuardedPtr<D>& a, GuardedPtr<D>& b) { a = std::move(b); }
bool vp_gnull(const GuardedPtr<D>& a) { return a == nullptr || nullptr == a; }
OwnerPtr<D> vp_omove(OwnerPtr<D>& o) { return OwnerPtr<D>(std::move(o)); }
void vp_oassign(OwnerPtr<D>& a, OwnerPtr<D>& b) { a = std::move(b); }
bool vp_onull1(const OwnerPtr<D>& a) { return a == nullptr; }
bool vp_onull2(const OwnerPtr<D>& a) { return nullptr == a; }
OwnerPtr<D> vp_onew(D* d, std::function<void(D*)> del) { return OwnerPtr<D>(d, del); }
void vp_default(D* d) { OwnerPtr<D>::default_deleter()(d); }
void vp_block(InternalPtrData<D>& b) { b.lock_shared(); b.unlock_shared(); b.get(); b.operator->(); (void)*b; if (b) {} }
} }
'''}
DRIVER = {"src": "c11.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/exception/Exception.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["std::shared_ptr keeps its block until the last copy is gone and then runs its destructor once",
               "an owner is used by one thread at a time; a thread does not reset an owner while it holds a guard of it; owners are not "
               "assigned to themselves", "the deleter does not touch the owner"]
D = T("eprosima::vp::OpData")
PD = parse_type("eprosima::vp::OpData *")
BLOCK = parse_type("eprosima::utils::InternalPtrData<eprosima::vp::OpData>")
OWNER = parse_type("eprosima::utils::OwnerPtr<eprosima::vp::OpData>")
LESSEE = parse_type("eprosima::utils::LesseePtr<eprosima::vp::OpData>")
GUARD = parse_type("eprosima::utils::GuardedPtr<eprosima::vp::OpData>")




class Blocks(Monitor):
    """every control block has its lock and a ghost: whether its datum is alive"""
    def __init__(self, e, owner_thread):
        super().__init__(e, {})
        self.stable = owner_thread
        self.blocks = {}
        self.deleted = []

    def parts(self, b):
        ref = [c for c in b.byname.values() if c.t.noref().name == "std::atomic" or c.t.ptr]
        mx = [c for c in b.byname.values() if isinstance(c.v, MutexV)]
        fn = [c for c in b.byname.values() if isinstance(c.v, FnV)]
        if len(ref) != 1 or len(mx) != 1 or len(fn) != 1:
            raise Unsupported("the block has not one pointer, one mutex and one deleter")
        return ref[0], mx[0], fn[0]

    def add(self, b, alive):
        e = self.e
        ref, mx, f = self.parts(b)
        g = Cell(e, T("bool"), alive, b.label + ".alive", name="alive")
        b.ghost["alive"], b.ghost["ref"], b.ghost["del"] = g, ref, f
        l = Lock([ref], None)
        self.locks[mx.v.label] = l
        b.ghost["lock"] = l
        self.guard[ref.label] = (mx.v.label, ref)
        self.blocks[mx.v.label] = b
        return b

    def begin(self, l, shared, fresh=True):
        """other threads ran: the datum may be gone (never comes back), unless this is the owner's thread"""
        e = self.e
        b = [x for x in self.blocks.values() if x.ghost["lock"] is l][0]
        if not self.stable:
            self.others(b)
        super().begin(l, shared, False)

    def others(self, b):
        e, ref = self.e, b.ghost["ref"]
        gone = e.fresh("released", z3.BoolSort())
        self.quiet = True
        b.ghost["alive"].set(z3.And(b.ghost["alive"].v, z3.Not(gone)))
        if e.branch(gone, None):
            ref.set(null_of(e))
        self.quiet = False

    def read(self, c):
        b = self.owner_of(c)
        if b is not None and (self.stable or c.t.noref().name == "std::atomic"):
            return          # atomic accesses are judged below; in the thread of the owner nobody else writes
        super().read(c)

    def write(self, c):
        if c.t.noref().name == "std::atomic" and self.owner_of(c) is not None:
            return
        super().write(c)

    def atomic(self, base, o, name, argn, n, et):
        b = self.owner_of(base)
        if b is None:
            return None
        l = b.ghost["lock"]
        if name == "load" or name.startswith("operator "):
            if not l.held() and not self.stable:
                self.others(b)
            self.quiet = True
            v = base.get()
            self.quiet = False
            return v
        if not l.ex:
            self.e.prove("the pointer is changed only while its lock is held exclusively", z3.BoolVal(False), n, "lock")
        return None

    def owner_of(self, c):
        for b in self.blocks.values():
            if b.ghost["ref"] is (c.root() if isinstance(c, LV) else c):
                return b


def null_of(e):
    return Ptr(None)


def start(e, owner=False):
    return Blocks(e, owner)


def setup(e):
    monitor.hooks(e)

    def mon():
        return e.path_state.get("mon")
    e.hooks["atomic"] = lambda *a: mon() and mon().atomic(*a)

    def call(f, args, n):
        m = mon()
        p = rvalue(args[0])
        bs = [b for b in m.blocks.values() if b.ghost["del"].v is f]
        if len(bs) != 1:
            raise Unsupported("call of an unknown deleter")
        b = bs[0]
        e.prove("the deleter runs only while the lock is held exclusively", z3.BoolVal(bool(b.ghost["lock"].ex)), n)
        e.prove("the deleter is given the datum of its block", z3.BoolVal(isinstance(p, Ptr) and p.target is b.ghost["datum"]), n)
        e.prove("a datum is destroyed only once", b.ghost["alive"].v, n)
        b.ghost["alive"].set(z3.BoolVal(False))
        m.deleted.append(b)
    e.opaque_call = call


def block(e, mon, name, alive=None):
    """an existing control block: its pointer is null or the datum, which is alive exactly when the pointer is not null"""
    rec = e.prog.record(BLOCK)
    datum = Cell(e, D, e.sym(D, name + "_datum"), name + "_datum")
    alive = e.fresh(name + "_alive", z3.BoolSort()) if alive is None else alive
    e.record_hook = lambda o, f, c: Ptr(datum, z3.Not(alive)) if typeof(f).ptr or typeof(f).name == "std::atomic" else None
    b = e.sym_obj(rec, name)
    e.record_hook = None
    b.ghost["datum"] = datum
    return mon.add(b, alive)


def handle(e, t, b, name, null=None):
    """an owner, lessee or guard of the block (or of nothing)"""
    null = e.fresh(name + "_empty", z3.BoolSort()) if null is None else null
    e.record_hook = lambda o, f, c: SharedV("shared", Cell(e, BLOCK, b, b.label + "/cell"), null) \
        if typeof(f).name == "std::shared_ptr" else None
    h = e.sym_obj(e.prog.record(t), name)
    e.record_hook = None
    return h, null


def inside(h):
    c = [c for c in h.byname.values() if isinstance(c.v, SharedV)]
    if len(c) != 1:
        raise Unsupported("not one shared pointer")
    return c[0]


def refers(e, h, b):
    """whether the handle refers to this block"""
    s = inside(h).v
    t = s.target.v if isinstance(s.target, Cell) else s.target
    return z3.And(z3.Not(s.null), z3.BoolVal(t is b))


def points(e, v, b):
    v = rvalue(v) if not isinstance(v, Ptr) else v
    return z3.BoolVal(isinstance(v, Ptr) and v.target is b.ghost["datum"])


def consistent(e, b, what):
    ref = b.ghost["ref"]
    e.prove(what + ": the pointer is null exactly when the datum is gone", z3.Not(e.truth(ref.v)) == z3.Not(b.ghost["alive"].v))


def held(b):
    return b.ghost["lock"]


# ---------------------------------------------------------------- the control block

def b_release(which):
    def unit(e):
        mon = start(e)
        b = block(e, mon, "block")
        rec = e.prog.record(BLOCK)
        was = b.ghost["alive"].v
        if which == "destructor":
            d = [f for f in rec["inner"] if f.get("kind") == "CXXDestructorDecl"]
            f = e.prog.definition(d[0]["id"])
        else:
            f = method(e, rec, "release_reference_", 0)
        run(e, f, [], this=b)
        e.cover("released")
        mon.closed()
        e.prove("the datum is gone", z3.Not(b.ghost["alive"].v))
        e.prove("the pointer is null", z3.Not(e.truth(b.ghost["ref"].v)))
        e.prove("at most one destruction", z3.BoolVal(len(mon.deleted) <= 1))
        if mon.deleted:
            e.cover("destroyed")
    return unit


def b_locks(e):
    mon = start(e)
    b = block(e, mon, "block")
    rec = e.prog.record(BLOCK)
    run(e, method(e, rec, "lock_shared", 0), [], this=b)
    e.prove("lock_shared takes the shared lock once", z3.BoolVal(held(b).sh == 1 and held(b).ex == 0))
    run(e, method(e, rec, "unlock_shared", 0), [], this=b)
    e.cover("returns")
    mon.closed()
    e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))


def b_access(e):
    mon = start(e)
    b = block(e, mon, "block")
    rec = e.prog.record(BLOCK)
    run(e, method(e, rec, "lock_shared", 0), [], this=b)
    al = b.ghost["alive"].v
    conv = [f for f in rec["inner"] if f.get("kind") == "CXXConversionDecl"]
    r = rvalue(run(e, e.prog.definition(conv[0]["id"]), [], this=b))
    e.prove("bool: whether the datum is there", r == al)
    for nm in ("get", "operator->"):
        p = rvalue(run(e, method(e, rec, nm, 0), [], this=b))
        e.prove(nm + ": the datum, or null", z3.And(e.truth(p) == al, z3.Or(z3.Not(al), points(e, p, b))))
    e.assume(al)
    p = run(e, method(e, rec, "operator*", 0), [], this=b)
    e.cover("accessed")
    e.prove("*: the datum", z3.BoolVal(p is b.ghost["datum"]))


# ---------------------------------------------------------------- lessees and guards

def lessee(e):
    mon = start(e)
    b = block(e, mon, "block")
    l, null = handle(e, LESSEE, b, "lessee")
    return mon, b, l, null


def l_lock(e):
    mon, b, l, null = lessee(e)
    g = rvalue(run(e, fn(e, "vp_lock"), [l]))
    e.cover("locked")
    if not e.branch(null, None):
        e.prove("the guard holds the shared lock of the datum, once", z3.And(refers(e, g, b), z3.BoolVal(held(b).sh == 1 and held(b).ex == 0)))
    else:
        e.cover("empty")
        e.prove("locking nothing gives an empty guard", inside(g).v.null)
        mon.closed()
    al = b.ghost["alive"].v
    grec = e.prog.record(GUARD)
    conv = [f for f in grec["inner"] if f.get("kind") == "CXXConversionDecl"]
    ok = rvalue(run(e, e.prog.definition(conv[0]["id"]), [], this=g))
    e.prove("the guard is valid exactly when the datum is there", ok == z3.And(z3.Not(null), al))
    r = rvalue(run(e, fn(e, "vp_gnull"), [g]))
    e.prove("== nullptr: when it is not valid", r == z3.Not(z3.And(z3.Not(null), al)))
    if e.branch(z3.And(z3.Not(null), al), None):
        for nm in ("get", "operator->"):
            p = rvalue(run(e, method(e, grec, nm, 0), [], this=g))
            e.prove("guard.%s: the datum" % nm, z3.And(e.truth(p), points(e, p, b)))
        e.prove("*guard: the datum", z3.BoolVal(run(e, method(e, grec, "operator*", 0), [], this=g) is b.ghost["datum"]))
        e.cover("valid")
        e.prove("the datum is alive while the guard is there", b.ghost["alive"].v)
    e.destroy(g)
    mon.closed()
    e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))
    e.prove("the lessee is as before", z3.And(inside(l).v.null == null, z3.Or(null, refers(e, l, b))))


def l_except(name):
    def unit(e):
        mon, b, l, null = lessee(e)
        try:
            r = run(e, fn(e, name), [l], throws=True)
        except CppThrow as x:
            e.cover("reported")
            e.prove("reported as ValueAccessException", z3.BoolVal(x.t.name == U + "ValueAccessException"))
            e.prove("reported only when the datum is not there", z3.Or(null, z3.Not(b.ghost["alive"].v)))
            mon.closed()
            raise PathEnd()
        e.cover("given")
        e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))
        s = [x for x in mon.sections]
        e.prove("the datum was there", z3.And(z3.Not(null), z3.BoolVal(len(s) == 1), e.truth(s[0].pre[b.ghost["ref"].label]) if s else False))
        if name == "vp_lock_e":
            r = rvalue(r)
            e.prove("the guard holds the shared lock", z3.And(refers(e, r, b), z3.BoolVal(held(b).sh == 1)))
            e.prove("the datum is alive while the guard is there", b.ghost["alive"].v)
            e.destroy(r)
        elif name == "vp_arrow":
            e.prove("the datum", points(e, r, b))
        else:
            e.prove("the datum", z3.BoolVal(r is b.ghost["datum"]))
        mon.closed()
    return unit


def l_bool(e):
    mon, b, l, null = lessee(e)
    before = b.ghost["alive"].v
    r = rvalue(run(e, fn(e, "vp_bool"), [l]))
    e.cover("returns")
    after = b.ghost["alive"].v
    mon.closed()
    e.prove("a lessee is valid only while the datum was there", z3.Implies(r, z3.And(z3.Not(null), before)))
    e.prove("a lessee of a datum still there is valid", z3.Implies(z3.And(z3.Not(null), after), r))


def l_copies(e):
    mon, b, l, null = lessee(e)
    c = block(e, mon, "other_block")
    r = rvalue(run(e, fn(e, "vp_copy"), [l]))
    e.prove("a copy refers to the same", z3.And(inside(r).v.null == null, z3.Or(null, refers(e, r, b))))
    l2, null2 = handle(e, LESSEE, c, "lessee2")
    run(e, fn(e, "vp_assign"), [l2, l])
    e.prove("assignment: refers to the same", z3.And(inside(l2).v.null == null, z3.Or(null, refers(e, l2, b))))
    e.prove("assignment: the other is kept", z3.And(inside(l).v.null == null, z3.Or(null, refers(e, l, b))))
    l3, null3 = handle(e, LESSEE, c, "lessee3")
    run(e, fn(e, "vp_move_assign"), [l3, l])
    e.cover("copied")
    e.prove("move assignment: refers to the same", z3.And(inside(l3).v.null == null, z3.Or(null, refers(e, l3, b))))
    mon.closed()
    e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))


def locked(e, mon, b, name):
    """a guard, which has its lock unless it is empty"""
    g, null = handle(e, GUARD, b, name)
    if not e.branch(null, None):
        mon.acquire(mon.parts(b)[1].v, True, None)
    return g, null


def g_copy(e):
    """a guard or an owner that could be copied would release twice"""
    for t in (GUARD, OWNER):
        rec = e.prog.record(t)
        for f in rec["inner"]:
            ps = params_of(f) if f.get("kind") in ("CXXConstructorDecl", "CXXMethodDecl") else []
            if len(ps) == 1 and (f["kind"] == "CXXConstructorDecl" or f.get("name") == "operator="):
                q = qualtype(ps[0])
                if q.endswith("&") and not q.endswith("&&") and rec["name"] in q and "InternalPtrData" not in q:
                    e.cover("seen")
                    e.prove("%s cannot be copied" % rec["name"], z3.BoolVal(bool(f.get("explicitlyDeleted") or
                                                                              "= delete" in f.get("_text", ""))))


def g_move(e):
    mon = start(e)
    b = block(e, mon, "block")
    g, null = locked(e, mon, b, "guard")
    r = rvalue(run(e, fn(e, "vp_move"), [g]))
    e.cover("moved")
    n = held(b).sh
    e.prove("moving a guard keeps the lock", z3.If(null, z3.BoolVal(n == 0), z3.BoolVal(n == 1)))
    e.prove("the new guard refers to the same", z3.And(inside(r).v.null == null, z3.Or(null, refers(e, r, b))))
    e.destroy(g)
    e.prove("the moved guard releases nothing", z3.BoolVal(held(b).sh == n))
    e.destroy(r)
    mon.closed()
    e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))


def g_assign(kind):
    def unit(e):
        mon = start(e)
        b = block(e, mon, "block")
        c = b if kind == "same" else block(e, mon, "other_block")
        g, null = locked(e, mon, b, "guard")
        if kind == "self":
            run(e, fn(e, "vp_gassign"), [g, g])
            e.cover("assigned")
            e.destroy(g)
            mon.closed()
            return
        h, null2 = locked(e, mon, c, "guard2")
        run(e, fn(e, "vp_gassign"), [g, h])
        e.cover("assigned")
        e.prove("the guard refers to the other's datum", z3.And(inside(g).v.null == null2, z3.Or(null2, refers(e, g, c))))
        e.prove("the lock of the other's datum is still held", z3.Or(null2, z3.BoolVal(held(c).sh >= 1)))
        e.destroy(h)
        e.prove("the lock of the other's datum is held while the guard is there", z3.Or(null2, z3.BoolVal(held(c).sh == 1)))
        if b is not c:
            e.prove("what was guarded before is not locked any more", z3.BoolVal(held(b).sh == 0))
        e.destroy(g)
        mon.closed()
        e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))
    return unit


# ---------------------------------------------------------------- owners

def owner(e, mon, name):
    """an owner of a living datum, or of nothing"""
    b = block(e, mon, name + "_block", z3.BoolVal(True))
    o, null = handle(e, OWNER, b, name)
    return b, o, null


def gone(e, mon, b, null, what):
    """what the owner had is destroyed, once"""
    n = len([x for x in mon.deleted if x is b])
    e.prove(what + ": the datum it had is destroyed exactly once", z3.If(null, z3.BoolVal(n == 0), z3.BoolVal(n == 1)))
    e.prove(what + ": lessees see it is gone", z3.Or(null, z3.Not(e.truth(b.ghost["ref"].v))))


def o_reset(how):
    def unit(e):
        mon = start(e, True)
        b, o, null = owner(e, mon, "owner")
        rec = e.prog.record(OWNER)
        if how == "reset":
            run(e, method(e, rec, "reset", 0), [], this=o)
            e.prove("the owner is empty", inside(o).v.null)
        else:
            e.destroy(o)
        e.cover("done")
        gone(e, mon, b, null, how)
        mon.closed()
    return unit


def has(e, mon, o, p, f, what):
    """the owner has a living datum p with the deleter f"""
    s = inside(o).v
    e.prove(what + ": the owner is not empty", z3.Not(s.null))
    nb = s.target.v if isinstance(s.target, Cell) else s.target
    if not isinstance(nb, Obj):
        raise Unsupported("the block of the owner is not modelled")
    ref, mx, fc = mon.parts(nb)
    e.prove(what + ": it has the datum given", z3.BoolVal(isinstance(ref.v, Ptr) and ref.v.target is p.target))
    e.prove(what + ": and the deleter given", z3.BoolVal(fc.v is f))
    return nb


def o_new(how):
    def unit(e):
        mon = start(e, True)
        datum = Cell(e, D, e.sym(D, "datum"), "datum")
        p = Ptr(datum, e.fresh("null", z3.BoolSort()))
        f = FnV("opaque", name="deleter")
        pa, fa = arg(e, PD, p, "reference"), arg(e, parse_type("std::function<void (eprosima::vp::OpData *)>"), f, "deleter")
        rec = e.prog.record(OWNER)
        b = None
        try:
            if how == "reset":
                b, o, null = owner(e, mon, "owner")
                run(e, method(e, rec, "reset", 2), [pa, fa], this=o, throws=True)
            else:
                o = rvalue(run(e, fn(e, "vp_onew"), [pa, fa], throws=True))
        except CppThrow as x:
            e.cover("refused")
            e.prove("only a null pointer is refused", p.null)
            e.prove("with InitializationException", z3.BoolVal(x.t.name == U + "InitializationException"))
            if b is not None:
                gone(e, mon, b, null, "refused")
                e.prove("the owner is left empty", inside(o).v.null)
            mon.closed()
            raise PathEnd()
        e.cover("owned")
        e.prove("a null pointer is refused", z3.Not(p.null))
        if b is not None:
            gone(e, mon, b, null, "reset")
        nb = has(e, mon, o, p, f, how)
        n = len(mon.deleted)
        nb.ghost["datum"] = datum
        mon.add(nb, z3.BoolVal(True))
        e.destroy(o)
        gone(e, mon, nb, z3.BoolVal(False), "destruction")
        e.prove("nothing else is destroyed", z3.BoolVal(len(mon.deleted) == n + 1))
        mon.closed()
    return unit


def o_move(e):
    mon = start(e, True)
    b, o, null = owner(e, mon, "owner")
    r = rvalue(run(e, fn(e, "vp_omove"), [o]))
    e.cover("moved")
    e.prove("the new owner has the datum", z3.And(inside(r).v.null == null, z3.Or(null, refers(e, r, b))))
    e.destroy(o)
    e.prove("the moved owner destroys nothing", z3.BoolVal(not mon.deleted))
    e.destroy(r)
    gone(e, mon, b, null, "destruction")
    mon.closed()


def o_assign(e):
    mon = start(e, True)
    b, o, null = owner(e, mon, "owner")
    c, q, null2 = owner(e, mon, "owner2")
    run(e, fn(e, "vp_oassign"), [o, q])
    e.cover("assigned")
    gone(e, mon, b, null, "assignment")
    gone_c = [x for x in mon.deleted if x is c]
    e.prove("the other's datum is kept", z3.BoolVal(not gone_c))
    e.prove("the owner has the other's datum", z3.And(inside(o).v.null == null2, z3.Or(null2, refers(e, o, c))))
    e.prove("the other is left empty", inside(q).v.null)
    e.destroy(q)
    e.prove("the other destroys nothing", z3.BoolVal(c not in mon.deleted))
    e.destroy(o)
    gone(e, mon, c, null2, "destruction")
    mon.closed()


def o_access(e):
    mon = start(e, True)
    b, o, null = owner(e, mon, "owner")
    rec = e.prog.record(OWNER)
    l = rvalue(run(e, method(e, rec, "lease", 0), [], this=o))
    e.prove("a lessee refers to the datum of the owner", z3.And(inside(l).v.null == null, z3.Or(null, refers(e, l, b))))
    conv = [f for f in rec["inner"] if f.get("kind") == "CXXConversionDecl"]
    r = rvalue(run(e, e.prog.definition(conv[0]["id"]), [], this=o))
    e.prove("bool: whether it has a datum", r == z3.Not(null))
    for nm in ("vp_onull1", "vp_onull2"):
        e.prove("== nullptr: when it has none", rvalue(run(e, fn(e, nm), [o])) == null)
    e.assume(z3.Not(null))
    for nm in ("get", "operator->"):
        p = rvalue(run(e, method(e, rec, nm, 0), [], this=o))
        e.prove("owner.%s: the datum" % nm, z3.And(e.truth(p), points(e, p, b)))
    e.prove("*owner: the datum", z3.BoolVal(run(e, method(e, rec, "operator*", 0), [], this=o) is b.ghost["datum"]))
    e.cover("accessed")
    mon.closed()
    e.prove("nothing is destroyed", z3.BoolVal(not mon.deleted))


def o_default(e):
    dels = []
    e.hooks["delete"] = lambda p, n: dels.append(p) or True
    p = Ptr(Cell(e, D, e.sym(D, "datum"), "datum"), z3.BoolVal(False))
    run(e, fn(e, "vp_default"), [arg(e, PD, p)])
    e.cover("deleted")
    e.prove("the default deleter deletes the datum, once", z3.BoolVal(len(dels) == 1 and isinstance(dels[0], Ptr) and dels[0].target is p.target))


UNITS = [Unit("block: release", b_release("release"), setup), Unit("block: destructor", b_release("destructor"), setup),
         Unit("block: shared lock", b_locks, setup), Unit("block: access", b_access, setup),
         Unit("lessee: lock, guard", l_lock, setup), Unit("lessee: lock_with_exception", l_except("vp_lock_e"), setup),
         Unit("lessee: ->", l_except("vp_arrow"), setup), Unit("lessee: *", l_except("vp_star"), setup),
         Unit("lessee: bool", l_bool, setup), Unit("lessee: copies", l_copies, setup),
         Unit("no copies of guards and owners", g_copy), Unit("guard: move", g_move, setup),
         Unit("guard: assignment", g_assign("other"), setup), Unit("guard: assignment, same datum", g_assign("same"), setup),
         Unit("guard: self-assignment", g_assign("self"), setup),
         Unit("owner: reset", o_reset("reset"), setup), Unit("owner: destructor", o_reset("destructor"), setup),
         Unit("owner: reset with a datum", o_new("reset"), setup), Unit("owner: construction", o_new("construction"), setup),
         Unit("owner: move", o_move, setup), Unit("owner: assignment", o_assign, setup), Unit("owner: access", o_access, setup),
         Unit("default deleter", o_default)]
