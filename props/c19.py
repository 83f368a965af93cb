"""C19: random managers."""
from .common import *
from . import monitor
from .monitor import Monitor, Lock, method
from vc.frontend import REPO
from vc.stdlib import NONE

PROGS = {"main": '''#include <mutex>
#include <random>
#include "%(r)s/cpp_utils/src/cpp/math/random/RandomManager.cpp"
#include "%(r)s/cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp"
namespace eprosima { namespace utils {
RandomManager* vp_make_RandomManager(unsigned int s) { return new RandomManager(s); }
TSafeRandomManager* vp_make_TSafeRandomManager(unsigned int s) { return new TSafeRandomManager(s); }
RandomManager* vp_made_RandomManager() { return new RandomManager(); }
TSafeRandomManager* vp_made_TSafeRandomManager() { return new TSafeRandomManager(); }
} }
''' % {"r": REPO}}
DRIVER = {"src": "c19.cpp", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"],
          "repo": ["cpp_utils/src/cpp/math/random/RandomManager.cpp", "cpp_utils/src/cpp/math/random/TSafeRandomManager.cpp"]}
ASSUMPTIONS = ["std::mt19937 is a deterministic generator: seeding fixes its state, each number and the next state depend on its state alone",
               "std::random_device may be used by several threads at a time (libstdc++ on this platform) and touches no other generator",
               "RandomManager is used by one thread at a time (documented)"]
ST = z3.DeclareSort("MtState")
SEEDED = z3.Function("mt_seeded", z3.IntSort(), ST)
NEXT = z3.Function("mt_next", ST, ST)
OUT = z3.Function("mt_number", ST, z3.IntSort())
CLASSES = ("RandomManager", "TSafeRandomManager")


class Mt:
    """a generator, and its lock if it has one"""
    def __init__(self, e, state, label, locked):
        self.label, self.locked, self.owned = label, locked, None
        self.st = Cell(e, T("ghost"), state, label + ".state", name="state of the generator")


class Rd:
    pass


class Generators:
    def __init__(self, e):
        self.e, self.k = e, 0

    def kind(self, t):
        t = t.noref()
        if t.ptr:
            return None
        if t.name in ("std::mt19937", "std::mersenne_twister_engine"):
            return "mt"
        if t.name == "std::random_device":
            return "rd"
        if t.name == U + "Atomicable" and t.args and self.kind(t.args[0]) == "mt" and (len(t.args) < 2 or t.args[1].name == "std::mutex"):
            rec = self.e.prog.record(t)
            if rec is None or len(rec.get("bases", [])) != 2 or any(
                    c.get("kind") in ("FieldDecl", "CXXMethodDecl") and not c.get("isImplicit") for c in rec["inner"]):
                raise Unsupported("Atomicable is not just the value and the mutex")
            return "amt"

    def make(self, t, state):
        k = self.kind(t)
        self.k += 1
        if k == "rd":
            return Rd()
        if k:
            return Mt(self.e, state, "mt%d" % self.k, k == "amt")

    def reset(self):
        self.k = 0

    def sym(self, t, name):
        if self.kind(t):
            return self.make(t, self.e.fresh(name, ST))

    def default(self, t, label):
        if self.kind(t):
            return self.make(t, SEEDED(z3.IntVal(5489)))

    def construct(self, t, inner, n):
        k = self.kind(t)
        if not k:
            return None
        args = [rvalue(a) for a in self.e.args_of([c for c in inner if c.get("kind") != "CXXDefaultArgExpr"])]
        if k == "rd":
            return Rd()
        if not args:
            return self.default(t, "")
        if isinstance(args[0], Mt):
            return self.make(t, args[0].st.v)
        if len(args) == 1 and z3.is_int(args[0]):
            return self.make(t, SEEDED(args[0]))

    opaque_construct = construct

    def copy(self, v, move):
        if isinstance(v, Mt):
            return Mt(self.e, v.st.v, v.label + "'", v.locked)
        if isinstance(v, Rd):
            return v

    def havoc(self, c, base=None):
        if isinstance(c.v, (Mt, Rd)):
            return c.v

    def method(self, base, o, name, argn, n, bt):
        e = self.e
        m = e.path_state.get("mon")
        if isinstance(o, Rd) and name == "operator()":
            return self.number()
        if not isinstance(o, Mt):
            return None
        if name in ("lock", "unlock") and o.locked:
            (e.lib.acquire if name == "lock" else e.lib.release)(o, False, n)
            return NONE
        if o.locked and m is not None and o.label in m.locks:
            l = m.locks[o.label]
            e.prove("a generator is used only while its lock is held", z3.BoolVal(bool(l.ex)), n, "lock")
            if not l.ex:
                raise PathEnd()
        if name == "seed":
            a = [c for c in argn if c.get("kind") != "CXXDefaultArgExpr"]
            o.st.set(SEEDED(rvalue(e.ev(a[0])) if a else z3.IntVal(5489)))
            return NONE
        if name == "operator()":
            s = o.st.v
            o.st.set(NEXT(s))
            r = OUT(s)
            e.assume(z3.And(r >= 0, r < 2 ** 32))
            return r

    def operator(self, name, args, n):
        if name == "operator()" and args:
            o = rvalue(args[0])
            if isinstance(o, (Mt, Rd)):
                return self.method(args[0], o, name, [], n, T("?"))

    def number(self):
        r = self.e.fresh("random", z3.IntSort())
        self.e.assume(z3.And(r >= 0, r < 2 ** 32))
        return r


class Lk(Monitor):
    def havoc(self, l):
        for c in l.cells:
            c.set(self.e.fresh("others", ST))


def setup(e):
    monitor.hooks(e)
    e.opaque_types |= {U + "Atomicable"}
    e.lib.ext.append(Generators(e))


def gens(o):
    return [c for c in o.byname.values() if isinstance(c.v, Mt)]


def build(e, name, seed=None):
    e.path_state.pop("mon", None)
    p = rvalue(run(e, fn(e, "vp_ma%s_%s" % ("ke" if seed is not None else "de", name)),
                   [arg(e, UINT, seed, "seed")] if seed is not None else []))
    t = p.target
    return t.v if isinstance(t, Cell) else t


def sequence_name(e, name):
    """the generator of the sequence: the one given the seed at construction"""
    s = e.fresh("some_seed", z3.IntSort())
    e.assume(z3.And(s >= 0, s < 2 ** 32))
    o = build(e, name, s)
    c = [k for k, c in o.byname.items() if isinstance(c.v, Mt) and e.holds(c.v.st.v == SEEDED(s))]
    e.prove("the sequence starts from the seed given at construction", z3.BoolVal(len(c) == 1))
    if len(c) != 1:
        raise PathEnd()
    return c[0]


def start(e, name):
    q = sequence_name(e, name)
    o = e.sym_obj(e.prog.record(T(U + name)), "manager")
    locks = {}
    for c in gens(o):
        if c.v.locked:
            locks[c.v.label] = Lock([c.v.st])
    m = Lk(e, locks)
    g = o.byname[q].v
    if name == "TSafeRandomManager":
        e.prove("the generator of the sequence has a lock", z3.BoolVal(g.locked))
    return o, g, m


def ctor(name):
    def unit(e):
        q = sequence_name(e, name)
        e.cover("made")
        o = build(e, name)
        e.prove("without a seed the sequence is that of seed 1", o.byname[q].v.st.v == SEEDED(z3.IntVal(1)))
    return unit


def op(name, what, pick, nargs, spec):
    def unit(e):
        o, g, m = start(e, name)
        s0 = g.st.v
        others = [(c.v, c.v.st.v) for c in gens(o) if c.v is not g]
        x = e.fresh("seed", z3.IntSort())
        e.assume(z3.And(x >= 0, x < 2 ** 32))
        f = pick(e, e.prog.record(T(U + name)))
        r = rvalue(run(e, f, [arg(e, UINT, x, "seed")] if nargs else [], this=o))
        e.cover("ran")
        m.closed()
        if g.locked:
            ss = [s for s in m.sections if s.lock is m.locks[g.label]]
            pairs = [(s.pre[g.st.label], s.post[g.st.label]) for s in ss]
        else:
            pairs = [(s0, g.st.v)]
        if spec == "sequence":
            e.prove("the next number of the sequence is given, and the sequence advances by one", z3.Or(*[z3.And(
                r == OUT(a), b == NEXT(a), *[c == d for j, (c, d) in enumerate(pairs) if j != i]) for i, (a, b) in enumerate(pairs)]
                or [z3.BoolVal(False)]))
        elif spec == "seed":
            e.prove("the sequence starts again from the seed", z3.Or(*[z3.And(b == SEEDED(x), *[
                c == d for j, (c, d) in enumerate(pairs) if j > i]) for i, (a, b) in enumerate(pairs)] or [z3.BoolVal(False)]))
        else:
            e.prove("the sequence is not affected", z3.And(*[a == b for a, b in pairs] or [z3.BoolVal(True)]))
            if spec == "seeded":
                e.prove("the number depends on the seed alone: the first of its sequence", r == OUT(SEEDED(x)))
    return unit


def named(n, k):
    return lambda e, rec: method(e, rec, n, k)


def rand(pure):
    def pick(e, rec):
        c = [d for d in e.prog.find("::".join(x for x in rec["_qual"] if x) + "::rand", lambda d: len(params_of(d)) == 0)]
        def flag(d):
            for a in d.get("inner", []):
                if a.get("kind") == "TemplateArgument":
                    return a.get("value")
        c = [d for d in c if str(flag(d)) in ((("1", "-1", "True") if pure else ("0", "False")))]
        if len(c) != 1:
            raise Unsupported("%d definitions of rand" % len(c))
        return c[0]
    return pick


UNITS = []
for N in CLASSES:
    UNITS += [Unit(N, ctor(N), setup)] + [Unit("%s::%s" % (N, w), op(N, w, p, k, s), setup) for w, p, k, s in (
        ("pure_rand", named("pure_rand", 0), 0, "pure"), ("sequence_rand", named("sequence_rand", 0), 0, "sequence"),
        ("seed", named("seed", 1), 1, "seed"), ("seeded_rand", named("seeded_rand", 1), 1, "seeded"),
        ("rand(seed)", named("rand", 1), 1, "seeded"), ("rand<true>", rand(True), 0, "pure"),
        ("rand<false>", rand(False), 0, "sequence"))]
