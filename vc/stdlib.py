"""Assumed contracts of the C++ standard library operations the repository uses.

Everything here is trusted: it is what [string.ops], [associative.reqmts], ... say, not what the
installed library does.  Lib.used records which of these contracts a proof relied on.
"""
import z3
from .frontend import T, INTS, typeof, Unsupported, parse_type, qualtype
from .values import *

NPOS = (1 << 64) - 1
LAST_INDEX = z3.Function("LAST_INDEX", z3.StringSort(), z3.StringSort(), z3.IntSort())
MAXLEN = 1 << 62


class CondVar:
    def __init__(self, label): self.label = label


class MutexV:
    """A mutex; who holds it is ghost state kept by the monitor hooks."""
    def __init__(self, label, kind): self.label, self.kind = label, kind


class GuardV:
    """lock_guard / unique_lock / shared_lock"""
    def __init__(self, lib, m, owned, shared=False):
        self.lib, self.m, self.owned, self.shared = lib, m, owned, shared


class SharedV:
    """shared_ptr/unique_ptr/weak_ptr: where it points, whether it is null."""
    def __init__(self, kind, target, null, ident=None, ctl=None):
        self.kind, self.target, self.null, self.ident, self.ctl = kind, target, null, ident, ctl


class ThreadV:
    def __init__(self, joinable, label, fn=None):
        self.joinable, self.label, self.fn = joinable, label, fn


class Regex:
    def __init__(self, pat): self.pat = pat


class Lib:
    def __init__(self, e):
        self.e = e
        self.used = set()
        self.ext = []     # extra handlers (modules of specs): objects with optional methods
        self.reset()

    def reset(self):
        self.enumc = 0
        for x in getattr(self, "ext", []):
            if hasattr(x, "reset"):
                x.reset()

    def note(self, s):
        self.used.add(s)

    def _ext(self, meth, *a):
        for x in self.ext:
            f = getattr(x, meth, None)
            if f:
                r = f(*a)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------ generic value services
    def sym(self, t, name):
        r = self._ext("sym", t, name)
        if r is not None:
            return r
        n = t.name
        if n == "std::atomic" or n in ("std::__atomic_base",):
            return self.e.sym(t.args[0], name)
        if n in ("std::atomic_bool",):
            return self.e.sym(T("bool"), name)
        if n in MUTEXES:
            return MutexV(name, n)
        if n in CONDVARS:
            return CondVar(name)
        if n == "std::function":
            return FnV("opaque", name=name, null=self.e.fresh(name + "_null", z3.BoolSort()))
        if n in ("std::stack", "std::queue", "std::list"):
            return self.e.sym(T("std::vector", t.args[:1]), name)
        if n == "std::pair":
            return PairV(self.e.sym(t.args[0], name + ".first"), self.e.sym(t.args[1], name + ".second"), *t.args[:2])
        if n in STREAMS:
            return StreamV(self.e.fresh(name, z3.StringSort()))
        return None

    def default(self, t, label):
        r = self._ext("default", t, label)
        if r is not None:
            return r
        n = t.name
        if n == "std::string":
            return self.str_const("")
        if n in ("std::vector", "std::deque", "std::list", "std::stack", "std::queue"):
            return Vec(z3.IntVal(0), None, t.args[0], [])
        if n in ("array", "std::array"):
            k = int(t.args[1].name)
            if k <= 64 and n == "std::array":
                return Vec(z3.IntVal(k), None, t.args[0], [self.e.sym(t.args[0], label + "[%d]" % i) for i in range(k)])
            if k <= 64:
                return Vec(z3.IntVal(k), None, t.args[0],
                           [self.e.default_value(t.args[0], label + "[%d]" % i) for i in range(k)])
        if n in ("std::set", "std::unordered_set"):
            return self.empty_set(t.args[0])
        if n in ("std::map", "std::unordered_map"):
            return self.empty_map(t.args[0], t.args[1])
        if n in ("std::atomic",):
            return self.e.sym(t.args[0], label)
        if n == "std::atomic_bool":
            return self.e.sym(T("bool"), label)
        if n in MUTEXES:
            return MutexV(label, n)
        if n in CONDVARS:
            return CondVar(label)
        if n == "std::function":
            return FnV("opaque", name=label, null=z3.BoolVal(True))
        if n in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            return SharedV(n[5:-4], None, z3.BoolVal(True))
        if n in STREAMS:
            return StreamV(z3.StringVal(""))
        if n == "std::pair":
            return PairV(self.e.default_value(t.args[0], label + ".first"),
                         self.e.default_value(t.args[1], label + ".second"), *t.args[:2])
        if n == "std::thread":
            return ThreadV(z3.BoolVal(False), label)
        if n in ("std::allocator", "std::less", "std::piecewise_construct_t"):
            return Opaque(t, label)
        if n.startswith("eprosima::fastdds"):
            return Opaque(t, label)
        return None

    def empty_set(self, kt):
        return SetV(z3.K(self.e.sort_of(kt), z3.BoolVal(False)), z3.IntVal(0), kt)

    def empty_map(self, kt, vt):
        ks, vs = self.e.sort_of(kt), self.e.sort_of(vt)
        return MapV(z3.K(ks, z3.BoolVal(False)), self.e.fresh("emptyval", z3.ArraySort(ks, vs)), z3.IntVal(0), kt, vt)

    def wf_assoc(self, s):
        ks = s.dom.sort().domain()
        self.e.assume(z3.And(s.n >= 0, s.n <= (1 << 60)))
        self.e.assume(z3.Implies(s.n == 0, s.dom == z3.K(ks, z3.BoolVal(False))))

    def truth(self, v):
        r = self._ext("truth", v)
        if r is not None:
            return r
        if isinstance(v, SharedV):
            return z3.Not(v.null)
        if isinstance(v, FnV):
            return z3.Not(v.null)
        return None

    def equal(self, a, b):
        r = self._ext("equal", a, b)
        if r is not None:
            return r
        if isinstance(a, IterV) and isinstance(b, IterV):
            return self.iter_eq(a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.vec_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SharedV, FnV)) and isinstance(y, Ptr) and y.target is None:
                return z3.And(x.null, y.null)
        if isinstance(a, SharedV) and isinstance(b, SharedV):
            if a.ident is not None and b.ident is not None:
                return a.ident == b.ident
            same = a.target is not None and b.target is not None and self.e.same_target(a.target, b.target)
            return z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), z3.BoolVal(same)))
        if isinstance(a, z3.ExprRef) and isinstance(b, Vec) or isinstance(b, z3.ExprRef) and isinstance(a, Vec):
            return None
        if isinstance(a, PairV) and isinstance(b, PairV):
            return z3.And(self.e.equal(a.a, b.a), self.e.equal(a.b, b.b))
        if isinstance(a, SetV) and isinstance(b, SetV):
            return a.dom == b.dom
        return None

    def vec_eq(self, a, b):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.e.equal(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        j = self.e.fresh("j", z3.IntSort())
        return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), self.at(a, j) == self.at(b, j))))

    def at(self, v, j):
        return v.select(j)

    def order(self, op, a, b):
        if isinstance(a, z3.SeqRef) and isinstance(b, z3.SeqRef):
            return {"<": a < b, "<=": a <= b, ">": b < a, ">=": b <= a}[op]
        if isinstance(a, IterV) and a.pos is not None and b.pos is not None:
            return {"<": a.pos < b.pos, "<=": a.pos <= b.pos, ">": a.pos > b.pos, ">=": a.pos >= b.pos}[op]
        return self._ext("order", op, a, b)

    def needs_dtor(self, v):
        if isinstance(v, Obj):
            return True
        if isinstance(v, GuardV):
            return True
        r = self._ext("needs_dtor", v)
        return bool(r)

    def destroy(self, v):
        if isinstance(v, GuardV):
            if v.owned:
                self.release(v.m, v.shared)
                v.owned = False
            return
        self._ext("destroy", v)

    def copy(self, v, move=False):
        r = self._ext("copy", v, move)
        if r is not None:
            return r
        if isinstance(v, StreamV):
            s = StreamV(v.s)
            s.width, s.fill, s.prec, s.fixed = v.width, v.fill, v.prec, v.fixed
            return s
        if isinstance(v, GuardV):
            g = GuardV(self, v.m, v.owned, v.shared)
            if move:
                v.owned = False
            return g
        if isinstance(v, Vec) and v.items is not None and any(isinstance(x, Obj) for x in v.items):
            return Vec(v.n, None, v.et, [self.e.copy_value(x, v.et, move) for x in v.items])
        return v

    def adopt(self, v, t):
        return v

    def assigned(self, lv, v):
        self._ext("assigned", lv, v)

    def moved_from(self, v):
        if isinstance(v, SharedV):
            return SharedV(v.kind, None, z3.BoolVal(True))
        return self._ext("moved_from", v)

    def havoc(self, c):
        v = c.v
        e = self.e
        base = "h_" + (c.name or "x")
        r = self._ext("havoc", c, base)
        if r is not None:
            return r
        if isinstance(v, z3.ExprRef):
            x = e.fresh(base, v.sort())
            if z3.is_int(v) and e.isint(c.t):
                lo, hi = e.range_of(e.int_t(c.t))
                e.assume(z3.And(x >= lo, x <= hi))
            if isinstance(x, z3.SeqRef):
                e.assume(z3.Length(x) <= MAXLEN)
            return x
        if isinstance(v, Vec):
            n = e.fresh(base + "_len", z3.IntSort())
            e.assume(z3.And(n >= 0, n <= MAXLEN))
            es = z3.IntSort() if v.et.name == "char" and e.intmode == "int" else e.sort_of(v.et)
            return Vec(n, e.fresh(base, z3.ArraySort(z3.IntSort(), es)), v.et)
        if isinstance(v, SetV):
            s = SetV(e.fresh(base + "_dom", v.dom.sort()), e.fresh(base + "_n", z3.IntSort()), v.kt)
            self.wf_assoc(s)
            return s
        if isinstance(v, MapV):
            s = MapV(e.fresh(base + "_dom", v.dom.sort()), e.fresh(base + "_val", v.val.sort()),
                     e.fresh(base + "_n", z3.IntSort()), v.kt, v.vt)
            self.wf_assoc(s)
            return s
        if isinstance(v, StreamV):
            s = StreamV(e.fresh(base, z3.StringSort()))
            s.width, s.fill, s.prec, s.fixed = v.width, v.fill, v.prec, v.fixed
            return s
        if isinstance(v, IterV):
            return self.havoc_iter(v, base)
        raise Unsupported("loop modifies %s, whose value (%s) cannot be abstracted" % (c.label, type(v).__name__))

    def havoc_iter(self, v, base):
        e = self.e
        cv = v.cont.get()
        if isinstance(cv, (SetV, MapV)):
            en = v.enum or self.enumerate(v.cont)
            p = e.fresh(base + "_pos", z3.IntSort())
            e.assume(z3.And(p >= 0, p <= cv.n))
            return self.assoc_iter(v.cont, en, p)
        p = e.fresh(base + "_pos", z3.IntSort())
        e.assume(z3.And(p >= 0, p <= self.length(cv)))
        return IterV(v.cont, p)

    # ------------------------------------------------------------ strings
    def str_const(self, s):
        if self.e.strmode == "arr":
            return Vec(z3.IntVal(len(s)), None, T("char"), [z3.IntVal(ord(c)) for c in s])
        return z3.StringVal(s)

    def length(self, v):
        if isinstance(v, Vec):
            return v.n
        if isinstance(v, (SetV, MapV)):
            return v.n
        if isinstance(v, z3.SeqRef):
            l = z3.Length(v)
            self.e.assume(l <= MAXLEN)
            return l
        raise Unsupported("size of %r" % (v,))

    def pos(self, i):
        return z3.If(i < 0, z3.IntVal(NPOS), i)

    def cut(self, s, p):
        """the parts of a concatenation before and from position p, if p is where a part of it begins"""
        if not (isinstance(s, z3.SeqRef) and z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT)):
            return None
        flat, todo = [], [s]
        while todo:
            x = todo.pop(0)
            if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
                todo = list(x.children()) + todo
            else:
                flat.append(x)
        at = z3.IntVal(0)
        for i, x in enumerate(flat):
            if i and const_int(z3.simplify(at - p)) == 0:
                return flat[:i], flat[i:]
            k = z3.Length(x)
            if z3.is_app_of(x, z3.Z3_OP_SEQ_EXTRACT) and const_int(x.arg(1)) == 0 and \
                    self.e.holds(z3.And(x.arg(2) >= 0, x.arg(2) <= z3.Length(x.arg(0)))):
                k = x.arg(2)
            at = at + k
        return None

    def clamp(self, k, p, L):
        """characters a (pos, count) pair of a string operation covers, 0 <= p <= L"""
        if const_int(k) == NPOS:
            return L - p
        if self.e.holds(k <= L - p):
            return k
        return z3.If(k <= L - p, k, L - p)

    def tostr(self, v, node=None):
        """string / const char* / char argument -> z3 string"""
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, z3.SeqRef):
            return v
        if z3.is_int(v):
            return self.e.char_to_str(v)
        if isinstance(v, Ptr) and isinstance(v.target, LV):
            x = v.target.get()
            if isinstance(x, z3.SeqRef):
                return x
            if isinstance(v.target, ElemLV) and const_int(v.target.idx) == 0:
                a = v.target.base.get()
                cs = [const_int(c) for c in a.items or []] if isinstance(a, Vec) else []
                if 0 in cs and None not in cs[:cs.index(0)]:        # an array of constant characters
                    return self.str_const("".join(chr(c % 256) for c in cs[:cs.index(0)]))
        if isinstance(v, StreamV):
            return v.s
        raise Unsupported("not a string: %r" % (v,), node)

    def text(self, args, n):
        """the text that several arguments of a method of std::string tell: a string, or a number of times a character"""
        if len(args) == 1:
            return self.tostr(args[0], n)
        if len(args) == 2 and z3.is_int(args[0]) and z3.is_int(args[1]):
            k = const_int(args[0])
            if k is not None and 0 <= k <= 16:
                c = self.e.char_to_str(args[1])
                return self.str_const("") if k == 0 else c if k == 1 else z3.Concat(*[c] * k)
        raise Unsupported("these arguments of a method of std::string", n)

    def throw_std(self, name):
        from .interp import CppThrow
        t = T("std::" + name)
        raise CppThrow(t, Opaque(t))

    def last_index(self, s, t):
        """where the last of these single characters is, or -1"""
        r = LAST_INDEX(s, t)
        self.e.assume(z3.And(r >= -1, z3.Or(z3.And(r == -1, z3.Not(z3.Contains(s, t))),
                                            z3.And(r < z3.Length(s), z3.SubString(s, r, 1) == t, z3.Not(z3.Contains(z3.SubString(s, r + 1, z3.Length(s) - r - 1), t))))))
        return r

    def rfind(self, s, t, pos):
        e = self.e
        if const_int(pos) == 0:
            return z3.If(z3.PrefixOf(t, s), z3.IntVal(0), z3.IntVal(NPOS))
        r = e.fresh("rfind", z3.IntSort())
        L, M = z3.Length(s), z3.Length(t)
        if const_int(pos) == NPOS:
            e.assume(z3.Or(z3.And(r == -1, z3.Not(z3.Contains(s, t))),
                           z3.And(r >= 0, r + M <= L, z3.SubString(s, r, M) == t,
                                  z3.Or(r + M == L, z3.Not(z3.Contains(z3.SubString(s, r + 1, L - r - 1), t))))))
            # an occurrence at the very end is the last one (consequence, helps the solvers)
            e.assume(z3.Implies(z3.SuffixOf(t, s), r == L - M))
            e.assume(z3.Implies(r + M == L, z3.SuffixOf(t, s)))
        else:
            e.assume(z3.Or(z3.And(r == -1, z3.Not(z3.Contains(z3.SubString(s, 0, pos + M), t))),
                           z3.And(r >= 0, r <= pos, r + M <= L, z3.SubString(s, r, M) == t,
                                  z3.Not(z3.Contains(z3.SubString(s, r + 1, pos + M - r - 1), t)))))
        return self.pos(r)

    whole_c_strings = False     # set where the properties assume strings without null characters

    def c_string(self, s):
        """what a C string shows of a string: up to its first null character"""
        if z3.is_string_value(s) or self.whole_c_strings:
            return s
        z = z3.StringVal("\0")
        return z3.If(z3.Contains(s, z), z3.SubString(s, 0, z3.IndexOf(s, z, 0)), s)

    def string_method(self, base, s, name, argn, n):
        e = self.e
        args = [a.get() if isinstance(a, LV) else a for a in e.args_of(argn)]
        self.note("std::string::" + name)
        if isinstance(s, Vec):
            return self.vec_method(base, s, name, args, n, True)
        if len(args) > {"find": 2, "rfind": 2, "find_first_of": 2, "find_last_of": 2, "compare": 3, "operator=": 1,
                        "assign": 1}.get(name, 9):
            raise Unsupported("std::string::%s with %d arguments" % (name, len(args)), n)
        if name in ("size", "length"):
            return self.length(s)
        if name == "empty":
            return z3.Length(s) == 0
        if name == "c_str":
            return self.c_string(s)
        if name in ("operator=", "assign"):
            base.set(self.tostr(args[0], n))
            return base
        if name == "data":
            return s
        if name == "find":
            t = self.tostr(args[0], n)
            p = args[1] if len(args) > 1 else z3.IntVal(0)
            if const_int(p) is None:
                # z3's index must not be negative; size_t never is
                pass
            i = z3.IndexOf(s, t, p)
            e.assume(z3.Length(s) <= MAXLEN)
            return self.pos(i)
        if name == "rfind":
            t = self.tostr(args[0], n)
            p = args[1] if len(args) > 1 else z3.IntVal(NPOS)
            e.assume(z3.Length(s) <= MAXLEN)
            return self.rfind(s, t, p)
        if name in ("find_first_of", "find_last_of"):
            t = self.tostr(args[0], n)
            if not (z3.is_string_value(t) and len(t.as_string()) == 1 or z3.is_int(args[0])):
                raise Unsupported("std::string::%s of several characters" % name, n)
            e.assume(z3.Length(s) <= MAXLEN)
            if name == "find_first_of":
                return self.pos(z3.IndexOf(s, t, args[1] if len(args) > 1 else z3.IntVal(0)))
            if len(args) > 1:
                return self.rfind(s, t, args[1])
            return self.pos(self.last_index(s, t))
        if name == "substr":
            p = args[0] if args else z3.IntVal(0)
            k = args[1] if len(args) > 1 else z3.IntVal(NPOS)
            L = self.length(s)
            if e.branch(p > L, n):
                self.throw_std("out_of_range")
            return z3.SubString(s, p, self.clamp(k, p, L))
        if name == "replace":
            if isinstance(args[0], IterV):
                raise Unsupported("string::replace with iterators", n)
            p, k, t = args[0], args[1], self.text(args[2:], n)
            L = self.length(s)
            if e.branch(p > L, n):
                self.throw_std("out_of_range")
            kk = self.clamp(k, p, L)
            base.set(z3.Concat(z3.SubString(s, 0, p), t, z3.SubString(s, p + kk, L - p - kk)))
            return base
        if name == "erase":
            if args and isinstance(args[0], IterV):
                p, L = args[0].pos, self.length(s)
                q = args[1].pos if len(args) > 1 else p + 1
                e.prove("the erased characters are in the string", z3.And(p >= 0, p <= q, q <= L), n, "safety")
                e.assume(z3.And(p >= 0, p <= q, q <= L))
                base.set(z3.Concat(z3.SubString(s, 0, p), z3.SubString(s, q, L - q)))
                return IterV(base, p)
            p = args[0] if args else z3.IntVal(0)
            k = args[1] if len(args) > 1 else z3.IntVal(NPOS)
            L = self.length(s)
            if e.branch(p > L, n):
                self.throw_std("out_of_range")
            kk = self.clamp(k, p, L)
            base.set(z3.Concat(z3.SubString(s, 0, p), z3.SubString(s, p + kk, L - p - kk)))
            return base
        if name == "insert":
            if isinstance(args[0], IterV):
                p, L = args[0].pos, self.length(s)
                if len(args) != 2 or not z3.is_int(args[1]):
                    raise Unsupported("string::insert with iterators", n)
                e.prove("the character is inserted in the string", z3.And(p >= 0, p <= L), n, "safety")
                e.assume(z3.And(p >= 0, p <= L))
                base.set(z3.Concat(z3.SubString(s, 0, p), e.char_to_str(args[1]), z3.SubString(s, p, L - p)))
                return IterV(base, p)
            p, t = args[0], self.text(args[1:], n)
            L = self.length(s)
            if e.branch(p > L, n):
                self.throw_std("out_of_range")
            at = self.cut(s, p)
            base.set(z3.Concat(*at[0], t, *at[1]) if at else z3.Concat(z3.SubString(s, 0, p), t, z3.SubString(s, p, L - p)))
            return base
        if name == "append" or name == "operator+=":
            base.set(z3.Concat(s, self.text(args, n)))
            return base
        if name == "push_back":
            base.set(z3.Concat(s, e.char_to_str(args[0])))
            return None
        if name == "pop_back":
            e.prove("string not empty at pop_back", z3.Length(s) > 0, n, "safety")
            e.assume(z3.Length(s) > 0)
            base.set(z3.SubString(s, 0, z3.Length(s) - 1))
            return None
        if name == "clear":
            base.set(z3.StringVal(""))
            return None
        if name in ("back", "front"):
            e.prove("string not empty at %s()" % name, z3.Length(s) > 0, n, "safety")
            e.assume(z3.Length(s) > 0)
            return StrCharLV(e, base, z3.IntVal(0) if name == "front" else z3.Length(s) - 1)
        if name == "at":
            if e.branch(args[0] >= z3.Length(s), n):
                self.throw_std("out_of_range")
            return StrCharLV(e, base, args[0])
        if name == "compare":
            if len(args) == 1:
                t = self.tostr(args[0], n)
                r = e.fresh("cmp", z3.IntSort())
                e.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r == 0) == (s == t)))
                return r
            if len(args) == 3:
                p, k, t = args[0], args[1], self.tostr(args[2], n)
                L = self.length(s)
                if e.branch(p > L, n):
                    self.throw_std("out_of_range")
                r = e.fresh("cmp", z3.IntSort())
                sub = z3.SubString(s, p, self.clamp(k, p, L))
                e.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r == 0) == (sub == t)))
                return r
        if name == "reserve" or name == "shrink_to_fit":
            return None
        if name in ("begin", "cbegin"):
            return IterV(base, z3.IntVal(0))
        if name in ("end", "cend"):
            return IterV(base, self.length(s))
        if name == "swap":
            raise Unsupported("string::swap", n)
        if name == "starts_with":
            return z3.PrefixOf(self.tostr(args[0], n), s)
        if name == "ends_with":
            return z3.SuffixOf(self.tostr(args[0], n), s)
        raise Unsupported("std::string::" + name, n)

    # ------------------------------------------------------------ sequences
    def vec_method(self, base, v, name, args, n, isstr=False):
        e = self.e
        if name in ("size", "length"):
            return v.n
        if name == "empty":
            return v.n == 0
        if name in ("push_back", "emplace_back", "push", "emplace"):
            x = args[0] if args else e.default_value(v.et, "elem")
            if isinstance(x, LV):
                x = x.get()
            if name in ("emplace_back", "emplace"):
                if args and isinstance(args[0], IterV):
                    raise Unsupported("emplace at a position", n)
                y = self._ext("emplace", v.et, args, n)
                if y is None and len(args) > 1:
                    raise Unsupported("emplace from several arguments", n)
                x = x if y is None else y
            h = e.hooks.get("push_back")
            if h:
                h(base, v, x)
            base.set(self.vpush(v, x))
            return None if name in ("push_back", "push") else None
        if name in ("pop_back", "pop", "pop_front"):
            e.prove("container not empty at %s()" % name, v.n > 0, n, "safety")
            e.assume(v.n > 0)
            if "remove" in e.hooks:
                e.hooks["remove"](base, v, name)
            if name == "pop_back" or (name == "pop" and self.is_stack(n)):
                if v.items is not None:
                    base.set(Vec(z3.IntVal(len(v.items) - 1), None, v.et, v.items[:-1]))
                else:
                    base.set(Vec(v.n - 1, v.arr, v.et))
            else:
                if v.items is not None:
                    base.set(Vec(z3.IntVal(len(v.items) - 1), None, v.et, v.items[1:]))
                else:
                    na = e.fresh("shift", v.arr.sort())
                    j = e.fresh("j", z3.IntSort())
                    e.assume(z3.ForAll([j], z3.Select(na, j) == z3.Select(v.arr, j + 1),
                                       patterns=[z3.Select(na, j)]))
                    base.set(Vec(v.n - 1, na, v.et))
            return None
        if name == "clear":
            if "clear" in e.hooks:
                e.hooks["clear"](base, v)
            base.set(Vec(z3.IntVal(0), None, v.et, []))
            return None
        if name in ("back", "front", "top"):
            e.prove("container not empty at %s()" % name, v.n > 0, n, "safety")
            e.assume(v.n > 0)
            i = z3.IntVal(0) if name == "front" else z3.simplify(v.n - 1)
            return ElemLV(base, i, v.et)
        if name == "at":
            if e.branch(z3.Or(args[0] < 0, args[0] >= v.n), n):
                self.throw_std("out_of_range")
            return ElemLV(base, args[0], v.et)
        if name in ("begin", "cbegin"):
            return IterV(base, z3.IntVal(0))
        if name in ("end", "cend"):
            return IterV(base, v.n)
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "insert" and len(args) == 3 and all(isinstance(a, IterV) for a in args):
            pos, b, en = args
            src = b.cont.get()
            if e.holds(pos.pos == v.n) and e.holds(z3.And(b.pos == 0, en.pos == src.n)):
                h = e.hooks.get("append")
                if h:
                    h(base, v, src)
                w = self.vappend(v, src)
                base.set(w)
                if e.hooks.get("appended"):
                    e.hooks["appended"](v, src, w)
                return IterV(base, v.n)
        if name == "assign" and len(args) == 2 and isinstance(args[0], IterV):
            src = args[0].cont.get()
            if e.holds(z3.And(args[0].pos == 0, args[1].pos == src.n)):
                base.set(src)
                return None
        if name == "resize" and len(args) == 1:
            k = const_int(args[0])
            if k is not None and k <= 64 and v.items is not None:
                base.set(Vec(z3.IntVal(k), None, v.et, (v.items + [e.default_value(v.et, "r%d" % i) for i in
                                                                  range(k)])[:k]))
                return None
        if name == "data":
            return Ptr(ElemLV(base, z3.IntVal(0), v.et))
        if name == "erase" and len(args) == 1 and isinstance(args[0], IterV):
            i = args[0].pos
            e.prove("erase position valid", z3.And(i >= 0, i < v.n), n, "safety")
            e.assume(z3.And(i >= 0, i < v.n))
            if "remove" in e.hooks:
                e.hooks["remove"](base, v, name)
            ci = const_int(i)
            if v.items is not None and ci is not None:
                base.set(Vec(z3.IntVal(len(v.items) - 1), None, v.et, v.items[:ci] + v.items[ci + 1:]))
                return IterV(base, i)
            v = self.symarr(v)
            na = e.fresh("erased", v.arr.sort())
            j = e.fresh("j", z3.IntSort())
            e.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < i, z3.Select(v.arr, j), z3.Select(v.arr, j + 1)),
                               patterns=[z3.Select(na, j)]))
            base.set(Vec(v.n - 1, na, v.et))
            return IterV(base, i)
        raise Unsupported("sequence operation " + name, n)

    def is_stack(self, n):
        m = n["inner"][0]
        return typeof(m["inner"][0]).name == "std::stack"

    def symarr(self, v):
        """concrete list -> array form"""
        if v.items is None:
            return v
        e = self.e
        es = z3.IntSort() if v.et.name == "char" and e.intmode == "int" else e.sort_of(v.et)
        a = e.fresh("arr", z3.ArraySort(z3.IntSort(), es))
        for i, x in enumerate(v.items):
            if not isinstance(x, z3.ExprRef):
                raise Unsupported("sequence of %s has no array form" % type(x).__name__)
            a = z3.Store(a, i, x)
        return Vec(v.n, a, v.et)

    def vpush(self, v, x):
        if v.items is not None and len(v.items) > 300:
            v = self.symarr(v)
        if v.items is None and not isinstance(x, z3.ExprRef):
            raise Unsupported("push of %r into an abstract sequence" % (x,))
        return v.push(x)

    def vappend(self, v, src):
        e = self.e
        if v.items is not None and src.items is not None:
            return Vec(z3.IntVal(len(v.items) + len(src.items)), None, v.et, v.items + src.items)
        if v.items is not None and not v.items:
            return src
        v, src = self.symarr(v), self.symarr(src)
        na = e.fresh("cat", v.arr.sort())
        j = e.fresh("j", z3.IntSort())
        e.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < v.n, z3.Select(v.arr, j), z3.Select(src.arr, j - v.n)),
                           patterns=[z3.Select(na, j)]))
        return Vec(v.n + src.n, na, v.et)

    # ------------------------------------------------------------ associative
    def enumerate(self, lv):
        e = self.e
        v = lv.get()
        if v.enum is not None:
            return v.enum
        ks = v.dom.sort().domain()
        lit = self.literal_order(v)
        if lit is not None:
            # known elements: their order is known too
            E, idx = z3.K(z3.IntSort(), lit[0]), z3.Function(e.fresh_name("idx"), ks, z3.IntSort())
            for i, k in enumerate(lit):
                E = z3.Store(E, i, k)
                e.assume(idx(k) == i)
            v.enum = (E, idx, v)
            return v.enum
        E = e.fresh("enum", z3.ArraySort(z3.IntSort(), ks))
        idx = z3.Function(e.fresh_name("idx"), ks, z3.IntSort())
        i = e.fresh("i", z3.IntSort())
        k = e.fresh("k", ks)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), z3.And(v.has(E[i]), idx(E[i]) == i)),
                           patterns=[E[i]]))
        e.assume(z3.ForAll([k], z3.Implies(v.has(k), z3.And(0 <= idx(k), idx(k) < v.n, E[idx(k)] == k)),
                           patterns=[idx(k)]))
        e.assume(z3.ForAll([k], z3.Implies(v.has(k), z3.And(0 <= idx(k), idx(k) < v.n, E[idx(k)] == k)),
                           patterns=[v.dom[k]]))
        v.enum = (E, idx, v)
        self.note("iteration over an associative container visits every element exactly once, in some order")
        return v.enum

    def literal_order(self, v):
        """the keys of a map or set built from distinct constants, in order"""
        lit = getattr(v, "lit", None)
        if not lit:
            return None
        ks = [z3.simplify(k[0]) for k in lit]
        if all(z3.is_string_value(k) for k in ks):
            ks.sort(key=lambda k: k.as_string())
        elif all(z3.is_int_value(k) or z3.is_bv_value(k) for k in ks) and all(
                not z3.is_bv(k) or not INTS.get(v.kt.name, (0, True))[1] for k in ks):
            ks.sort(key=lambda k: k.as_long())
        else:
            return None
        if any(a.eq(b) for a, b in zip(ks, ks[1:])):
            return None
        return ks

    def assoc_iter(self, cont, en, p):
        E, idx, v = en
        return IterV(cont, p, z3.Select(E, p), p >= v.n, en)

    def iter_eq(self, a, b):
        if a.pos is not None and b.pos is not None and a.key is None and b.key is None:
            return a.pos == b.pos
        if a.end is not None and b.end is not None:
            return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))
        raise Unsupported("iterator comparison")

    def assoc_find(self, base, v, k):
        e = self.e
        e.assume(z3.Implies(v.has(k), v.n >= 1))
        return IterV(base, None, k, z3.Not(v.has(k)))

    def with_key(self, v, k, present):
        n2 = z3.If(v.has(k), v.n, v.n + 1) if present else z3.If(v.has(k), v.n - 1, v.n)
        n2 = z3.simplify(n2)
        d2 = z3.Store(v.dom, k, z3.BoolVal(present))
        if isinstance(v, SetV):
            return SetV(d2, n2, v.kt)
        return MapV(d2, v.val, n2, v.kt, v.vt)

    def key_of(self, x):
        if isinstance(x, LV):
            x = x.get()
        if not isinstance(x, z3.ExprRef):
            r = self._ext("key", x)
            if r is not None:
                return r
            raise Unsupported("key %r" % (x,))
        return x

    def box(self, x, t):
        """value -> term of sort_of(t)"""
        if isinstance(x, LV):
            x = x.get()
        if isinstance(x, z3.ExprRef):
            return x
        r = self._ext("box", x, t)
        if r is not None:
            return r
        raise Unsupported("value %r has no term form" % (x,))

    def assoc_method(self, base, v, name, argn, n):
        e = self.e
        self.note("std::map/std::set::" + name)
        if name in ("size",):
            return v.n
        if name == "empty":
            return v.n == 0
        if name in ("begin", "cbegin"):
            en = self.enumerate(base)
            return self.assoc_iter(base, en, z3.IntVal(0))
        if name in ("end", "cend"):
            ks = v.dom.sort().domain()
            return IterV(base, v.n, e.fresh("endkey", ks), z3.BoolVal(True))
        if name == "clear":
            base.set(self.empty_set(v.kt) if isinstance(v, SetV) else self.empty_map(v.kt, v.vt))
            return None
        args = e.args_of(argn)
        if name == "swap" and isinstance(args[0], LV) and not any(h in e.hooks for h in ("map_insert", "remove", "clear")):
            w = args[0].get()
            args[0].set(base.get())
            base.set(w)
            return None
        args = [a.get() if isinstance(a, LV) else a for a in args]
        if name == "find":
            return self.assoc_find(base, v, self.key_of(args[0]))
        if name in ("count", "contains"):
            k = self.key_of(args[0])
            e.assume(z3.Implies(v.has(k), v.n >= 1))
            return z3.If(v.has(k), z3.IntVal(1), z3.IntVal(0)) if name == "count" else v.has(k)
        if name == "at":
            k = self.key_of(args[0])
            if e.branch(z3.Not(v.has(k)), n):
                self.throw_std("out_of_range")
            return ElemLV(base, k, v.vt)
        if name == "erase":
            if isinstance(args[0], IterV):
                it = args[0]
                e.prove("erase of a valid iterator", z3.Not(it.end), n, "safety")
                e.assume(z3.Not(it.end))
                e.assume(z3.Implies(v.has(it.key), v.n >= 1))
                if it.enum is not None and it.enum[2] is v:
                    # successor of the erased element, in the same order
                    E, idx, _ = it.enum
                    p = it.pos if it.pos is not None else idx(it.key)
                    nk, nend = z3.Select(E, p + 1), p + 1 >= v.n
                else:
                    nk, nend = e.fresh("nextkey", v.dom.sort().domain()), e.fresh("nextend", z3.BoolSort())
                base.set(self.with_key(v, it.key, False))
                return IterV(base, None, nk, nend)
            k = self.key_of(args[0])
            e.assume(z3.Implies(v.has(k), v.n >= 1))
            r = z3.If(v.has(k), z3.IntVal(1), z3.IntVal(0))
            base.set(self.with_key(v, k, False))
            return r
        if name in ("insert", "emplace"):
            x = args[0]
            if len(args) == 2 and isinstance(args[0], IterV) and isinstance(args[1], IterV):
                raise Unsupported("range insert", n)
            if isinstance(v, SetV):
                k = self.key_of(x)
                present = v.has(k)
                base.set(self.with_key(v, k, True))
                return PairV(IterV(base, None, k, z3.BoolVal(False)), z3.Not(present))
            if len(args) == 2:
                x = PairV(args[0], args[1])
            if isinstance(x, PairV):
                k = self.key_of(x.a)
                present = v.has(k)
                val = self.box(x.b, v.vt)
                nv = self.with_key(v, k, True)
                nv.val = z3.If(present, v.val, z3.Store(v.val, k, val))
                h = e.hooks.get("map_insert")
                base.set(nv)
                return PairV(IterV(base, None, k, z3.BoolVal(False)), z3.Not(present))
        if name == "insert_or_assign":
            k, val = self.key_of(args[0]), self.box(args[1], v.vt)
            present = v.has(k)
            nv = self.with_key(v, k, True)
            nv.val = z3.Store(v.val, k, val)
            base.set(nv)
            return PairV(IterV(base, None, k, z3.BoolVal(False)), z3.Not(present))
        raise Unsupported("associative operation " + name, n)

    # ------------------------------------------------------------ locks (hooks decide what holding means)
    def acquire(self, m, shared=False, n=None):
        h = self.e.hooks.get("acquire")
        if h:
            h(m, shared, n)

    def release(self, m, shared=False, n=None):
        h = self.e.hooks.get("release")
        if h:
            h(m, shared, n)

    # ------------------------------------------------------------ dispatch: methods
    def method(self, base, o, name, argn, n, bt):
        e = self.e
        r = self._ext("method", base, o, name, argn, n, bt)
        if r is not None:
            return r if r is not NONE else None
        if name == "operator=" and isinstance(o, z3.ExprRef) and e.opaque_record(bt) and len(argn) == 1:
            src = e.ev(argn[0])
            v = src.get() if isinstance(src, LV) else src
            if argn[0].get("valueCategory") != "lvalue" and isinstance(src, LV) and src.root() is not base.root():
                mv = self.moved_from(v)
                if mv is not None:
                    src.set(mv)
            base.set(v)
            return base
        if isinstance(o, z3.SeqRef) or (isinstance(o, Vec) and o.et.name == "char" and bt.name == "std::string"):
            return self.string_method(base, o, name, argn, n)
        if isinstance(o, Vec):
            self.note("%s::%s" % (bt.name, name))
            args = e.args_of(argn)
            if name == "swap" and len(args) == 1 and isinstance(args[0], LV):
                w = args[0].get()
                args[0].set(o)
                if isinstance(base, TempLV):
                    base.v = w
                elif isinstance(base, LV):
                    base.set(w)
                return None
            args = [a.get() if isinstance(a, LV) else a for a in args]
            return self.vec_method(base, o, name, args, n)
        if isinstance(o, (SetV, MapV)):
            return self.assoc_method(base, o, name, argn, n)
        if isinstance(o, MutexV):
            self.note(o.kind)
            if name in ("lock", "lock_shared"):
                self.acquire(o, name == "lock_shared", n)
                return None
            if name in ("unlock", "unlock_shared"):
                self.release(o, name == "unlock_shared", n)
                return None
            if name in ("try_lock", "try_lock_shared"):
                b = e.fresh("try_lock", z3.BoolSort())
                if e.branch(b, n):
                    self.acquire(o, name.endswith("shared"), n)
                return b
        if isinstance(o, GuardV):
            if name == "unlock":
                e.prove("unlock of an owned lock", z3.BoolVal(o.owned), n, "safety")
                self.release(o.m, o.shared, n)
                o.owned = False
                return None
            if name == "lock":
                e.prove("lock of a lock not owned", z3.BoolVal(not o.owned), n, "safety")
                self.acquire(o.m, o.shared, n)
                o.owned = True
                return None
            if name == "owns_lock":
                return z3.BoolVal(o.owned)
        if isinstance(o, CondVar):
            h = e.hooks.get("condvar")
            if h:
                self.note("std::condition_variable (monitor contract)")
                return h(o, name, argn, n)
        if bt.name in ATOMICS or self.is_atomic(n):
            return self.atomic_method(base, o, name, argn, n)
        if isinstance(o, SharedV):
            return self.smart_method(base, o, name, argn, n)
        if isinstance(o, StreamV):
            args = [a.get() if isinstance(a, LV) else a for a in e.args_of(argn)]
            if name == "str":
                if args:
                    o2 = StreamV(self.tostr(args[0]))
                    base.set(o2)
                    return None
                return o.s
            if name == "flush" or name == "rdbuf":
                return base
            if name == "precision" or name == "width":
                raise Unsupported("stream " + name, n)
        if isinstance(o, FnV):
            if name == "operator bool":
                return z3.Not(o.null)
            if name == "operator()":
                return e.invoke(o, e.args_of(argn), n)
        if isinstance(o, IterV):
            if name == "operator->":
                return o
        if isinstance(o, z3.ExprRef) and name.startswith("operator "):
            return o
        raise Unsupported("method %s of %s" % (name, bt), n)

    def is_atomic(self, n):
        m = n["inner"][0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        b = m["inner"][0]
        while True:
            if typeof(b).name in ATOMICS:
                return True
            if b["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                b = b["inner"][0]
                continue
            return False

    def atomic_method(self, base, o, name, argn, n):
        e = self.e
        self.note("std::atomic (sequentially consistent)")
        t = typeof(n["inner"][0]["inner"][0])
        while t.name not in ATOMICS:
            b = n["inner"][0]["inner"][0]
            while b["kind"] in ("ImplicitCastExpr", "ParenExpr") and typeof(b).name not in ATOMICS:
                b = b["inner"][0]
            t = typeof(b)
            break
        et = T("bool") if t.name == "std::atomic_bool" else (t.args[0] if t.args else T("int"))
        h = e.hooks.get("atomic")
        if h:
            r = h(base, o, name, argn, n, et)
            if r is not None:
                return r
        cur = base.get()
        if name == "load" or name.startswith("operator ") or name.startswith("operator bool"):
            return cur
        if name == "store" or name == "operator=":
            v = e.rv(argn[0])
            base.set(v)
            return v if name == "operator=" else None
        if name == "exchange":
            v = e.rv(argn[0])
            base.set(v)
            return cur
        if name in ("fetch_add", "fetch_sub", "operator++", "operator--", "operator+=", "operator-="):
            k = e.rv(argn[0]) if argn and argn[0]["kind"] != "CXXDefaultArgExpr" and name[:5] == "fetch" or \
                name in ("operator+=", "operator-=") else e.mkint(1, et)
            op = "+" if name in ("fetch_add", "operator++", "operator+=") else "-"
            it = e.int_t(et)
            new = e.wrap(cur + k if op == "+" else cur - k, it) if e.intmode == "int" else \
                (cur + k if op == "+" else cur - k)
            base.set(new)
            if name.startswith("fetch") or (name in ("operator++", "operator--") and argn):
                return cur
            return new
        if name in ("compare_exchange_strong", "compare_exchange_weak"):
            exp = e.ev(argn[0])
            des = e.rv(argn[1])
            if e.branch(e.equal(cur, exp.get()), n):
                base.set(des)
                return z3.BoolVal(True)
            exp.set(cur)
            return z3.BoolVal(False)
        raise Unsupported("atomic " + name, n)

    def smart_method(self, base, o, name, argn, n):
        e = self.e
        self.note("std::%s_ptr::%s" % (o.kind, name))
        if name == "get":
            return Ptr(o.target, o.null, o.ident)
        if name == "operator->":
            return Ptr(o.target, o.null, o.ident)
        if name == "operator bool":
            return z3.Not(o.null)
        if name == "operator*" and not argn:
            return self.deref(o, n)
        if name == "reset":
            args = e.args_of(argn)
            if args:
                p = args[0].get() if isinstance(args[0], LV) else args[0]
                nv = SharedV(o.kind, p.target, p.null, p.ident)
            else:
                nv = SharedV(o.kind, None, z3.BoolVal(True))
            self.assigned(base, nv)
            base.set(nv)
            return None
        if name == "release" and o.kind == "unique":
            base.set(SharedV(o.kind, None, z3.BoolVal(True)))
            return Ptr(o.target, o.null, o.ident)
        if name == "operator=" and len(argn) == 1:
            src = e.ev(argn[0])
            v = src.get() if isinstance(src, LV) else src
            if isinstance(v, Ptr) and v.target is None:
                v = SharedV(o.kind, None, z3.BoolVal(True))
            if isinstance(v, SharedV):
                v = SharedV(o.kind, v.target, v.null, v.ident, v.ctl)
                move = argn[0].get("valueCategory") != "lvalue"
                if move and isinstance(src, LV) and src.root() is not base.root():
                    src.set(SharedV(o.kind, None, z3.BoolVal(True)))
                self.assigned(base, v)
                base.set(v)
                return base
        if name in ("swap",):
            other = e.ev(argn[0])
            ov = other.get()
            other.set(o)
            base.set(ov)
            return None
        raise Unsupported("smart pointer " + name, n)

    def bases_of(self, rec):
        """a class and those of the repository that it derives from"""
        out, todo = [], [rec]
        while todo:
            r = todo.pop()
            if r is not None and r not in out:
                out.append(r)
                todo += [self.e.base_rec(b) for b in r.get("bases", [])]
        return out

    def obj_base_call(self, o, base, name, n):
        r = self._ext("obj_base_call", o, base, name, n)
        if r is not None:
            return r if r is not NONE else None
        if name == "operator=" and any("std::exception" in (b.get("qualType") or b["type"]["qualType"]) for r in self.bases_of(o.rec) for b in r.get("bases", [])):
            return base
        raise Unsupported("call of %s on a library base of %s" % (name, o.rec.get("name")), n)

    def init_base(self, obj, t, e):
        if t.name.startswith("std::enable_shared_from_this") or t.name == "std::exception":
            return None
        r = self._ext("init_base", obj, t, e)
        if r is not None:
            return None
        raise Unsupported("library base class %r" % t, e)

    # ------------------------------------------------------------ members, dereference, pointers
    def member(self, base, o, n):
        name = n.get("name")
        if isinstance(base, PairElem):
            return base.member(name)
        if isinstance(o, PairV) and name in ("first", "second"):
            return FieldLV(base if isinstance(base, LV) else TempLV(o, None), name)
        if isinstance(o, Ptr) and isinstance(o.target, PairElem):
            return o.target.member(name)
        if isinstance(base, PairElem):
            return base.member(name)
        return self._ext("member", base, o, n)

    def deref(self, p, n):
        e = self.e
        if isinstance(p, IterV):
            return self.iter_deref(p, n)
        if isinstance(p, SharedV):
            e.prove("no null dereference", z3.Not(p.null), n, "safety")
            e.assume(z3.Not(p.null))
            if p.target is None:
                h = e.hooks.get("deref")
                r = h(p, n) if h else None
                if r is not None:
                    return r
                raise Unsupported("dereference of a pointer of unknown target", n)
            return p.target if isinstance(p.target, LV) else TempLV(p.target, None)
        if isinstance(p, z3.SeqRef):
            return StrCharLV(e, TempLV(p, T("std::string")), z3.IntVal(0))
        return self._ext("deref", p, n)

    def iter_deref(self, it, n):
        e = self.e
        if it.end is not None:
            e.prove("dereference of a valid iterator", z3.Not(it.end), n, "safety")
            e.assume(z3.Not(it.end))
            cv = it.cont.get()
            # an iterator that is not at the end designates an element
            if it.enum is None or it.enum[2] is not cv:
                e.prove("iterator designates an element", cv.has(it.key), n, "safety")
                e.assume(cv.has(it.key))
            if isinstance(cv, SetV):
                return TempLV(it.key, cv.kt)
            return PairElem(it.cont, it.key, cv)
        v = it.cont.get()
        L = self.length(v)
        e.prove("iterator in range", z3.And(it.pos >= 0, it.pos < L), n, "safety")
        e.assume(z3.And(it.pos >= 0, it.pos < L))
        if isinstance(v, z3.SeqRef):
            return StrCharLV(e, it.cont, it.pos)
        return ElemLV(it.cont, it.pos, v.et)

    def decay(self, v, sub):
        if isinstance(v, LV):
            x = v.get()
            if isinstance(x, z3.SeqRef):
                return x
            if isinstance(x, Vec):
                return Ptr(ElemLV(v, z3.IntVal(0), x.et))
        return v

    def ptr_arith(self, op, a, b, n):
        if isinstance(a, IterV) and isinstance(b, z3.ExprRef) and a.key is None:
            return IterV(a.cont, a.pos + b if op == "+" else a.pos - b)
        if isinstance(a, IterV) and isinstance(b, IterV) and op == "-" and a.key is None:
            return a.pos - b.pos
        if isinstance(a, Ptr) and isinstance(a.target, ElemLV) and isinstance(b, z3.ExprRef):
            return Ptr(ElemLV(a.target.base, a.target.idx + b if op == "+" else a.target.idx - b, a.target.t))
        raise Unsupported("pointer arithmetic", n)

    def subscript_ptr(self, p, i, n):
        e = self.e
        if isinstance(p, z3.SeqRef):
            e.prove("index within the C string", z3.And(i >= 0, i <= z3.Length(p)), n, "safety")
            return StrCharLV(e, TempLV(p, T("std::string")), i)
        if isinstance(p, Vec):
            e.prove("index in range", z3.And(i >= 0, i <= p.n), n, "safety")
            e.assume(z3.And(i >= 0, i <= p.n))
            return TempLV(self.selnul(p, i), p.et)
        if isinstance(p, Ptr) and isinstance(p.target, ElemLV):
            v = p.target.base.get()
            j = z3.simplify(p.target.idx + i)
            e.prove("index in range", z3.And(j >= 0, j < v.n), n, "safety")
            e.assume(z3.And(j >= 0, j < v.n))
            return ElemLV(p.target.base, j, p.target.t)
        raise Unsupported("subscript", n)

    def selnul(self, p, i):
        if p.items is not None and p.et.name == "char":
            return Vec(None, None, p.et, p.items + [z3.IntVal(0)]).select(i)
        return p.select(i)

    def incr(self, lv, old, op, n):
        e = self.e
        if isinstance(old, IterV):
            new = self.iter_step(old, 1 if op == "++" else -1, n)
            lv.set(new)
            return new
        if isinstance(old, Ptr) and isinstance(old.target, ElemLV):
            new = self.ptr_arith(op[0], old, z3.IntVal(1), n)
            lv.set(new)
            return new
        raise Unsupported("increment of %r" % (old,), n)

    def iter_step(self, it, d, n):
        e = self.e
        if it.end is not None:
            cv = it.cont.get()
            en = it.enum
            if en is None or en[2] is not cv:
                en = self.enumerate(it.cont)
                p = z3.If(it.end, cv.n, en[1](it.key))
            else:
                p = it.pos
            if d > 0:
                e.prove("increment of a valid iterator", z3.Not(it.end), n, "safety")
                e.assume(z3.Not(it.end))
            else:
                e.prove("decrement of a valid iterator", p > 0, n, "safety")
                e.assume(p > 0)
            p2 = z3.simplify(p + d)
            return self.assoc_iter(it.cont, en, p2)
        L = self.length(it.cont.get())
        p2 = z3.simplify(it.pos + d)
        e.prove("iterator stays in range", z3.And(p2 >= 0, p2 <= L), n, "safety")
        e.assume(z3.And(p2 >= 0, p2 <= L))
        return IterV(it.cont, p2)

    def opaque_op(self, name, base, o, args, n):
        return self._ext("opaque_op", name, base, o, args, n)

    def opaque_construct(self, t, inner, n):
        return self._ext("opaque_construct", t, inner, n)

    def invoke_ref(self, base, argn, n):
        """a call through a reference to a function object (argument nodes not evaluated yet)"""
        r = self._ext("invoke_ref", base, argn, n)
        return z3.BoolVal(True) if r is NONE else r

    # ------------------------------------------------------------ operators
    def operator(self, name, args, n):
        e = self.e
        r = self._ext("operator", name, args, n)
        if r is not None:
            return r if r is not NONE else None
        val = lambda x: x.get() if isinstance(x, LV) else x
        a = args[0]
        av = a.v if isinstance(a, TempLV) else val(a)
        op = name[len("operator"):]
        if isinstance(av, StreamV) or self.is_ostream(n):
            if op == "<<":
                return self.stream_out(a, av, args[1], n)
        if op == "*" and len(args) == 1:
            return e.deref(av, n)
        if op == "->":
            if isinstance(av, IterV):
                return Ptr(self.iter_deref(av, n))
            if isinstance(av, SharedV):
                return Ptr(av.target, av.null, av.ident)
        if op in ("++", "--"):
            if self.optype(n) in ATOMICS:
                pass
            if isinstance(av, IterV):
                new = self.iter_step(av, 1 if op == "++" else -1, n)
                a.set(new)
                return av if len(args) == 2 else a
            if isinstance(av, z3.ExprRef):
                # std::atomic increments
                at = self.atomic_arg(n)
                if at is not None:
                    h = e.hooks.get("atomic")
                    if h:
                        r = h(a, av, name, [], n, at)
                        if r is not None:
                            return r
                    cur = a.get()
                    new = e.wrap(cur + 1 if op == "++" else cur - 1, e.int_t(at)) if e.intmode == "int" else \
                        (cur + 1 if op == "++" else cur - 1)
                    a.set(new)
                    return cur if len(args) == 2 else new
        if op in ("==", "!="):
            b = val(args[1])
            if isinstance(av, z3.SeqRef) or isinstance(b, z3.SeqRef):
                r = self.tostr(av, n) == self.tostr(b, n)
                self.note("std::string comparison")
            else:
                r = e.equal(av, b, n)
            return r if op == "==" else z3.Not(r)
        if op in ("<", ">", "<=", ">="):
            b = val(args[1])
            r = self.order(op, av, b)
            if r is not None:
                return r
        if op == "+":
            b = val(args[1])
            if isinstance(av, IterV):
                return self.ptr_arith("+", av, b, n)
            if isinstance(av, z3.SeqRef) or isinstance(b, z3.SeqRef):
                self.note("std::string concatenation")
                return z3.Concat(self.tostr(av, n), self.tostr(b, n))
        if op == "-" and isinstance(av, IterV):
            return self.ptr_arith("-", av, val(args[1]), n)
        if op == "+=":
            b = val(args[1])
            if isinstance(av, z3.SeqRef):
                self.note("std::string::operator+=")
                a.set(z3.Concat(av, self.tostr(b, n)))
                return a
            if isinstance(av, Vec) and av.et.name == "char":
                if isinstance(b, Vec):
                    a.set(self.vappend(av, b))
                else:
                    a.set(self.vpush(av, b))
                return a
            if isinstance(av, IterV):
                a.set(self.ptr_arith("+", av, b, n))
                return a
        if op == "=":
            b = val(args[1])
            if self.atomic_arg(n) is not None:
                h = e.hooks.get("atomic")
                if h:
                    r = h(a, av, "store", [b], n, self.atomic_arg(n))
                    if r is not None:
                        return r
                a.set(b)
                return b
            if isinstance(av, z3.SeqRef):
                a.set(self.tostr(b, n))
                return a
            move = n["inner"][2].get("valueCategory") != "lvalue" if len(n.get("inner", [])) > 2 else False
            nb = e.copy_value(b, None, move) if isinstance(b, (Obj,)) else self.copy(b, move)
            if move and isinstance(args[1], LV):
                mv = self.moved_from(b)
                if mv is not None and isinstance(args[1], (Cell,)):
                    args[1].v = mv
            self.assigned(a, nb)
            if isinstance(nb, FnV) and isinstance(av, FnV):
                nb = nb
            if isinstance(a, ElemLV) and isinstance(nb, FnV) and isinstance(av, z3.ExprRef):
                nb = self.box(nb, a.t)
            if isinstance(nb, Ptr) and isinstance(av, (SharedV, FnV)):
                nb = SharedV(av.kind, None, z3.BoolVal(True)) if isinstance(av, SharedV) else \
                    FnV("opaque", null=z3.BoolVal(True))
            a.set(nb)
            return a
        if op == "[]":
            i = val(args[1])
            if isinstance(av, z3.SeqRef):
                self.note("std::string::operator[]")
                e.prove("string index in range", z3.And(i >= 0, i <= z3.Length(av)), n, "safety")
                e.assume(z3.And(i >= 0, i <= z3.Length(av)))
                return StrCharLV(e, a, i)
            if isinstance(av, Vec):
                e.prove("index in range", z3.And(i >= 0, i < av.n), n, "safety")
                e.assume(z3.And(i >= 0, i < av.n))
                return ElemLV(a, i, av.et)
            if isinstance(av, MapV):
                k = self.key_of(i)
                self.note("std::map::operator[]")
                nv = self.with_key(av, k, True)
                if e.branch(av.has(k), n):
                    return ElemLV(a, k, av.vt)
                d = e.default_value(av.vt, "mapdefault")
                if z3.is_int(d) or av.vt.name in INTS:
                    d = e.mkint(0, av.vt)
                if av.vt.name == "bool":
                    d = z3.BoolVal(False)
                nv.val = z3.Store(av.val, k, self.box(d, av.vt))
                a.set(nv)
                return ElemLV(a, k, av.vt)
        if op == "()":
            return e.invoke(av, args[1:], n)
        if op == "|" or op == "&":
            pass
        raise Unsupported("operator%s on %s" % (op, type(av).__name__), n)

    def optype(self, n):
        return typeof(n["inner"][1]).name if len(n.get("inner", [])) > 1 else ""

    def atomic_arg(self, n):
        if len(n.get("inner", [])) < 2:
            return None
        b = n["inner"][1]
        while True:
            t = typeof(b)
            if t.name in ATOMICS:
                return T("bool") if t.name == "std::atomic_bool" else (t.args[0] if t.args else T("int"))
            if b["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                b = b["inner"][0]
                continue
            return None

    def is_ostream(self, n):
        t = typeof(n["inner"][1]) if len(n.get("inner", [])) > 1 else None
        return t is not None and (t.name in STREAMS or t.name == "std::ostream")

    def stream_out(self, a, av, x, n):
        e = self.e
        if isinstance(av, Opaque) or not isinstance(av, StreamV):
            # std::cout and the like: what is printed is not modelled
            return a
        x = x.get() if isinstance(x, LV) else x
        new = StreamV(av.s)
        new.width, new.fill, new.prec, new.fixed = av.width, av.fill, av.prec, av.fixed
        if isinstance(x, Manip):
            if x.kind == "setw":
                new.width = x.v
            elif x.kind == "setfill":
                new.fill = x.v
            elif x.kind == "setprecision":
                new.prec = x.v
            elif x.kind == "fixed":
                new.fixed = True
            elif x.kind == "endl":
                new.s = z3.Concat(new.s, z3.StringVal("\n"))
            self.sset(a, new)
            return a
        if isinstance(x, FnV) and x.name in ("endl", "fixed", "flush", "ends"):
            if x.name == "endl":
                new.s = z3.Concat(new.s, z3.StringVal("\n"))
            elif x.name == "fixed":
                new.fixed = True
            self.sset(a, new)
            return a
        at = typeof(n["inner"][2]) if len(n["inner"]) > 2 else None
        if z3.is_fp(x):
            self.note("printing a double: a fixed text for each value, precision and format")
            p = z3.IntVal(6) if new.prec is None else z3.BV2Int(new.prec) if z3.is_bv(new.prec) else new.prec
            s = z3.Function("print_fixed" if new.fixed else "print_double", x.sort(), z3.IntSort(), z3.StringSort())(x, p)
        else:
            s = self.format(x, at, n)
        if new.width is not None:
            s = self.pad(s, new.width, new.fill)
            new.width = None
        new.s = z3.Concat(new.s, s)
        self.sset(a, new)
        return a

    def sset(self, a, new):
        a.set(new)

    def pad(self, s, w, fill):
        e = self.e
        f = e.fresh("pad", z3.StringSort())
        k = z3.If(w > z3.Length(s), w - z3.Length(s), z3.IntVal(0))
        e.assume(z3.Length(f) == k)
        e.assume(z3.InRe(f, z3.Star(z3.Re(fill))))
        return z3.Concat(f, s)

    def format(self, x, t, n):
        """operator<< of a value, default formatting"""
        e = self.e
        r = self._ext("format", x, t, n)
        if r is not None:
            return r
        if isinstance(x, z3.SeqRef):
            return x
        if z3.is_bool(x):
            return z3.If(x, z3.StringVal("1"), z3.StringVal("0"))
        if z3.is_bv(x) and t is not None and e.isint(t):
            x = z3.BV2Int(x, INTS[e.int_t(t).name][1])
        if z3.is_int(x):
            if t is not None and t.name == "char":
                return e.char_to_str(x)
            self.note("operator<< of an integer prints its decimal representation")
            return z3.If(x < 0, z3.Concat(z3.StringVal("-"), z3.IntToStr(-x)), z3.IntToStr(x))
        if isinstance(x, z3.ExprRef):
            f = z3.Function("fmt_" + x.sort().name(), x.sort(), z3.StringSort())
            return f(x)
        raise Unsupported("operator<< of %r" % (x,), n)

    # ------------------------------------------------------------ construction
    def construct(self, t, inner, n):
        e = self.e
        r = self._ext("construct", t, inner, n)
        if r is not None:
            return r
        name = t.name
        if not inner or inner[0]["kind"] == "CXXDefaultArgExpr":
            v = self.default(t, "tmp")
            if v is not None:
                return v
        if name == "std::integral_constant":
            return Opaque(t)
        if name == "std::array" and len(inner) == 1:
            v = self.val(e.ev(inner[0]))
            if isinstance(v, Vec):
                return v
        if name == "std::string":
            args = e.args_of(inner)
            if len(args) == 1:
                v = args[0].get() if isinstance(args[0], LV) else args[0]
                if isinstance(v, Vec):
                    return v
                return self.tostr(v, n)
            if len(args) == 2 and isinstance(args[0], IterV):
                b, en = args
                s = b.cont.get()
                if isinstance(s, z3.SeqRef):
                    return z3.SubString(s, b.pos, en.pos - b.pos)
            if len(args) == 2:
                k = args[0].get() if isinstance(args[0], LV) else args[0]
                c = args[1].get() if isinstance(args[1], LV) else args[1]
                if z3.is_int(k) and z3.is_int(c):
                    f = e.fresh("rep", z3.StringSort())
                    e.assume(z3.Length(f) == k)
                    e.assume(z3.InRe(f, z3.Star(z3.Re(e.char_to_str(c)))))
                    return f
            if len(args) in (2, 3) and isinstance(self.val(args[0]), z3.SeqRef):
                s, p = self.val(args[0]), self.val(args[1])
                k = self.val(args[2]) if len(args) == 3 else z3.IntVal(NPOS)
                L = self.length(s)
                if e.branch(p > L, n):
                    self.throw_std("out_of_range")
                return z3.SubString(s, p, self.clamp(k, p, L))
            raise Unsupported("string constructor", n)
        if name in LOCKS:
            args = e.args_of(inner)
            m = self.val(args[0])
            if isinstance(m, GuardV):       # move
                g = GuardV(self, m.m, m.owned, m.shared)
                m.owned = False
                return g
            shared = name == "std::shared_lock"
            owned = True
            if len(args) > 1:
                tag = typeof(inner[1]).name
                if "defer_lock" in tag:
                    owned = False
                elif "adopt_lock" in tag:
                    return GuardV(self, m, True, shared)
                else:
                    raise Unsupported("lock constructor", n)
            if owned:
                self.acquire(m, shared, n)
            return GuardV(self, m, owned, shared)
        args = e.args_of(inner)
        if len(args) == 1:
            v = args[0].v if isinstance(args[0], TempLV) else self.val(args[0])
            src_lv = args[0] if isinstance(args[0], LV) else None
            vt = typeof(inner[0])
            move = inner[0].get("valueCategory") != "lvalue"
            if name == "std::function":
                if isinstance(v, FnV):
                    return v
                if isinstance(v, Ptr) and v.target is None:
                    return FnV("opaque", null=z3.BoolVal(True))
                if isinstance(v, Obj):
                    return FnV("functor", this=v)
            if name.endswith("_ptr") and isinstance(v, z3.ExprRef) and v.sort() == e.sort_of(t):
                return v
            if isinstance(v, SharedV) and name.endswith("_ptr"):
                nv = self.copy(v, move)
                if isinstance(nv, SharedV):
                    nv = SharedV(name[5:-4], nv.target, nv.null, nv.ident, nv.ctl)
                if move and isinstance(src_lv, (Cell, TempLV, ElemLV)) and v.kind != "weak":
                    mv = self.moved_from(v)
                    if mv is not None and isinstance(src_lv, Cell):
                        src_lv.set(mv)
                return nv
            if name.endswith("_ptr") and isinstance(v, Ptr):
                return SharedV(name[5:-4], v.target, v.null, v.ident)
            if name in ("std::vector", "std::deque", "std::set", "std::map", "std::unordered_map", "std::unordered_set",
                        "std::queue", "std::stack", "std::initializer_list", "std::list") and \
                    isinstance(v, (Vec, SetV, MapV)):
                if isinstance(v, Vec) and name in ("std::set", "std::unordered_set"):
                    s = self.empty_set(t.args[0])
                    for x in v.items:
                        s = self.with_key(s, self.key_of(x), True)
                    return s
                if isinstance(v, Vec) and name in ("std::map", "std::unordered_map"):
                    return self.map_of(t, v)
                if move and isinstance(src_lv, Cell) and inner[0].get("valueCategory") == "xvalue":
                    src_lv.set(self.default(t, "moved"))
                return self.copy(v)
            if name in ("std::vector",) and z3.is_int(v):
                return self.vec_fill(t, v, None, n)
            if isinstance(v, IterV):
                return v
            if isinstance(v, PairV):
                return v
            if name.startswith("std::atomic"):
                return v
            if isinstance(v, ThreadV):
                nv = ThreadV(v.joinable, v.label, v.fn)
                return nv
            if isinstance(v, Regex):
                return v
            if name in ("std::regex", "std::basic_regex"):
                s = const_str(v)
                if s is None:
                    raise Unsupported("regex that is not a literal", n)
                return Regex(s)
            if isinstance(v, z3.ExprRef) and (name.startswith("std::_") or name.startswith("S_")):
                return v
        if name == "std::vector" and len(args) >= 2:
            a0, a1 = self.val(args[0]), self.val(args[1])
            if isinstance(a0, IterV) and isinstance(a1, IterV):
                cv = a0.cont.get()
                if isinstance(cv, (SetV,)):
                    en = self.enumerate(a0.cont)
                    return Vec(cv.n, en[0], t.args[0])
                if isinstance(cv, Vec) and e.holds(z3.And(a0.pos == 0, a1.pos == cv.n)):
                    return cv
            if z3.is_int(a0):
                return self.vec_fill(t, a0, a1, n)
        if name == "std::pair" and len(args) == 2:
            xs = []
            for a, tt, i in zip(args, t.args, inner):
                x, ft = self.val(a), typeof(i).noref()
                if isinstance(x, z3.ExprRef) and e.isint(tt.noref()) and e.isint(ft):
                    x = e.conv(x, ft, tt.noref())
                xs.append(x)
            return PairV(*xs, *t.args[:2])
        if name in ("std::vector", "std::set", "std::map") and isinstance(self.val(args[0]) if args else None, Vec):
            return self.construct(t, inner[:1], n)
        raise Unsupported("construction of %r" % t, n)

    def vec_fill(self, t, k, x, n):
        e = self.e
        c = const_int(k)
        et = t.args[0]
        if x is None:
            x = e.mkint(0, et) if et.name in INTS else e.default_value(et, "fill")
        if c is not None and c <= 16:
            return Vec(k, None, et, [x] * c)
        if isinstance(x, z3.ExprRef):
            return Vec(k, z3.K(z3.IntSort(), x), et)
        raise Unsupported("vector fill", n)

    def map_of(self, t, v):
        m = self.empty_map(t.args[0], t.args[1])
        items = []
        for p in v.items:
            k, x = self.key_of(p.a), self.box(p.b, t.args[1])
            pres = z3.simplify(m.has(k))
            nv = self.with_key(m, k, True)
            nv.val = z3.If(pres, m.val, z3.Store(m.val, k, x)) if not z3.is_false(pres) else z3.Store(m.val, k, x)
            m = nv
            items.append((k, x))
        m.lit = items
        return m

    def val(self, x):
        return x.get() if isinstance(x, LV) else x

    def init_list(self, t, items, n):
        if t.name in ("std::vector", "std::deque"):
            return Vec(z3.IntVal(len(items)), None, t.args[0], items)
        if t.name == "std::pair" and len(items) == 2:
            return PairV(items[0], items[1], *t.args[:2])
        return self._ext("init_list", t, items, n)

    # ------------------------------------------------------------ globals, free functions
    def enum_constant(self, rd, n):
        r = self._ext("enum_constant", rd, n)
        if r is None and "cv_status" in (rd.get("type") or {}).get("qualType", ""):
            return z3.IntVal({"no_timeout": 0, "timeout": 1}[rd["name"]])
        return r

    def std_global(self, rd, n):
        nm = rd.get("name")
        r = self._ext("std_global", rd, n)
        if r is not None:
            return r
        if nm in ("cout", "cerr", "clog", "cin"):
            return TempLV(Opaque(T("std::ostream"), nm), T("std::ostream"))
        if nm == "npos":
            return z3.IntVal(NPOS)
        if nm in ("defer_lock", "adopt_lock", "piecewise_construct"):
            return TempLV(Opaque(typeof(n), nm), typeof(n))
        return None

    def free_call(self, name, argn, n, c):
        e = self.e
        # a static data member of the library, numeric_limits and the like
        if name in ("max", "min") and not argn:
            t = typeof(n)
            r = self._ext("call_free", name, [], n, argn)
            if r is not None:
                return r
            lo, hi = e.range_of(e.int_t(t))
            return e.mkint(hi if name == "max" else lo, t)
        return self.call_free(name, e.args_of(argn), n, argn)

    def call_free(self, name, args, n, argn):
        e = self.e
        r = self._ext("call_free", name, args, n, argn)
        if r is not None:
            return r if r is not NONE else None
        val = self.val
        if name in ("move", "forward"):
            a = args[0]
            return a if isinstance(a, LV) else TempLV(a, typeof(n))
        if name in ("min", "max") and len(args) == 2:
            a, b = val(args[0]), val(args[1])
            t = typeof(argn[0])
            lt = e.compare("<", a, b, t, n)
            return TempLV(z3.If(lt, a, b) if name == "min" else z3.If(lt, b, a), t)
        if name == "swap":
            a, b = val(args[0]), val(args[1])
            args[0].set(b)
            args[1].set(a)
            return None
        if name in ("make_pair",):
            return PairV(val(args[0]), val(args[1]))
        if name == "make_tuple" or name == "tie":
            raise Unsupported("tuple", n)
        if name in ("make_shared", "make_unique"):
            t = typeof(n).args[0]
            return self.make_smart("shared" if name == "make_shared" else "unique", t, args, argn, n)
        if name == "strlen":
            s = self.tostr(args[0], n)
            self.note("strlen")
            return self.length(s)
        if name == "to_string":
            self.note("std::to_string")
            return self.format(val(args[0]), None, n)
        if name == "setw":
            return Manip("setw", val(args[0]))
        if name == "setfill":
            return Manip("setfill", e.char_to_str(val(args[0])))
        if name == "setprecision":
            return Manip("setprecision", val(args[0]))
        if name in ("toupper", "tolower"):
            return self.casechange(name, val(args[0]))
        if name == "transform" and len(args) == 4:
            return self.transform(args, n)
        if name in ("next", "prev"):
            it = val(args[0])
            k = const_int(val(args[1])) if len(args) > 1 else 1
            for _ in range(k):
                it = self.iter_step(it, 1 if name == "next" else -1, n)
            return it
        if name in ("begin", "end", "cbegin", "cend"):
            lv = args[0] if isinstance(args[0], LV) else TempLV(args[0], None)
            v = lv.get()
            if isinstance(v, (SetV, MapV)):
                return self.assoc_method(lv, v, name, [], n)
            return IterV(lv, z3.IntVal(0) if name.endswith("begin") else self.length(v))
        if name == "terminate" or name == "abort":
            e.prove("no call of std::%s" % name, z3.BoolVal(False), n, "safety")
            from .engine import PathEnd
            raise PathEnd()
        if name == "__assert_fail":
            e.prove("assertion in the code holds", z3.BoolVal(False), n, "safety")
            from .engine import PathEnd
            raise PathEnd()
        if name in ("abs",) and len(args) == 1:
            x = val(args[0])
            if z3.is_int(x):
                return z3.If(x < 0, -x, x)
        if name in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "ref", "cref"):
            return args[0]
        d = e.prog.outside(name, qualtype(e.callee(n["inner"][0])["referencedDecl"])) if n["kind"] == "CallExpr" else None
        if d is not None:
            return e.call_function(d, None, args, n)
        raise Unsupported("library function " + name, n)

    def make_smart(self, kind, t, args, argn, n):
        e = self.e
        h = e.hooks.get("make_smart")
        if h:
            r = h(kind, t, args, argn, n)
            if r is not None:
                return r
        rec = e.prog.record(t)
        label = "%s/make#%s" % (e.callpath, n["id"][-6:])
        if rec is not None and not e.opaque_record(t):
            o = e.new_obj(rec, label)
            self.ctor_by_args(rec, o, args, argn, n)
            v = o
        elif len(args) == 1:
            v = self.val(args[0])
            v = self.copy(v)
        elif not args:
            v = e.default_value(t, label)
        else:
            raise Unsupported("make_%s of %r" % (kind, t), n)
        return SharedV(kind, Cell(e, t, v, label), z3.BoolVal(False))

    def ctor_by_args(self, rec, o, args, argn, n):
        """constructor selected by argument types (make_shared/emplace hide the resolved one)"""
        e = self.e
        cands = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and not c.get("explicitlyDeleted"):
                from .frontend import params_of
                ps = params_of(c)
                req = [p for p in ps if not p.get("init") and not p.get("inner")]
                if len(req) <= len(args) <= len(ps):
                    sc = 0
                    for p, a in zip(ps, argn):
                        if typeof(p).noref().key() == typeof(a).noref().key():
                            sc += 1
                    cands.append((sc, c))
        cands.sort(key=lambda x: -x[0])
        if not cands:
            raise Unsupported("constructor for make_shared", n)
        c = cands[0][1]
        d = e.prog.definition(c["id"])
        if d is not None:
            from .frontend import body_of
            if body_of(d) is not None:
                e.call_function(c, o, args, n)
                return
        if not args:
            e.default_fields(o, rec)
            return
        src = self.val(args[0])
        if isinstance(src, Obj):
            e.copy_fields(o, src, rec)
            return
        raise Unsupported("constructor for make_shared", n)

    def casechange(self, name, c):
        """toupper/tolower in the C locale on an unsigned char value"""
        self.note("toupper/tolower in the C locale")
        lo, hi, d = (97, 122, -32) if name == "toupper" else (65, 90, 32)
        return z3.If(z3.And(c >= lo, c <= hi), c + d, c)

    def transform(self, args, n):
        raise Unsupported("std::transform", n)

    # ------------------------------------------------------------ floating point (specs may extend)
    def fparith(self, op, a, b, n):
        rm = z3.RNE()
        return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](rm, a, b)

    def fpcast(self, ck, v, ft, tt, n):
        e = self.e
        r = self._ext("fpcast", ck, v, ft, tt, n)
        if r is not None:
            return r
        if ck == "FloatingCast":
            return v
        if ck == "IntegralToFloating":
            if z3.is_bool(v):
                v = e.conv(v, T("bool"), T("int"))
                ft = T("int")
            signed = INTS[e.int_t(ft).name][1]
            if z3.is_bv(v):
                return z3.fpSignedToFP(z3.RNE(), v, z3.FPSort(11, 53)) if signed else \
                    z3.fpUnsignedToFP(z3.RNE(), v, z3.FPSort(11, 53))
            c = const_int(v)
            if c is not None:
                return z3.FPVal(float(c), z3.FPSort(11, 53))
        if ck == "FloatingToIntegral" and e.intmode == "bv":
            it = e.int_t(tt)
            bits, signed = INTS[it.name]
            lo = -(1 << (bits - 1)) if signed else 0
            hi = (1 << (bits - 1)) if signed else (1 << bits)
            F = z3.FPSort(11, 53)
            g = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(float(hi), F)),
                       z3.fpGT(v, z3.FPVal(float(lo) - 1, F)) if bits < 53 else
                       (z3.fpGEQ(v, z3.FPVal(float(lo), F)) if signed else z3.fpGT(v, z3.FPVal(-1.0, F))))
            e.prove("floating value fits the integer type it is converted to", g, n, "safety")
            e.assume(g)
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(bits)) if signed else \
                z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(bits))
        raise Unsupported("floating cast " + ck, n)

    def compound(self, op, va, vb, at, lt, ct, n):
        if at.name == "double" and lt.name == "double" and va.sort() == vb.sort():
            return self.fparith(op, va, vb, n)
        raise Unsupported("compound assignment", n)


class Manip:
    def __init__(self, kind, v=None): self.kind, self.v = kind, v


class PairElem(LV):
    """*it of a map iterator: first is the key, second lives in the map"""
    def __init__(self, cont, key, cv):
        self.cont, self.key, self.cv = cont, key, cv
        self.t = None

    def get(self):
        return PairV(self.key, z3.Select(self.cont.get().val, self.key), self.cv.kt, self.cv.vt)

    def member(self, name):
        return TempLV(self.key, self.cv.kt) if name == "first" else ElemLV(self.cont, self.key, self.cv.vt)

    def root(self):
        return self.cont.root()


class FieldLV(LV):
    def __init__(self, base, which):
        self.base, self.which = base, which
        p = base.get()
        self.t = p.ta if which == "first" else p.tb

    def get(self):
        p = self.base.get()
        return p.a if self.which == "first" else p.b

    def set(self, v):
        p = self.base.get()
        self.base.set(PairV(v, p.b, p.ta, p.tb) if self.which == "first" else PairV(p.a, v, p.ta, p.tb))

    def root(self):
        return self.base.root()


class _None:
    pass


NONE = _None()     # "handled, and the result is void"

MUTEXES = ("std::mutex", "std::recursive_mutex", "std::shared_timed_mutex", "std::shared_mutex", "std::timed_mutex")
CONDVARS = ("std::condition_variable", "std::condition_variable_any")
ATOMICS = ("std::atomic", "std::atomic_bool", "std::atomic_int", "std::atomic_uint", "std::__atomic_base",
           "std::atomic_flag")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock")
STREAMS = ("std::basic_ostringstream", "std::basic_stringstream", "std::ostringstream", "std::stringstream",
           "std::basic_ostream", "std::ostream")
