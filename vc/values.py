"""Symbolic values of the C++ abstract machine."""
import z3
from .frontend import T, INTS, Unsupported


class LV:
    """Something that can be read and assigned."""
    t = None
    def get(self): raise NotImplementedError
    def set(self, v): raise NotImplementedError


class Cell(LV):
    __slots__ = ("v", "t", "label", "eng", "owner", "seq", "name", "dead", "const")

    def __init__(self, eng, t, v=None, label=None, owner=None, name=None):
        self.eng, self.t, self.v, self.owner, self.name = eng, t, v, owner, name
        self.label = label
        self.dead = False
        eng.new_cell(self)

    def get(self):
        self.eng.on_read(self)
        if self.v is None:
            raise Unsupported("read of an uninitialised or unmodelled location %s" % (self.label or self.name))
        return self.v

    def set(self, v):
        self.eng.on_write(self)
        self.v = v

    def root(self):
        return self


class ElemLV(LV):
    """base[idx] of a vector/array/map/string value kept functionally in `base`."""
    def __init__(self, base, idx, t):
        self.base, self.idx, self.t = base, idx, t

    def get(self):
        return self.base.get().select(self.idx)

    def set(self, v):
        self.base.set(self.base.get().store(self.idx, v))

    def root(self):
        return self.base.root()


class StrCharLV(LV):
    """character of a z3 string"""
    def __init__(self, eng, base, idx):
        self.eng, self.base, self.idx = eng, base, idx
        self.t = T("char")

    def get(self):
        s = self.base.get()
        return self.eng.char_at(s, self.idx)

    def set(self, v):
        s = self.base.get()
        i = self.idx
        c = self.eng.char_to_str(v)
        self.base.set(z3.Concat(z3.SubString(s, 0, i), c, z3.SubString(s, i + 1, z3.Length(s) - i - 1)))

    def root(self):
        return self.base.root()


class TempLV(LV):
    """An rvalue something refers to."""
    def __init__(self, v, t):
        self.v, self.t = v, t

    def get(self): return self.v
    def set(self, v): self.v = v
    def root(self): return None


class Vec:
    """Sequence: length and array (vector, deque, C array, initializer list, string in array mode)."""
    def __init__(self, n, arr, et, items=None):
        self.n, self.arr, self.et = n, arr, et
        self.items = items            # concrete python list (elements may be any value) or None

    def select(self, i):
        if self.items is not None:
            j = const_int(i)
            if j is not None and 0 <= j < len(self.items):
                return self.items[j]
            if self.items and all(isinstance(x, z3.ExprRef) for x in self.items):
                if len(self.items) >= 16 and z3.is_int(i):
                    r = table(self.items, i)
                    if r is not None:
                        return r
                r = self.items[-1]
                for k in range(len(self.items) - 2, -1, -1):
                    r = z3.If(i == k, self.items[k], r)
                return r
            raise Unsupported("symbolic index into a concrete sequence of objects")
        return z3.Select(self.arr, i)

    def store(self, i, v):
        if self.items is not None:
            j = const_int(i)
            if j is not None:
                it = list(self.items)
                it[j] = v
                return Vec(self.n, None, self.et, it)
            if all(isinstance(x, z3.ExprRef) for x in self.items):
                return Vec(self.n, None, self.et, [z3.If(i == k, v, x) for k, x in enumerate(self.items)])
            raise Unsupported("symbolic store into a concrete sequence of objects")
        return Vec(self.n, z3.Store(self.arr, i, v), self.et)

    def push(self, v):
        if self.items is not None:
            return Vec(z3.IntVal(len(self.items) + 1), None, self.et, self.items + [v])
        return Vec(z3.simplify(self.n + 1), z3.Store(self.arr, self.n, v), self.et)


class SetV:
    def __init__(self, dom, n, kt):
        self.dom, self.n, self.kt = dom, n, kt
        self.enum = None

    def has(self, k): return z3.Select(self.dom, k)


class MapV:
    def __init__(self, dom, val, n, kt, vt, multi=False):
        self.dom, self.val, self.n, self.kt, self.vt = dom, val, n, kt, vt
        self.enum = None

    def has(self, k): return z3.Select(self.dom, k)

    def select(self, k): return z3.Select(self.val, k)

    def store(self, k, v): return MapV(self.dom, z3.Store(self.val, k, v), self.n, self.kt, self.vt)


class IterV:
    """Iterator.  Sequences: pos is an Int.  Associative: key/end, and pos once enumerated."""
    def __init__(self, cont, pos=None, key=None, end=None, enum=None, rev=False):
        self.cont, self.pos, self.key, self.end, self.enum, self.rev = cont, pos, key, end, enum, rev


class PairV:
    def __init__(self, a, b, ta=None, tb=None):
        self.a, self.b, self.ta, self.tb = a, b, ta, tb


class Ptr:
    """Pointer: target location (or object) and a Boolean term saying it is null."""
    def __init__(self, target, null=None, ident=None):
        self.target = target
        self.null = z3.BoolVal(target is None) if null is None else null
        self.ident = ident


class Obj:
    """Object of a class of the repository."""
    _n = 0

    def __init__(self, rec, label):
        self.rec, self.label = rec, label
        self.fields = {}        # FieldDecl id -> Cell
        self.byname = {}
        self.dead = False
        self.ghost = {}
        self.dyn = None         # class whose constructor or destructor is running (virtual calls stop there)

    def __repr__(self):
        return "Obj(%s)" % self.label


class FnV:
    """Callable: a repository function, a lambda closure, or an opaque std::function."""
    def __init__(self, kind, node=None, env=None, this=None, name=None, null=None):
        self.kind, self.node, self.env, self.this, self.name = kind, node, env, this, name
        self.null = z3.BoolVal(False) if null is None else null


class StreamV:
    """String stream: what was written so far (z3 string) plus formatting state."""
    def __init__(self, s):
        self.s = s
        self.width, self.fill, self.prec, self.fixed = None, z3.StringVal(" "), None, False


class Opaque:
    """A library object whose state is not modelled."""
    def __init__(self, t, label=""):
        self.t, self.label = t, label


def const_int(x):
    if isinstance(x, int):
        return x
    if isinstance(x, z3.ExprRef):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_bv_value(s):
            return s.as_signed_long()
    return None


def const_str(x):
    s = z3.simplify(x) if isinstance(x, z3.ExprRef) else None
    if s is not None and z3.is_string_value(s):
        return s.as_string()
    return None


def table(items, i):
    """lookup in a table of integer constants, as few linear pieces (0 <= i < len is checked where it matters)"""
    vals = []
    for x in items:
        if not z3.is_int_value(x):
            x = z3.simplify(x)
            if not z3.is_int_value(x):
                return None
        vals.append(x.as_long())
    pieces, k = [], 0
    while k < len(vals):
        a = k
        while a + 1 < len(vals) and vals[a + 1] == vals[k]:
            a += 1
        b = k
        while b + 1 < len(vals) and vals[b + 1] - vals[b] == 1:
            b += 1
        if a >= b:
            pieces.append((a, z3.IntVal(vals[k])))
            k = a + 1
        else:
            pieces.append((b, i + (vals[k] - k)))
            k = b + 1
    r = pieces[-1][1]
    for end, v in reversed(pieces[:-1]):
        r = z3.If(i <= end, v, r)
    return r
