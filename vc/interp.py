"""Symbolic execution of clang AST bodies: one function, all paths, loops cut at invariants."""
import re
import z3
from .frontend import (T, INTS, typeof, qualtype, Unsupported, parse_type, body_of, params_of, FUNCS, RECORDS,
                       where)
from .values import *
from .engine import Engine, PathEnd, Restart, LoopInfo, solve


class ReturnX(Exception):
    def __init__(self, v): self.v = v


class BreakX(Exception): pass
class ContinueX(Exception): pass


class CppThrow(Exception):
    def __init__(self, t, val): self.t, self.val = t, val


class Frame:
    def __init__(self, fn, this=None, parent=None, path=""):
        self.fn, self.this, self.vars, self.parent = fn, this, {}, parent
        self.path = path
        self.scopes = []


def is_class(t):
    return not t.ptr and t.name.startswith("eprosima")


class Interp(Engine):
    UNROLL = 70

    def __init__(self, prog, name="", intmode="int", strmode="seq", lib=None, check_overflow=True, **kw):
        super().__init__(prog, name, **kw)
        self.intmode, self.strmode = intmode, strmode
        self.contracts = {}
        self.check_overflow = check_overflow
        self.invariants = []         # list of callables ctx -> iterable of (name, term)
        self.inlined = set()
        self.contract_calls = set()
        self.opaque_types = set()    # classes whose values are opaque
        self.opaque_call = None      # hook for calls of opaque callables
        self.hooks = {}
        from . import stdlib
        self.lib = stdlib.Lib(self)
        self.frame = None
        self.static_vars = {}
        self.wrapnote = False
        self.cells = []
        self.record_hook = None
        self.depth = 0

    # ------------------------------------------------------------ path state
    def reset_path(self):
        self.frame = Frame(None, path="")
        self.frame.scopes = [[]]
        self.cells = []
        self.loopstack = []
        self.unrolling = []          # loops whose iterations are explored one by one
        self.statics = {}
        self.temps = [[]]
        self.lib.reset()
        self.ghost = {}
        self.wraps = {}
        self.depth = 0
        self.callpath = ""
        self.events = []
        self.objcount = {}

    def new_cell(self, c):
        c.seq = len(self.cells)
        self.cells.append(c)
        if c.label is None:
            c.label = "%s/tmp%d" % (self.callpath if self.frame else "", c.seq)

    def on_read(self, c):
        h = self.hooks.get("read")
        if h:
            h(c)

    def on_write(self, c):
        for L in self.loopstack:
            if c.seq < L["seq"] and c.label not in L["info"].modified:
                L["info"].modified.add(c.label)
                raise Restart()
        h = self.hooks.get("write")
        if h:
            h(c)

    # ------------------------------------------------------------ symbolic inputs
    def range_of(self, t):
        b, s = INTS[t.name]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def isint(self, t):
        return (not t.ptr and t.name in INTS) or self.isenum(t)

    def isenum(self, t):
        return not t.ptr and (t.key() in self.prog.enums or t.noref().key() in self.prog.enums or t.name in
                              self.prog.enums)

    def int_t(self, t):
        """underlying integer type"""
        if t.name in INTS:
            return t
        en = self.prog.enums.get(t.name)
        if en is not None:
            ft = en.get("fixedUnderlyingType")
            if ft:
                return parse_type(ft.get("desugaredQualType") or ft["qualType"])
            vals = [c["_value"] for c in en.get("inner", []) if "_value" in c]
            return T("int") if vals and min(vals) < 0 else T("unsigned int")
        raise Unsupported("not an integer type: %r" % t)

    def sort_of(self, t):
        if t.ptr:
            return z3.DeclareSort("P_" + t.name)
        if t.name == "bool":
            return z3.BoolSort()
        if self.isint(t):
            return z3.BitVecSort(INTS[self.int_t(t).name][0]) if self.intmode == "bv" else z3.IntSort()
        if t.name == "std::string":
            return z3.StringSort()
        if t.name == "double":
            return z3.FPSort(11, 53)
        return z3.DeclareSort("S_" + t.key().replace("eprosima::", "").replace("utils::", ""))

    def mkint(self, v, t):
        if self.intmode == "bv":
            return z3.BitVecVal(v, INTS[self.int_t(t).name][0])
        return z3.IntVal(v)

    def sym(self, t, name):
        """A fresh, arbitrary value of type t."""
        t = t.noref()
        if not t.ptr:
            if t.name == "bool":
                return self.fresh(name, z3.BoolSort())
            if self.isint(t):
                c = self.fresh(name, self.sort_of(t))
                if self.intmode == "int":
                    lo, hi = self.range_of(self.int_t(t))
                    self.assume(z3.And(c >= lo, c <= hi))
                return c
            if t.name == "std::string":
                if self.strmode == "arr":
                    n = self.fresh(name + "_len", z3.IntSort())
                    self.assume(n >= 0)
                    self.assume(n <= (1 << 62))
                    return Vec(n, self.fresh(name, z3.ArraySort(z3.IntSort(), z3.IntSort())), T("char"))
                s = self.fresh(name, z3.StringSort())
                return s
            if t.name == "double":
                return self.fresh(name, z3.FPSort(11, 53))
            if t.name in ("std::vector", "std::deque"):
                n = self.fresh(name + "_len", z3.IntSort())
                self.assume(n >= 0)
                self.assume(n <= (1 << 60))
                return Vec(n, self.fresh(name, z3.ArraySort(z3.IntSort(), self.sort_of(t.args[0]))), t.args[0])
            if t.name in ("std::set", "std::unordered_set"):
                ks = self.sort_of(t.args[0])
                s = SetV(self.fresh(name + "_dom", z3.ArraySort(ks, z3.BoolSort())),
                         self.fresh(name + "_n", z3.IntSort()), t.args[0])
                self.lib.wf_assoc(s)
                return s
            if t.name in ("std::map", "std::unordered_map"):
                ks, vs = self.sort_of(t.args[0]), self.sort_of(t.args[1])
                s = MapV(self.fresh(name + "_dom", z3.ArraySort(ks, z3.BoolSort())),
                         self.fresh(name + "_val", z3.ArraySort(ks, vs)),
                         self.fresh(name + "_n", z3.IntSort()), t.args[0], t.args[1])
                self.lib.wf_assoc(s)
                return s
            v = self.lib.sym(t, name)
            if v is not None:
                return v
            rec = self.prog.record(t)
            if rec is not None and not self.opaque_record(t):
                return self.sym_obj(rec, name)
        return self.fresh(name, self.sort_of(t))

    def opaque_record(self, t):
        return t.name.startswith("eprosima::vp::Op") or t.name in self.opaque_types

    def all_fields(self, rec):
        out = []
        for b in rec.get("bases", []):
            br = self.base_rec(b)
            if br is not None:
                out += self.all_fields(br)
        for c in rec.get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append(c)
        return out

    def base_rec(self, b):
        ty = b["type"]
        return self.prog.record(parse_type(ty.get("desugaredQualType") or ty["qualType"]))

    def new_obj(self, rec, label):
        o = Obj(rec, label)
        for f in self.all_fields(rec):
            c = Cell(self, typeof(f), None, label + "." + f.get("name", "?"), o, f.get("name"))
            if c.t.isref:
                c.t = c.t
            o.fields[f["id"]] = c
            o.byname[f.get("name")] = c
        return o

    def sym_obj(self, rec, name):
        o = self.new_obj(rec, name)
        for f in self.all_fields(rec):
            c = o.fields[f["id"]]
            h = self.record_hook and self.record_hook(o, f, c)
            if h is not None and h is not False:
                c.v = h
            elif h is None:
                c.v = self.sym(c.t, name + "." + f["name"])
        return o

    # ------------------------------------------------------------ integers
    def wrap(self, x, t):
        """x: mathematical integer -> value of unsigned type / two's complement."""
        b, s = INTS[t.name]
        M = 1 << b
        c = const_int(x)
        if c is not None:
            c %= M
            if s and c >= M // 2:
                c -= M
            return z3.IntVal(c)
        lo, hi = self.range_of(t)
        if self.holds(z3.And(x >= lo, x <= hi)):
            return x
        r = x % M if not s else ((x + M // 2) % M) - M // 2
        self.wraps[r.get_id()] = (x, M, r)
        return r

    def lowzeros(self, x):
        """number of low bits of x known to be zero"""
        if x.get_id() in self.wraps:
            w = self.wraps[x.get_id()]
            return min(self.lowzeros(w[0]), w[1].bit_length() - 1)
        if z3.is_int_value(x):
            k = x.as_long()
            return (k & -k).bit_length() - 1 if k else 64
        if z3.is_mul(x):
            return sum(self.lowzeros(c) for c in x.children())
        if z3.is_add(x) or z3.is_sub(x):
            return min(self.lowzeros(c) for c in x.children())
        return 0

    def lowbits(self, x, m):
        """a term equal to x modulo m (a power of two), without the wraps that do not matter modulo m"""
        w = self.wraps.get(x.get_id())
        if w is not None and w[1] % m == 0:
            return self.lowbits(w[0], m)
        if z3.is_int_value(x):
            return z3.IntVal(x.as_long() % m)
        if z3.is_add(x):
            return z3.Sum([self.lowbits(c, m) for c in x.children()])
        if z3.is_sub(x):
            a, b = x.children()
            return self.lowbits(a, m) - self.lowbits(b, m)
        if z3.is_mul(x) and len(x.children()) == 2:
            a, b = x.children()
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a):
                k = a.as_long()
                if k % m == 0:
                    return z3.IntVal(0)
                while k and m > 1 and k % 2 == 0:
                    k, m = k // 2, m // 2
                return self.lowbits(b, m) * a
        if z3.is_idiv(x) and z3.is_int_value(x.arg(1)):
            d = x.arg(1).as_long()
            if d > 0 and d & (d - 1) == 0:
                return self.lowbits(x.arg(0), m * d) / d
        return x

    def conv(self, v, ft, tt):
        """integral conversion ft -> tt"""
        if tt.name == "bool" and not tt.ptr:
            return self.truth(v, ft)
        if z3.is_bool(v):
            one, zero = self.mkint(1, tt), self.mkint(0, tt)
            return z3.simplify(z3.If(v, one, zero))
        f, t = self.int_t(ft), self.int_t(tt)
        fb, fs = INTS[f.name]
        tb, ts = INTS[t.name]
        if self.intmode == "bv":
            w = v.size()
            if tb == w:
                return v
            if tb < w:
                return z3.Extract(tb - 1, 0, v)
            return z3.SignExt(tb - w, v) if fs else z3.ZeroExt(tb - w, v)
        flo, fhi = self.range_of(f)
        tlo, thi = self.range_of(t)
        if flo >= tlo and fhi <= thi:
            return v
        return self.wrap(v, t)

    def truth(self, v, t=None):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, FnV):
            return z3.Not(v.null)
        if z3.is_bool(v):
            return v
        if z3.is_int(v) or z3.is_bv(v):
            return v != 0
        r = self.lib.truth(v)
        if r is not None:
            return r
        raise Unsupported("truth value of %r" % (v,))

    def arith(self, op, a, b, t, node):
        if t.name == "double":
            return self.lib.fparith(op, a, b, node)
        it = self.int_t(t)
        bits, signed = INTS[it.name]
        if self.intmode == "bv":
            return self.arith_bv(op, a, b, bits, signed, node)
        if op in ("+", "-", "*"):
            x = a + b if op == "+" else a - b if op == "-" else a * b
            if signed:
                lo, hi = self.range_of(it)
                c = const_int(x)
                if c is None or not lo <= c <= hi:
                    if self.check_overflow:
                        self.prove("no signed overflow in '%s'" % op, z3.And(x >= lo, x <= hi), node, "safety")
                        self.assume(z3.And(x >= lo, x <= hi))
                    else:
                        x = self.wrap(x, it)
                return z3.simplify(x) if c is not None else x
            return self.wrap(x, it)
        if op in ("/", "%"):
            self.prove("no division by zero", b != 0, node, "safety")
            self.assume(b != 0)
            if not signed or (self.holds(a >= 0) and self.holds(b > 0)):
                return a / b if op == "/" else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            if signed:
                lo, hi = self.range_of(it)
                self.prove("no signed overflow in '%s'" % op, z3.Not(z3.And(a == lo, b == -1)), node, "safety")
            return q if op == "/" else a - b * q
        ca, cb = const_int(a), const_int(b)
        if op in ("<<", ">>"):
            if cb is None:
                cb = self.concretize(b, 0, bits - 1, node)
            self.prove("shift amount in range", z3.BoolVal(0 <= cb < bits), node, "safety")
            if op == "<<":
                # wraps (GCC and clang define it so; C++20 requires it)
                if signed:
                    self.trusted.add("left shift of a signed int wraps, as GCC and clang define it and C++20 requires")
                return self.wrap(a * (1 << cb), it)
            return a / (1 << cb)       # z3's div by a positive constant is floor = arithmetic shift
        if op == "&":
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and ca is not None:
                return z3.IntVal(ca & cb)
            if cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                return self.lowbits(a, cb + 1) % (cb + 1)
            if cb is not None and cb > 0:
                lo = (cb & -cb).bit_length() - 1
                w = cb >> lo
                if w & (w + 1) == 0:
                    return ((self.lowbits(a, w + 1 << lo) / (1 << lo)) % (w + 1)) * (1 << lo)
            return self.bitop(op, a, b, bits, signed)
        if op in ("|", "^"):
            if ca is not None and cb is not None:
                return z3.IntVal(ca | cb if op == "|" else ca ^ cb)
            for x, y in ((a, b), (b, a)):
                k = self.lowzeros(x)
                if k > 0 and self.holds(z3.And(y >= 0, y < (1 << min(k, bits)))):
                    return x + y
            return self.bitop(op, a, b, bits, signed)
        raise Unsupported("operator " + op, node)

    def bitop(self, op, a, b, bits, signed):
        x, y = z3.Int2BV(a, bits), z3.Int2BV(b, bits)
        r = x & y if op == "&" else x | y if op == "|" else x ^ y
        return z3.BV2Int(r, signed)

    def concretize(self, x, lo, hi, node):
        """Fork on every feasible value of x in lo..hi."""
        for k in range(lo, hi + 1):
            if self.feasible(x == k) and self.branch(x == k, node):
                return k
        if self.feasible(z3.Or(x < lo, x > hi)):
            self.prove("operand in range %d..%d" % (lo, hi), z3.BoolVal(False), node, "safety")
        raise PathEnd()

    def arith_bv(self, op, a, b, bits, signed, node):
        if a.size() != b.size() and op not in ("<<", ">>"):
            raise Unsupported("width mismatch", node)
        if op in ("+", "-", "*"):
            if signed and self.check_overflow:
                f = {"+": (z3.BVAddNoOverflow, z3.BVAddNoUnderflow), "-": (z3.BVSubNoOverflow, z3.BVSubNoUnderflow),
                     "*": (z3.BVMulNoOverflow, z3.BVMulNoUnderflow)}[op]
                if op == "-":
                    g = z3.And(f[0](a, b), f[1](a, b, True))
                else:
                    g = z3.And(f[0](a, b, True), f[1](a, b))
                self.prove("no signed overflow in '%s'" % op, g, node, "safety")
                self.assume(g)
            return a + b if op == "+" else a - b if op == "-" else a * b
        if op in ("/", "%"):
            self.prove("no division by zero", b != 0, node, "safety")
            self.assume(b != 0)
            if signed:
                self.prove("no signed overflow in '%s'" % op,
                           z3.Not(z3.And(a == z3.BitVecVal(1 << (bits - 1), bits), b == -1)), node, "safety")
                return a / b if op == "/" else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == "/" else z3.URem(a, b)
        if op in ("<<", ">>"):
            w = b.size()
            self.prove("shift amount in range", z3.ULT(b, bits), node, "safety")
            if w < bits:
                b = z3.ZeroExt(bits - w, b)
            elif w > bits:
                b = z3.Extract(bits - 1, 0, b)
            return a << b if op == "<<" else (a >> b if signed else z3.LShR(a, b))
        return a & b if op == "&" else a | b if op == "|" else a ^ b

    def compare(self, op, a, b, t, node):
        if op == "==":
            return self.equal(a, b, node)
        if op == "!=":
            return z3.Not(self.equal(a, b, node))
        if t is not None and t.name == "double":
            return {"<": z3.fpLT, ">": z3.fpGT, "<=": z3.fpLEQ, ">=": z3.fpGEQ}[op](a, b)
        if z3.is_bv(a) and not INTS[self.int_t(t).name][1]:
            return {"<": z3.ULT, ">": z3.UGT, "<=": z3.ULE, ">=": z3.UGE}[op](a, b)
        if z3.is_int(a) or z3.is_bv(a):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        r = self.lib.order(op, a, b)
        if r is not None:
            return r
        raise Unsupported("comparison " + op, node)

    def equal(self, a, b, node=None):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptr_eq(a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == b.sort():
                if a.sort().kind() == z3.Z3_FLOATING_POINT_SORT:
                    return z3.fpEQ(a, b)
                return a == b
        r = self.lib.equal(a, b)
        if r is not None:
            return r
        raise Unsupported("equality of %r and %r" % (type(a), type(b)), node)

    def ptr_eq(self, a, b):
        if a.ident is not None and b.ident is not None:
            return a.ident == b.ident
        if a.target is None or b.target is None:
            return z3.And(a.null, b.null)
        if self.same_target(a.target, b.target):
            return a.null == b.null
        return z3.And(a.null, b.null)

    def same_target(self, x, y):
        def norm(v):
            if isinstance(v, LV):
                v2 = v.v if isinstance(v, (Cell, TempLV)) else None
                if isinstance(v2, Obj):
                    return v2
            return v
        x, y = norm(x), norm(y)
        if isinstance(x, ElemLV) and isinstance(y, ElemLV):
            raise Unsupported("comparison of pointers into a sequence")
        return x is y

    # ------------------------------------------------------------ strings
    def char_at(self, s, i):
        c = z3.StrToCode(z3.SubString(s, i, 1))
        cc = const_int(c)
        if cc is not None:
            return z3.IntVal(cc if cc < 128 else cc - 256)
        self.assume(z3.And(c >= -1, c <= 255))
        return z3.If(c > 127, c - 256, c)

    def char_to_str(self, v):
        c = const_int(v)
        if c is not None:
            return z3.StringVal(chr(c % 256) if 31 < c % 256 < 127 else "\\u{%x}" % (c % 256))
        return z3.StrFromCode(z3.If(v < 0, v + 256, v))

    def strlit(self, raw):
        """value field of a StringLiteral, as written"""
        import ast
        try:
            s = ast.literal_eval(raw)
        except Exception:
            raise Unsupported("string literal " + raw)
        if self.strmode == "arr":
            b = s.encode("latin-1")
            return Vec(z3.IntVal(len(b)), None, T("char"), [z3.IntVal(x if x < 128 else x - 256) for x in b])
        return z3.StringVal("".join(c if 31 < ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))

    # ------------------------------------------------------------ frames, calls
    def var(self, did):
        f = self.frame
        while f is not None:
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None

    def call_function(self, fn, this, args, node=None, nocontract=False):
        """args: list of values/LVs matching the parameters (already evaluated)."""
        d = self.prog.definition(fn["id"]) or fn
        q = "::".join(x for x in d.get("_qual", [d.get("name", "?")]) if x)
        c = None if nocontract else (self.contracts.get(q) or self.contracts.get(fn["id"]))
        if isinstance(c, list):
            c = next((x for x in c if x.matches(self, d, this, args)), None)
        elif c is not None and not c.matches(self, d, this, args):
            c = None
        if c is not None and not getattr(c, "active", True):
            c = None
        if c is not None:
            self.contract_calls.add(q)
            return c.apply(self, d, this, args, node)
        if body_of(d) is None:
            if d["kind"] == "CXXConstructorDecl" and (d.get("explicitlyDefaulted") or d.get("isImplicit")):
                return self.run_ctor_inits(d, this, None)
            if d.get("isImplicit") or d.get("explicitlyDefaulted"):
                if d.get("name") == "operator=":
                    src = args[0].get() if isinstance(args[0], LV) else args[0]
                    self.assign_obj(this, src)
                    return TempLV(this, d["_rec"]["_T"])
                if d["kind"] == "CXXDestructorDecl":
                    return None
            raise Unsupported("no body for %s" % q, node)
        if self.depth > 60:
            raise Unsupported("recursion without a contract: %s" % q, node)
        self.inlined.add(q + qual_sig(d))
        return self.run_body(d, this, args, node)

    def run_body(self, d, this, args, node=None, env=None):
        fr = Frame(d, this)
        if env:
            fr.vars.update(env)
        saved, savedpath = self.frame, self.callpath
        nid = (node or d).get("_loc") or ("", 0)
        self.callpath = savedpath + "/" + str(d.get("name", "?")) + "@" + str((node or {}).get("id", ""))[-6:]
        fr.path = self.callpath
        self.depth += 1
        savetemps = self.temps
        self.temps = [[]]
        ps = params_of(d)
        ctor = d["kind"] == "CXXConstructorDecl" and isinstance(this, Obj)
        if ctor:
            dyn, this.dyn = this.dyn, d.get("_rec") or this.dyn
        try:
            self.frame = fr
            fr.scopes = [[]]
            for i, p in enumerate(ps):
                pt = typeof(p)
                if i < len(args):
                    a = args[i]
                else:
                    a = self.default_arg(p, d, i)
                if pt.isref:
                    if not isinstance(a, LV):
                        a = Cell(self, pt.noref(), a, self.callpath + "/" + p.get("name", "arg%d" % i))
                    fr.vars[p["id"]] = a
                else:
                    if isinstance(a, LV):
                        a = a.get()
                    c = Cell(self, pt, a, self.callpath + "/" + p.get("name", "arg%d" % i), name=p.get("name"))
                    fr.vars[p["id"]] = c
                    if self.lib.needs_dtor(a):
                        fr.scopes[0].append(c)
            ret = None
            try:
                if d["kind"] == "CXXConstructorDecl":
                    self.run_ctor_inits(d, this, fr)
                b = body_of(d)
                if b["kind"] == "CXXTryStmt":
                    self.stmt(b)
                else:
                    self.stmt(b)
            except ReturnX as r:
                ret = r.v
            finally_exc = None
            self.leave_scope(fr.scopes[0])
            rt = self.ret_type(d)
            if rt is not None and rt.name != "void" or (rt is not None and rt.ptr):
                if ret is None and d["kind"] not in ("CXXConstructorDecl", "CXXDestructorDecl"):
                    raise Unsupported("control reaches the end of %s" % d.get("name"), node)
            return ret
        except CppThrow as x:
            self.leave_scope(fr.scopes[0])
            if "noexcept" in qualtype(d).split(")")[-1]:
                self.prove("no exception leaves a noexcept function (%s)" % d.get("name"), z3.BoolVal(False), node,
                           "safety")
                raise PathEnd()
            raise
        finally:
            self.frame, self.callpath = saved, savedpath
            self.depth -= 1
            self.temps = savetemps
            if ctor:
                this.dyn = dyn

    def ret_type(self, d):
        t = parse_type(qualtype(d)) if qualtype(d) else None
        if t is not None and t.name == "fn":
            return t.args[0]
        return None

    def default_arg(self, p, d, i):
        es = [c for c in p.get("inner", []) if c.get("kind", "").endswith(("Expr", "Operator", "Literal"))
              or c.get("kind") == "ExprWithCleanups"]
        if es:
            return self.ev(es[0])
        # look at other redeclarations
        for f in self.prog.funcs.get("::".join(x for x in d["_qual"] if x), []):
            ps = params_of(f)
            if len(ps) > i and ps[i].get("inner") and typeof(ps[i]).key() == typeof(p).key():
                return self.ev(ps[i]["inner"][0])
        raise Unsupported("default argument of %s" % d.get("name"))

    def run_ctor_inits(self, d, this, fr):
        saved = self.frame
        if fr is None:
            fr = Frame(d, this)
            fr.scopes = [[]]
            self.frame = fr
        try:
            for c in d.get("inner", []):
                if c.get("kind") != "CXXCtorInitializer":
                    continue
                e = c["inner"][0] if c.get("inner") else None
                if "anyInit" in c:
                    cell = this.fields.get(c["anyInit"]["id"])
                    if cell is None:
                        raise Unsupported("field initialiser", d)
                    cell_t = cell.t
                    if e is None:
                        continue
                    if e["kind"] == "CXXDefaultInitExpr":
                        e = self.field_default(c["anyInit"]["id"]) or e
                    v = self.init_value(e, cell_t)
                    self.on_write(cell)
                    cell.v = v
                elif "baseInit" in c:
                    if e is None:
                        continue
                    self.construct(e, this, self.base_type(c["baseInit"]))
                elif "delegatingInit" in c:
                    self.construct(e, this, None)
            return None
        finally:
            self.frame = saved

    def field_default(self, fid):
        f = self.prog.decls.get(fid)
        if f:
            for c in f.get("inner", []):
                if "Expr" in c.get("kind", "") or c.get("kind", "").endswith("Literal") or \
                        c.get("kind") == "ExprWithCleanups":
                    return c
        return None

    def base_type(self, b):
        return parse_type(b.get("desugaredQualType") or b["qualType"])

    def init_value(self, e, t):
        """Value for initialising a variable/field of type t from expression e."""
        if t.isref:
            v = self.ev(e)
            if not isinstance(v, LV):
                v = Cell(self, t.noref(), v)
            return RefBind(v)
        v = self.ev(e)
        if isinstance(v, LV):
            v = v.get()
        return self.lib.adopt(v, t)

    def construct(self, e, obj, bt):
        """Run constructor expression e on an existing object (base or delegating)."""
        while e["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "ImplicitCastExpr", "CXXDefaultInitExpr",
                            "MaterializeTemporaryExpr"):
            e = e["inner"][0]
        if e["kind"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            raise Unsupported("base initialiser %s" % e["kind"], e)
        t = typeof(e)
        rec = self.prog.record(t)
        if rec is None:
            if t.name.startswith("std::"):
                return self.lib.init_base(obj, t, e)
            raise Unsupported("base class %r" % t, e)
        if e["kind"] == "CXXInheritedCtorInitExpr":
            d = self.frame.fn
            args = [self.var(p["id"]) for p in params_of(d)]
            e = dict(e, ctorType={"qualType": re.sub(r" noexcept(\(\w+\))?$", "", qualtype(d))})
        else:
            args = self.args_of([a for a in e.get("inner", []) if a.get("kind")])
        self.run_ctor(rec, obj, args, e)

    def find_ctor(self, rec, e, args):
        ct = (e.get("ctorType") or {}).get("qualType")
        cands = []
        for c in rec.get("inner", []):
            k = c.get("kind")
            if k == "CXXConstructorDecl":
                cands.append(c)
            elif k == "FunctionTemplateDecl":
                cands += [x for x in c.get("inner", []) if x.get("kind") == "CXXConstructorDecl"][1:]
        for c in cands:
            if qualtype(c) == ct:
                return c
        norm = lambda s: repr(parse_type(s)) if s else s
        for c in cands:
            if norm(qualtype(c)) == norm(ct):
                return c
        last = lambda s: re.sub(r"(\w+::)+", "", s) if s else s
        c2 = [c for c in cands if ct and last(qualtype(c)) == last(ct)]
        if len(c2) == 1:
            return c2[0]
        n = len(args)
        c2 = [c for c in cands if len(params_of(c)) == n and not c.get("isImplicit") ]
        if len(c2) == 1:
            return c2[0]
        return None

    def run_ctor(self, rec, obj, args, e):
        c = self.find_ctor(rec, e, args)
        t = rec["_T"]
        if c is not None and self.prog.definition(c["id"]) is not None and body_of(self.prog.definition(c["id"])):
            self.call_function(c, obj, args, e)
            return
        ct = (e.get("ctorType") or {}).get("qualType", "")
        if len(args) == 1 and (c is None or c.get("isImplicit") or c.get("explicitlyDefaulted")) and ct:
            src = args[0].get() if isinstance(args[0], LV) else args[0]
            if isinstance(src, Obj):
                self.copy_fields(obj, src, rec, move="&&" in ct)
                return
        if not args:
            if c is not None and self.prog.definition(c["id"]) is not None:
                c = self.prog.definition(c["id"])
            if c is not None and any(x.get("kind") == "CXXCtorInitializer" for x in c.get("inner", [])):
                self.run_ctor_inits(c, obj, None)
                self.default_fields(obj, rec, only_missing=True)
                return
            self.default_fields(obj, rec)
            return
        raise Unsupported("constructor %s of %r" % (ct, t), e)

    def default_fields(self, obj, rec, only_missing=False):
        for b in rec.get("bases", []):
            br = self.base_rec(b)
            if br is not None:
                self.default_construct(obj, br, only_missing)
        for f in rec.get("inner", []):
            if f.get("kind") == "FieldDecl":
                cell = obj.fields[f["id"]]
                if only_missing and cell.v is not None:
                    continue
                d = self.field_default(f["id"])
                if d is not None:
                    cell.v = self.init_value(d, cell.t)
                else:
                    cell.v = self.default_value(cell.t, obj.label + "." + f.get("name", ""))

    def default_construct(self, obj, rec, only_missing=False):
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and not params_of(c):
                d = self.prog.definition(c["id"])
                if d is not None and body_of(d) is not None:
                    self.call_function(d, obj, [])
                    return
        self.default_fields(obj, rec, only_missing)

    def default_value(self, t, label):
        if t.ptr or t.name in INTS or t.name in ("bool", "double") or self.isenum(t):
            # indeterminate: any value
            return self.indet(t, label)
        v = self.lib.default(t, label)
        if v is not None:
            return v
        rec = self.prog.record(t)
        if rec is not None:
            if self.opaque_record(t):
                return self.fresh("default_" + t.name.split("::")[-1], self.sort_of(t))
            o = self.new_obj(rec, label)
            self.default_construct(o, rec)
            return o
        return None

    def indet(self, t, label):
        if t.ptr:
            return None
        return self.sym(t, "indet_" + label)

    def copy_fields(self, dst, src, rec, move=False):
        for f in self.all_fields(rec):
            sc = src.fields.get(f["id"])
            v = sc.v
            dst.fields[f["id"]].v = self.copy_value(v, sc.t, move)
            if move:
                mv = self.lib.moved_from(v)
                if mv is not None:
                    sc.v = mv

    def copy_value(self, v, t, move=False):
        if isinstance(v, Obj):
            return self.copy_obj(v, move)
        return self.lib.copy(v, move)

    def copy_obj(self, src, move=False):
        rec = src.rec
        o = self.new_obj(rec, self.objlabel(rec))
        # user-provided copy/move constructor?
        want = "&&" if move else "&"
        best = None
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and len(params_of(c)) == 1:
                pt = typeof(params_of(c)[0])
                if pt.isref and pt.name == rec["_T"].name:
                    d = self.prog.definition(c["id"])
                    if d is not None and body_of(d) is not None and not c.get("isImplicit"):
                        if pt.ref == want or best is None:
                            best = d
                    if c.get("explicitlyDeleted"):
                        pass
        if best is not None:
            self.call_function(best, o, [TempLV(src, rec["_T"])])
        else:
            self.copy_fields(o, src, rec, move)
        return o

    def objlabel(self, rec):
        k = rec.get("name", "obj")
        n = self.objcount.get((self.callpath, k), 0)
        self.objcount[(self.callpath, k)] = n + 1
        return "%s/%s#%d" % (self.callpath, k, n)

    def assign_obj(self, dst, src, move=False):
        for f in self.all_fields(dst.rec):
            sc = src.fields.get(f["id"])
            if sc is None:
                raise Unsupported("assignment between different classes")
            v = self.copy_value(sc.get(), sc.t, move)
            c = dst.fields[f["id"]]
            if isinstance(c.v, Obj) and isinstance(v, Obj):
                self.assign_value(c, v)
            else:
                self.lib.assigned(c, v)
                c.set(v)

    def assign_value(self, lv, v):
        cur = lv.v if isinstance(lv, (Cell, TempLV)) else None
        if isinstance(cur, Obj) and isinstance(v, Obj) and cur is not v:
            self.assign_obj(cur, v)
        else:
            self.lib.assigned(lv, v)
            lv.set(v)

    # ------------------------------------------------------------ destruction
    def destroy(self, v):
        if isinstance(v, LV):
            v = v.v if isinstance(v, (Cell, TempLV)) else v.get()
        if isinstance(v, RefBind) or v is None:
            return
        if isinstance(v, Obj):
            if v.dead:
                return
            self.run_dtor(v, v.rec)
            v.dead = True
            return
        self.lib.destroy(v)

    def run_dtor(self, o, rec):
        o.dyn = rec         # virtual calls stay within the class being destroyed
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXDestructorDecl":
                d = self.prog.definition(c["id"])
                if d is not None and body_of(d) is not None:
                    self.call_function(d, o, [])
        for f in reversed([f for f in rec.get("inner", []) if f.get("kind") == "FieldDecl"]):
            c = o.fields[f["id"]]
            if c.v is not None:
                self.destroy(c.v)
        for b in reversed(rec.get("bases", [])):
            br = self.base_rec(b)
            if br is not None:
                self.run_dtor(o, br)

    def leave_scope(self, sc):
        while sc:
            c = sc.pop()
            self.destroy(c)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        if k.endswith(("Expr", "Operator", "Literal")) or k == "ExprWithCleanups":
            v = self.full(n)
            if n.get("valueCategory") == "prvalue" and v is not None and not isinstance(v, LV) and \
                    self.lib.needs_dtor(v):
                self.destroy(v)
            return
        raise Unsupported("statement " + k, n)

    def full(self, n):
        """full-expression: temporaries die at its end"""
        self.temps.append([])
        try:
            v = self.ev(n)
        except (ReturnX, CppThrow):
            for t in reversed(self.temps.pop()):
                self.destroy(t)
            raise
        except BaseException:
            self.temps.pop()
            raise
        for t in reversed(self.temps.pop()):
            self.destroy(t)
        return v

    def s_CompoundStmt(self, n):
        fr = self.frame
        sc = []
        fr.scopes.append(sc)
        try:
            for c in n.get("inner", []):
                self.stmt(c)
        except (ReturnX, BreakX, ContinueX, CppThrow):
            fr.scopes.pop()
            self.leave_scope(sc)
            raise
        except BaseException:
            fr.scopes.pop()
            raise
        fr.scopes.pop()
        self.leave_scope(sc)

    def s_NullStmt(self, n): pass

    def s_AttributedStmt(self, n):
        for c in n.get("inner", []):
            if not c.get("kind", "").endswith("Attr"):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl",
                               "UsingDirectiveDecl", "EnumDecl", "UsingShadowDecl"):
                pass
            else:
                raise Unsupported("declaration " + d["kind"], d)

    def declare(self, d):
        t = typeof(d)
        if d.get("storageClass") == "static":
            c = self.static_cell(d)
            self.frame.vars[d["id"]] = c
            return
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")
                and not c["kind"].endswith("Comment")]
        label = "%s/%s#%s" % (self.callpath, d.get("name"), d["id"][-6:])
        if init:
            self.temps.append([])
            try:
                v = self.init_value(init[0], t)
            finally:
                ts = self.temps.pop()
            if isinstance(v, RefBind):
                for x in reversed(ts):
                    if x is not v.lv:
                        self.destroy(x)
                    else:
                        self.frame.scopes[-1].append(x)
                self.frame.vars[d["id"]] = v.lv
                return
            for x in reversed(ts):
                self.destroy(x)
        else:
            v = self.default_value(t, d.get("name", "v"))
        c = Cell(self, t, v, label, name=d.get("name"))
        self.frame.vars[d["id"]] = c
        if self.lib.needs_dtor(v):
            self.frame.scopes[-1].append(c)

    def static_cell(self, d):
        c = self.statics.get(d["id"])
        if c is None:
            h = self.hooks.get("static")
            if h:
                c = h(d)
                if c is not None:
                    self.statics[d["id"]] = c
                    return c
            init = [x for x in d.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
            t = typeof(d)
            sf = self.frame
            self.temps.append([])
            v = self.init_value(init[0], t) if init else self.default_value(t, d.get("name", "s"))
            self.temps.pop()
            if isinstance(v, RefBind):
                c = v.lv
            else:
                c = Cell(self, t, v, "static/" + d.get("name", "") + d["id"][-6:], name=d.get("name"))
            c.seq = -1
            self.statics[d["id"]] = c
        return c

    def s_ReturnStmt(self, n):
        if n.get("inner"):
            v = self.full(n["inner"][0])
            rt = self.ret_type(self.frame.fn) if self.frame.fn is not None else None
            if rt is None or not rt.isref:
                if isinstance(v, LV):
                    v = v.get()
            elif not isinstance(v, LV):
                v = TempLV(v, rt.noref())
            raise ReturnX(v)
        raise ReturnX(None)

    def s_IfStmt(self, n):
        inner = n["inner"]
        i = 0
        sc = []
        self.frame.scopes.append(sc)
        try:
            if n.get("hasInit"):
                self.stmt(inner[i]); i += 1
            if n.get("hasVar"):
                self.stmt(inner[i]); i += 1
            if n.get("isConstexpr"):
                pass
            c = self.cond(inner[i]); i += 1
            if self.branch(c, n):
                self.stmt(inner[i])
            elif n.get("hasElse"):
                self.stmt(inner[i + 1])
        except (ReturnX, BreakX, ContinueX, CppThrow):
            self.frame.scopes.pop()
            self.leave_scope(sc)
            raise
        except BaseException:
            self.frame.scopes.pop()
            raise
        self.frame.scopes.pop()
        self.leave_scope(sc)

    def cond(self, n):
        v = self.full(n)
        if isinstance(v, LV):
            v = v.get()
        return self.truth(v)

    def s_BreakStmt(self, n): raise BreakX()
    def s_ContinueStmt(self, n): raise ContinueX()

    def s_SwitchStmt(self, n):
        inner = n["inner"]
        i = 0
        if n.get("hasInit"):
            self.stmt(inner[i]); i += 1
        if n.get("hasVar"):
            self.stmt(inner[i]); i += 1
        v = self.full(inner[i])
        if isinstance(v, LV):
            v = v.get()
        body = inner[i + 1]
        # flatten: list of statements with labels
        flat = []

        def add(s):
            labels = []
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    labels.append(s["inner"][0])
                    s = s["inner"][1]
                else:
                    labels.append(None)
                    s = s["inner"][0]
            flat.append((labels, s))
        for s in body.get("inner", []):
            add(s)
        start, default = None, None
        for j, (labels, s) in enumerate(flat):
            for l in labels:
                if l is None:
                    default = j
                else:
                    lv = self.ev(l)
                    if start is None and self.branch(v == lv, n):
                        start = j
                        break
            if start is not None:
                break
        if start is None:
            # default may lie after cases not yet seen; all cases were tried above
            for labels, _ in flat:
                pass
            start = default
        if start is None:
            return
        sc = []
        self.frame.scopes.append(sc)
        try:
            try:
                for labels, s in flat[start:]:
                    self.stmt(s)
            except BreakX:
                pass
        except (ReturnX, ContinueX, CppThrow):
            self.frame.scopes.pop()
            self.leave_scope(sc)
            raise
        except BaseException:
            self.frame.scopes.pop()
            raise
        self.frame.scopes.pop()
        self.leave_scope(sc)

    def s_CXXTryStmt(self, n):
        inner = n["inner"]
        try:
            self.stmt(inner[0])
        except CppThrow as x:
            for h in inner[1:]:
                hi = h.get("inner", [])
                var = hi[0] if hi and hi[0].get("kind") == "VarDecl" else None
                if var is None or self.catches(typeof(var), x.t):
                    if var is not None:
                        self.frame.vars[var["id"]] = TempLV(x.val, x.t)
                    old = self.path_state.get("current_exc")
                    self.path_state["current_exc"] = x
                    try:
                        self.stmt(hi[-1])
                    finally:
                        self.path_state["current_exc"] = old
                    return
            raise

    STD_EXC = {"std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
               "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
               "std::bad_alloc": "std::exception", "std::length_error": "std::logic_error",
               "std::domain_error": "std::logic_error", "std::regex_error": "std::runtime_error",
               "std::system_error": "std::runtime_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
               "std::future_error": "std::logic_error", "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception",
               "std::ios_base::failure": "std::system_error"}

    def supers(self, t):
        out = [t.name]
        rec = self.prog.record(t)
        if rec is not None:
            for b in rec.get("bases", []):
                out += self.supers(self.base_type(b["type"]))
        elif t.name in self.STD_EXC:
            out += self.supers(T(self.STD_EXC[t.name]))
        return out

    def catches(self, ct, t):
        name, sup = ct.noref().name, self.supers(t)
        if name in sup:
            return True
        rec = self.prog.record(ct.noref())
        if rec is not None:
            return rec["_T"].name in sup
        return any(x.endswith("::" + name) for x in sup)

    # loops
    def s_WhileStmt(self, n):
        inner = n["inner"]
        if n.get("hasVar"):
            raise Unsupported("while with declaration", n)
        self.loop(n, lambda: self.cond(inner[0]), lambda: self.stmt(inner[1]), None)

    def s_DoStmt(self, n):
        inner = n["inner"]
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return z3.BoolVal(True)
            return self.cond(inner[1])
        self.loop(n, cond, lambda: self.stmt(inner[0]), None, dowhile=(lambda: self.cond(inner[1])))

    def s_ForStmt(self, n):
        init, var, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        sc = []
        self.frame.scopes.append(sc)
        try:
            if init.get("kind"):
                self.stmt(init)
            c = (lambda: self.cond(cond)) if cond.get("kind") else (lambda: z3.BoolVal(True))
            self.loop(n, c, lambda: self.stmt(body), (lambda: self.stmt(inc)) if inc.get("kind") else None)
        except (ReturnX, BreakX, ContinueX, CppThrow):
            self.frame.scopes.pop()
            self.leave_scope(sc)
            raise
        except BaseException:
            self.frame.scopes.pop()
            raise
        self.frame.scopes.pop()
        self.leave_scope(sc)

    def s_CXXForRangeStmt(self, n):
        ini, rng, beg, end, cond, inc, var, body = n["inner"]
        sc = []
        self.frame.scopes.append(sc)
        try:
            if ini.get("kind"):
                self.stmt(ini)
            self.stmt(rng)
            self.stmt(beg)
            self.stmt(end)

            def run():
                s2 = []
                self.frame.scopes.append(s2)
                try:
                    self.stmt(var)
                    self.stmt(body)
                except (ReturnX, BreakX, ContinueX, CppThrow):
                    self.frame.scopes.pop()
                    self.leave_scope(s2)
                    raise
                except BaseException:
                    self.frame.scopes.pop()
                    raise
                self.frame.scopes.pop()
                self.leave_scope(s2)
            self.loop(n, lambda: self.cond(cond), run, lambda: self.stmt(inc))
        except (ReturnX, BreakX, ContinueX, CppThrow):
            self.frame.scopes.pop()
            self.leave_scope(sc)
            raise
        except BaseException:
            self.frame.scopes.pop()
            raise
        self.frame.scopes.pop()
        self.leave_scope(sc)

    def one_iter(self, body, inc):
        """-> True if the loop was left by break"""
        try:
            body()
        except ContinueX:
            pass
        except BreakX:
            return True
        if inc:
            inc()
        return False

    def unroll(self, n, key, cond, body, inc):
        # 1. does the loop have a bound decided by constants?
        k = 0
        seqmark = len(self.cells)
        endless = n["kind"] == "ForStmt" and not n["inner"][2].get("kind") or \
            n["kind"] == "WhileStmt" and n["inner"][0].get("kind") == "CXXBoolLiteralExpr"
        # try to unroll while the condition is decided
        while k < self.UNROLL:
            if k and endless and len(self._taken) > mark and not self.force_unroll(n, key):
                break       # an endless loop left by an undecided exit
            c = cond()
            s = z3.simplify(c)
            if z3.is_false(s):
                return
            if not z3.is_true(s):
                if self.holds(c):
                    pass
                elif not self.feasible(c):
                    self.assume(z3.Not(c))
                    return
                else:
                    break
            mark = len(self._taken)
            if self.one_iter(body, inc):
                return
            k += 1
        else:
            raise Unsupported("loop does not end within %d decided iterations" % self.UNROLL, n)
        if self.force_unroll(n, key):
            while True:
                if not self.branch(c, n):
                    return
                if self.one_iter(body, inc):
                    return
                k += 1
                if k > self.UNROLL:
                    raise Unsupported("loop not bounded by %d" % self.UNROLL, n)
                c = cond()
        # needs an invariant: start over with the loop registered as cut
        self.loops[key] = LoopInfo()
        raise Restart()

    def loop(self, n, cond, body, inc, dowhile=None):
        key = self.callpath + "|" + n["id"]
        if not self.loops.get(key):
            if self.hooks.get("cut") and self.hooks["cut"](n):
                self.loops[key] = LoopInfo()
                raise Restart()
            self.unrolling.append(key)
            try:
                return self.unroll(n, key, cond, body, inc)
            finally:
                self.unrolling.pop()
        info = self.loops[key]
        entry = {c.label: c.v for c in self.cells if not c.dead}
        scope = self.scope_cells(key)
        ctx = LoopCtx(self, n, entry, scope, info)
        # invariants on entry
        ctx.phase = "entry"
        for nm, term, hyps in self.inv_candidates(ctx):
            if nm in info.dropped:
                continue
            if not self.check_inv(info, nm, term, n, "holds on entry", hyps):
                info.dropped.add(nm)
                raise Restart()
        # arbitrary state
        for c in self.cells:
            if c.label in info.modified:
                c.v = self.lib.havoc(c)
        hv = self.hooks.get("havoc_loop")
        if hv:
            hv(ctx)
        ctx.phase = "head"
        seqmark = len(self.cells)
        for nm, term, hyps in self.inv_candidates(ctx):
            if nm not in info.dropped:
                self.assume(term)
        L = {"seq": seqmark, "info": info, "key": key}
        head = {c.label: c.v for c in self.cells}
        first = dowhile is not None
        self.loopstack.append(L)
        try:
            c = z3.BoolVal(True) if first else cond()
            go = self.branch(c, n)
        except BaseException:
            self.loopstack.remove(L)
            raise
        if not go:
            self.loopstack.remove(L)
            return
        try:
            brk = self.one_iter(body, inc)
            if dowhile is not None and not brk:
                brk = not self.branch(dowhile(), n)
        finally:
            if L in self.loopstack:
                self.loopstack.remove(L)
        if brk:
            return
        # back edge
        ctx.phase = "back"
        ctx.head = head
        for nm, term, hyps in self.inv_candidates(ctx):
            if nm in info.dropped:
                continue
            if not self.check_inv(info, nm, term, n, "preserved", hyps):
                info.dropped.add(nm)
                raise Restart()
        if self.hooks.get("decreases"):
            self.hooks["decreases"](ctx)
        raise PathEnd()

    def force_unroll(self, n, key):
        return self.hooks.get("unroll") and self.hooks["unroll"](n)

    def scope_cells(self, key):
        return [c for c in self.cells if not c.dead]

    def inv_candidates(self, ctx):
        out = []
        for gen in self.invariants:
            for nm, term, *hyps in gen(ctx) or ():
                if isinstance(term, bool):
                    term = z3.BoolVal(term)
                out.append((nm, term, hyps[0] if hyps else None))
        return out

    INV_TIMEOUT = 8

    def check_inv(self, info, nm, term, n, what, hyps=None):
        """hyps: the hypotheses to use instead of the whole path condition (fewer is sound)"""
        if hyps is None and self.holds(term):
            ok, st = True, ("proved", "z3", 0)
        else:
            st = solve(self.pc if hyps is None else hyps, term, self.INV_TIMEOUT)
            ok = st[0] == "proved"
        if ok:
            self.prove("loop invariant '%s' %s" % (nm, what), term, n, "invariant")
            if hyps is not None:
                self.obls[-1].hyps = list(hyps)
        return ok

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression " + n["kind"], n)
        return m(n)

    def rv(self, n):
        v = self.ev(n)
        return v.get() if isinstance(v, LV) else v

    def passthru(self, n):
        return self.ev(n["inner"][0])

    e_ParenExpr = passthru
    e_ConstantExpr = passthru
    e_SubstNonTypeTemplateParmExpr = lambda self, n: self.ev([c for c in n["inner"] if c.get("kind") and not
                                                              c["kind"].endswith("Decl")][-1])
    e_CXXBindTemporaryExpr = passthru
    e_CXXStdInitializerListExpr = passthru
    e_OpaqueValueExpr = passthru
    e_CXXDefaultInitExpr = lambda self, n: self.passthru(n) if n.get("inner") else self.unsup("default init", n)

    def unsup(self, m, n):
        raise Unsupported(m, n)

    def e_ExprWithCleanups(self, n):
        return self.ev(n["inner"][0])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n["inner"][0])
        if isinstance(v, LV):
            return v
        c = Cell(self, typeof(n).noref(), v, "%s/mat#%s" % (self.callpath, n["id"][-6:]))
        if self.lib.needs_dtor(v):
            self.temps[-1].append(c)
        return c

    def e_IntegerLiteral(self, n):
        return self.mkint(int(n["value"]), typeof(n))

    def e_CharacterLiteral(self, n):
        v = n["value"]
        return self.mkint(v if v < 128 else v - 256, typeof(n))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def e_FloatingLiteral(self, n):
        return z3.FPVal(float(n["value"]), z3.FPSort(11, 53))

    def e_StringLiteral(self, n):
        return self.strlit(n["value"])

    def e_PredefinedExpr(self, n):
        return z3.StringVal("fn")

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def e_GNUNullExpr(self, n):
        return Ptr(None)

    def e_CXXScalarValueInitExpr(self, n):
        t = typeof(n)
        if t.ptr:
            return Ptr(None)
        if t.name == "bool":
            return z3.BoolVal(False)
        if t.name == "void":
            return None
        return self.mkint(0, t)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXThisExpr(self, n):
        f = self.frame
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("this", n)
        return Ptr(TempLV(f.this, None))

    def e_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        v = self.var(rd["id"])
        if v is not None:
            return v
        k = rd["kind"]
        if k == "EnumConstantDecl":
            d = self.prog.decls.get(rd["id"])
            if d is None or "_value" not in d:
                r = self.lib.enum_constant(rd, n)
                if r is not None:
                    return r
                raise Unsupported("enumerator %s" % rd.get("name"), n)
            return self.mkint(d["_value"], d["_enum"])
        if k in FUNCS:
            d = self.prog.decls.get(rd["id"])
            return FnV("decl", d, name=rd.get("name")) if d is not None else FnV("std", name=rd.get("name"))
        if k == "VarDecl":
            d = self.prog.decls.get(rd["id"])
            if d is not None:
                h = self.hooks.get("global")
                if h:
                    c = h(d)
                    if c is not None:
                        return c
                c = self.statics.get(d["id"])
                if c is not None:
                    return c
                g = self.prog.globals.get("::".join(x for x in d.get("_qual", []) if x))
                dd = d
                if not any(x.get("kind") and not x["kind"].endswith(("Attr", "Comment")) for x in d.get("inner", [])):
                    # out-of-line definition elsewhere
                    for x in self.prog.decls.values():
                        if x.get("kind") == "VarDecl" and x.get("name") == d.get("name") and x is not d and \
                                (x.get("previousDecl") == d["id"] or x.get("_qual") == d.get("_qual")) and \
                                any(y.get("kind") and not y["kind"].endswith(("Attr", "Comment")) for y in
                                    x.get("inner", [])):
                            dd = x
                            break
                sf = self.frame
                self.frame = Frame(None)
                self.frame.scopes = [[]]
                try:
                    c = self.static_cell(dd)
                finally:
                    self.frame = sf
                self.statics[d["id"]] = c
                return c
            r = self.lib.std_global(rd, n)
            if r is not None:
                return r
        raise Unsupported("reference to %s %s" % (k, rd.get("name")), n)

    def e_MemberExpr(self, n):
        rid = n.get("referencedMemberDecl")
        base = self.ev(n["inner"][0])
        if n.get("isArrow"):
            if isinstance(base, LV):
                base = base.get()
            base = self.deref(base, n)
        o = base
        if isinstance(o, LV):
            o = o.v if isinstance(o, TempLV) else o.get()
        if isinstance(o, Obj):
            c = o.fields.get(rid)
            if c is not None:
                if isinstance(c.v, RefBind):
                    return c.v.lv
                return c
            d = self.prog.decls.get(rid)
            if d is not None and d["kind"] == "VarDecl":
                return self.e_DeclRefExpr({"kind": "DeclRefExpr", "referencedDecl": {"id": rid, "kind": "VarDecl",
                                                                                     "name": d.get("name")}})
            for c in o.byname.values():
                pass
            raise Unsupported("member %s" % n.get("name"), n)
        r = self.lib.member(base, o, n)
        if r is not None:
            return r
        raise Unsupported("member %s of %r" % (n.get("name"), o), n)

    def deref(self, p, n):
        """pointer value -> location"""
        if isinstance(p, Ptr):
            self.prove("no null dereference", z3.Not(p.null), n, "safety")
            self.assume(z3.Not(p.null))
            if p.target is None:
                h = self.hooks.get("deref")
                if h:
                    r = h(p, n)
                    if r is not None:
                        return r
                raise Unsupported("dereference of a pointer of unknown target", n)
            return p.target
        r = self.lib.deref(p, n)
        if r is not None:
            return r
        raise Unsupported("dereference of %r" % (p,), n)

    def e_ImplicitCastExpr(self, n):
        ck = n["castKind"]
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.ev(sub)
            return v.get() if isinstance(v, LV) else v
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "FunctionToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "BuiltinFnToFnPtr", "BaseToDerived", "Dynamic"):
            return self.ev(sub)
        if ck == "ArrayToPointerDecay":
            v = self.ev(sub)
            if isinstance(v, LV) and not isinstance(v, z3.ExprRef):
                return self.lib.decay(v, sub)
            return v
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.conv(self.rv(sub), typeof(sub), typeof(n))
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(self.rv(sub), typeof(sub))
        if ck == "NullToPointer":
            return Ptr(None)
        if ck == "ToVoid":
            self.ev(sub)
            return None
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean"):
            return self.lib.fpcast(ck, self.rv(sub), typeof(sub), typeof(n), n)
        if ck == "BitCast":
            return self.ev(sub)
        raise Unsupported("cast " + ck, n)

    def cast(self, n):
        t = typeof(n)
        if n.get("castKind") in ("ConstructorConversion", "UserDefinedConversion"):
            return self.ev(n["inner"][0])
        return self.e_ImplicitCastExpr(n)

    e_CXXStaticCastExpr = cast
    e_CStyleCastExpr = cast
    e_CXXFunctionalCastExpr = cast
    e_CXXConstCastExpr = cast
    e_BuiltinBitCastExpr = cast

    def e_CXXReinterpretCastExpr(self, n):
        r = self.lib._ext("reinterpret", self.ev(n["inner"][0]), typeof(n), n)
        if r is None:
            raise Unsupported("reinterpret_cast", n)
        return r

    def e_CXXDynamicCastExpr(self, n):
        r = self.lib._ext("dynamic_cast", self.ev(n["inner"][0]), typeof(n), n)
        if r is None:
            raise Unsupported("dynamic_cast", n)
        return r

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        sub = n["inner"][0]
        t = typeof(n)
        if op == "!":
            return z3.Not(self.truth(self.rv(sub)))
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] in FUNCS:
                return self.ev(sub)
            v = self.ev(sub)
            if isinstance(v, FnV):
                return v
            return Ptr(v)
        if op == "*":
            p = self.rv(sub)
            if isinstance(p, FnV):
                return p
            r = self.deref(p, n)
            return r
        if op in ("++", "--"):
            lv = self.ev(sub)
            old = lv.get()
            st = typeof(sub)
            if isinstance(old, z3.ExprRef) and not st.ptr:
                one = self.mkint(1, st)
                # small types are promoted, then converted back
                it = self.int_t(st)
                if INTS[it.name][0] < 32:
                    new = self.wrap(old + 1 if op == "++" else old - 1, it) if self.intmode == "int" else \
                        (old + 1 if op == "++" else old - 1)
                else:
                    new = self.arith(op[0], old, one, st, n)
                lv.set(new)
            else:
                new = self.lib.incr(lv, old, op, n)
            return old if n.get("isPostfix") else lv
        v = self.rv(sub)
        if op == "-":
            if t.name == "double":
                return z3.fpNeg(v)
            return self.arith("-", self.mkint(0, t), v, t, n)
        if op == "+":
            return v
        if op == "~":
            if self.intmode == "bv":
                return ~v
            it = self.int_t(t)
            return self.wrap(-v - 1, it)
        raise Unsupported("unary " + op, n)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "&&":
            x = self.truth(self.rv(a))
            if not self.branch(x, n):
                return z3.BoolVal(False)
            return self.truth(self.rv(b))
        if op == "||":
            x = self.truth(self.rv(a))
            if self.branch(x, n):
                return z3.BoolVal(True)
            return self.truth(self.rv(b))
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op == "=":
            v = self.rv(b)
            lv = self.ev(a)
            self.assign_value(lv, v)
            return lv
        va = self.rv(a)
        vb = self.rv(b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, va, vb, typeof(a), n)
        if typeof(a).ptr or typeof(b).ptr or isinstance(va, (Ptr, IterV)):
            r = self.lib.ptr_arith(op, va, vb, n)
            if r is not None:
                return r
        return self.arith(op, va, vb, typeof(n), n)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        vb = self.rv(b)
        lv = self.ev(a)
        va = lv.get()
        ct = parse_type((n.get("computeResultType") or n["type"]).get("desugaredQualType") or
                        (n.get("computeResultType") or n["type"])["qualType"])
        lt = parse_type((n.get("computeLHSType") or n["type"]).get("desugaredQualType") or
                        (n.get("computeLHSType") or n["type"])["qualType"])
        at = typeof(a)
        if at.ptr:
            lv.set(self.lib.ptr_arith(op, va, vb, n))
            return lv
        if at.name == "bool":
            va = self.conv(va, at, lt)
            r = self.arith(op, va, vb, ct, n)
            lv.set(self.truth(r))
            return lv
        if self.isint(at) and self.isint(lt):
            va = self.conv(va, at, lt)
            r = self.arith(op, va, vb, ct, n)
            lv.set(self.conv(r, ct, at))
            return lv
        r = self.lib.compound(op, va, vb, at, lt, ct, n)
        lv.set(r)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        x = self.truth(self.rv(c))
        if self.branch(x, n):
            return self.ev(a)
        return self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        base = self.ev(n["inner"][0])
        i = self.rv(n["inner"][1])
        if isinstance(base, LV):
            base = base.get()
        return self.lib.subscript_ptr(base, i, n)

    def e_InitListExpr(self, n):
        t = typeof(n)
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        if t.name == "std::array":
            while len(inner) == 1 and inner[0]["kind"] == "InitListExpr":
                inner = [c for c in inner[0].get("inner", []) if c.get("kind")]
            items = [self.rv(c) for c in inner]
            k = int(t.args[1].name)
            while len(items) < k:
                items.append(self.default_value(t.args[0], "array[%d]" % len(items)))
            return Vec(z3.IntVal(k), None, t.args[0], items)
        if t.name in ("array", "std::initializer_list"):
            items = []
            for c in inner:
                v = self.rv(c)
                items.append(v)
            et = t.args[0]
            return Vec(z3.IntVal(len(items)), None, et, items)
        if is_class(t):
            rec = self.prog.record(t)
            o = self.new_obj(rec, self.objlabel(rec))
            fs = self.all_fields(rec)
            for i, f in enumerate(fs):
                if i < len(inner):
                    e = inner[i]
                    if e["kind"] == "CXXDefaultInitExpr":
                        e = self.field_default(f["id"])
                    o.fields[f["id"]].v = self.init_value(e, typeof(f))
                else:
                    o.fields[f["id"]].v = self.default_value(typeof(f), f.get("name", ""))
            return o
        if len(inner) == 1:
            return self.ev(inner[0])
        if self.prog.record(t) is None and all(c["kind"] in ("ImplicitValueInitExpr", "InitListExpr") for c in inner):
            r = self.lib._ext("zeroed", t, n)       # a struct of C, {} or {0}
            if r is not None:
                return r
        if not inner:
            return self.e_CXXScalarValueInitExpr(n) if (t.ptr or self.isint(t) or t.name == "bool") else \
                self.default_value(t, "init")
        r = self.lib.init_list(t, [self.rv(c) for c in inner], n)
        if r is not None:
            return r
        raise Unsupported("initialiser list of %r" % t, n)

    def e_LambdaExpr(self, n):
        rec = n["inner"][0]
        op = None
        fields = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                op = c
            elif c.get("kind") == "FieldDecl":
                fields.append(c)
            elif c.get("kind") == "FunctionTemplateDecl":
                raise Unsupported("generic lambda", n)
        inits = [c for c in n["inner"][1:] if c.get("kind") and c["kind"] != "CompoundStmt"]
        env = {}
        this = None
        for f, i in zip(fields, inits):
            ft = typeof(f)
            ref = find_ref(i)
            if i["kind"] == "CXXThisExpr" or (ft.ptr and find_kind(i, "CXXThisExpr") and ref is None):
                this = self.e_CXXThisExpr(i).target.v
                continue
            if ref is None:
                raise Unsupported("lambda capture", n)
            if ft.isref:
                env[ref] = self.var(ref) or self.ev(i)
            else:
                v = self.rv(i)
                env[ref] = Cell(self, ft, v, "%s/cap#%s" % (self.callpath, ref[-6:]))
        if this is None:
            f = self.frame
            while f is not None and f.this is None:
                f = f.parent
            if f is not None and any(find_kind(i, "CXXThisExpr") for i in inits):
                this = f.this
        return FnV("lambda", op, env, this, name="lambda")

    def invoke(self, f, args, node=None):
        """Call a callable value."""
        if isinstance(f, LV):
            f = f.get()
        if isinstance(f, Ptr):
            f = f.target if not isinstance(f.target, LV) else f.target.get()
        if isinstance(f, FnV):
            if f.kind == "lambda":
                d = f.node
                if body_of(d) is None:
                    d = self.prog.definition(d["id"])
                return self.run_body(d, f.this, args, node, f.env)
            if f.kind == "decl":
                if f.node.get("kind") == "CXXMethodDecl" and f.node.get("storageClass") != "static" and f.this is None and args:
                    # a pointer to a member: the first argument is the object
                    o = rvalue_of(args[0])
                    if isinstance(o, Ptr):
                        o = o.target if not isinstance(o.target, LV) else o.target.get()
                    return self.call_function(f.node, o, args[1:], node)
                return self.call_function(f.node, f.this, args, node)
            if f.kind == "py":
                return f.node(self, args)
            if f.kind == "opaque" and self.opaque_call:
                return self.opaque_call(f, args, node)
            if f.kind == "std":
                return self.lib.call_free(f.name, args, node or {}, [])
        raise Unsupported("call of %r" % (f,), node)

    def args_of(self, nodes):
        out = []
        for a in nodes:
            if a["kind"] == "CXXDefaultArgExpr":
                break
            out.append(self.ev(a))
        return out

    def callee(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def e_CallExpr(self, n):
        c = self.callee(n["inner"][0])
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"]["kind"] in FUNCS:
            rd = c["referencedDecl"]
            d = self.prog.decls.get(rd["id"])
            if d is not None:
                args = self.args_of(n["inner"][1:])
                return self.call_function(d, None, args, n)
            return self.lib.free_call(rd["name"], n["inner"][1:], n, c)
        f = self.ev(n["inner"][0])
        return self.invoke(f, self.args_of(n["inner"][1:]), n)

    def e_CXXMemberCallExpr(self, n):
        m = n["inner"][0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        if m["kind"] != "MemberExpr":
            raise Unsupported("member call through " + m["kind"], n)
        base_n = m["inner"][0]
        base = self.ev(base_n)
        if m.get("isArrow"):
            if isinstance(base, LV):
                base = base.get()
            base = self.deref(base, n)
        o = base.v if isinstance(base, TempLV) else (base.get() if isinstance(base, LV) else base)
        if isinstance(o, RefBind):
            base = o.lv
            o = base.get()
        if isinstance(o, Obj):
            d = self.prog.decls.get(m.get("referencedMemberDecl"))
            if d is None:
                r = self.lib.obj_base_call(o, base, m["name"], n)
                return r
            d = self.devirtualize(d, o, m)
            args = self.args_of(n["inner"][1:])
            return self.call_function(d, o, args, n)
        return self.lib.method(base, o, m["name"], n["inner"][1:], n, typeof(base_n))

    def devirtualize(self, d, o, m):
        if d["kind"] == "CXXDestructorDecl":
            return d
        if not self.is_virtual(d):
            return d
        # explicit qualification disables dispatch, but clang's dump does not show it; look at base cast
        if self.explicit_qual(m):
            return d
        return self.override(o.dyn or o.rec, d) or d

    def explicit_qual(self, m):
        """whether the member is named with its class (Base::f): no text but -> or . separates the object from a plain name"""
        r, b = m.get("range"), m["inner"][0]
        if not r or m.get("kind") != "MemberExpr":
            return False
        pos = lambda x: (x.get("spellingLoc") or x)
        beg, end = pos(r["begin"]), pos(r["end"])
        if "offset" not in beg or "offset" not in end:
            return False
        while b.get("kind") in ("ImplicitCastExpr",) and b.get("inner"):
            b = b["inner"][0]
        if b.get("kind") == "CXXThisExpr" and b.get("implicit"):
            return beg["offset"] != end["offset"]
        be = pos(b["range"]["end"])
        f = m["_loc"][0] if m.get("_loc") else None
        try:
            src = open(f, "rb").read()
        except (OSError, TypeError):
            return False
        return b"::" in src[be["offset"] + be.get("tokLen", 0):end["offset"]]

    def is_virtual(self, d):
        while d is not None:
            if d.get("virtual") or any(c.get("kind") == "OverrideAttr" for c in d.get("inner", [])):
                return True
            d = self.prog.decls.get(d.get("previousDecl"))      # defined out of the class
        return False

    def override(self, rec, d):
        sig = sig_params(d)
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == d.get("name") and sig_params(c) == sig:
                return c
        for b in rec.get("bases", []):
            br = self.base_rec(b)
            if br is not None:
                r = self.override(br, d)
                if r is not None:
                    return r
        return None

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n["inner"][0])
        rd = c.get("referencedDecl") or {}
        name = rd.get("name", "")
        argn = n["inner"][1:]
        d = self.prog.decls.get(rd.get("id"))
        if d is not None:
            if d["kind"] in ("CXXMethodDecl",):
                base = self.ev(argn[0])
                o = base.v if isinstance(base, TempLV) else (base.get() if isinstance(base, LV) else base)
                if isinstance(o, FnV):
                    return self.invoke(o, self.args_of(argn[1:]), n)
                if isinstance(o, z3.ExprRef):
                    r = self.lib.opaque_op(name, base, o, [self.ev(a) for a in argn[1:]], n)
                    if r is not None:
                        return r
                if not isinstance(o, Obj):
                    r = self.lib.operator(name, [base] + [self.ev(a) for a in argn[1:]], n)
                    return r
                d = self.devirtualize(d, o, {"inner": [argn[0]]})
                return self.call_function(d, o, self.args_of(argn[1:]), n)
            args = [self.ev(a) for a in argn]
            return self.call_function(d, None, args, n)
        if name == "operator()" and argn:
            f = self.ev(argn[0])
            if isinstance(f, LV):
                r = self.lib.invoke_ref(f, argn[1:], n)
                if r is not None:
                    return r
            fv = f.get() if isinstance(f, LV) else f
            if isinstance(fv, FnV):
                return self.invoke(fv, self.args_of(argn[1:]), n)
            return self.lib.operator(name, [f] + self.args_of(argn[1:]), n)
        args = [self.ev(a) for a in argn]
        return self.lib.operator(name, args, n)

    def e_CXXConstructExpr(self, n):
        t = typeof(n).noref()
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        if t.name.startswith("eprosima"):
            rec = self.prog.record(t)
            if rec is None:
                raise Unsupported("class %r" % t, n)
            if self.opaque_record(t):
                if inner and inner[0].get("kind") and (len(inner) == 1 or inner[1]["kind"] == "CXXDefaultArgExpr"):
                    r = self.lib.opaque_construct(t, inner, n)
                    if r is not None:
                        return r
                    v = self.rv(inner[0])
                    if isinstance(v, z3.ExprRef) and v.sort() == self.sort_of(t):
                        return v
                elif len(inner) > 1:
                    r = self.lib.opaque_construct(t, inner, n)
                    if r is not None:
                        return r
                if not inner:
                    return self.default_value(t, "opq")
            if n.get("elidable") and len(inner) == 1:
                v = self.rv(inner[0])
                if isinstance(v, Obj):
                    return v
            h = self.hooks.get("construct")
            if h:
                r = h(rec, t, inner, n)
                if r is not None:
                    return r
            args = self.args_of(inner)
            if len(args) == 1:
                src = args[0].v if isinstance(args[0], (Cell, TempLV)) else (args[0].get() if isinstance(args[0], LV)
                                                                             else args[0])
                if isinstance(src, FnV):
                    pass
            o = self.new_obj(rec, self.objlabel(rec))
            if n.get("zeroing") and not args:
                for cc in o.fields.values():
                    if cc.t.ptr:
                        cc.v = Ptr(None)
                    elif self.isint(cc.t):
                        cc.v = self.mkint(0, cc.t)
                    elif cc.t.name == "bool":
                        cc.v = z3.BoolVal(False)
                self.run_ctor(rec, o, args, n) if self.find_ctor(rec, n, args) is not None and \
                    self.prog.definition(self.find_ctor(rec, n, args)["id"]) is not None else \
                    self.default_fields(o, rec, only_missing=True)
                return o
            self.run_ctor(rec, o, args, n)
            return o
        if "lambda at" in t.name or t.name.startswith("(lambda"):
            return self.rv(inner[0])
        return self.lib.construct(t, inner, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n):
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        if not inner:
            x = self.path_state.get("current_exc")
            if x is None:
                raise Unsupported("rethrow", n)
            raise CppThrow(x.t, x.val)
        t = typeof(inner[0]).noref()
        try:
            v = self.rv(inner[0])
        except Unsupported as u:
            # the message is not part of any property
            if t.name.startswith(("eprosima::utils::", "std::")):
                v = Opaque(t)
            else:
                raise
        raise CppThrow(t, v)

    def e_CXXNewExpr(self, n):
        t = typeof(n).pointee()
        inner = [c for c in n.get("inner", []) if c.get("kind")]
        h = self.hooks.get("new")
        if h:
            r = h(t, inner, n)
            if r is not None:
                return r
        if inner:
            v = self.rv(inner[-1])
        else:
            v = self.default_value(t, "new")
        c = Cell(self, t, v, "%s/new#%s" % (self.callpath, n["id"][-6:]))
        return Ptr(c)

    def e_CXXDeleteExpr(self, n):
        p = self.rv(n["inner"][0])
        h = self.hooks.get("delete")
        if h:
            r = h(p, n)
            if r is not None:
                return None
        if isinstance(p, Ptr):
            if self.branch(p.null, n):
                return None
            if p.target is not None:
                tv = p.target.v if isinstance(p.target, (Cell, TempLV)) else None
                if isinstance(tv, Obj):
                    self.prove("no double delete", z3.BoolVal(not tv.dead), n, "safety")
                self.destroy(p.target)
                if isinstance(p.target, Cell):
                    p.target.dead = True
                return None
        raise Unsupported("delete", n)

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument", n)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get("argType") or {}
        t = parse_type(at.get("desugaredQualType") or at.get("qualType") or "") if at else None
        if n.get("name") == "sizeof" and t is not None and t.name in INTS and not t.ptr:
            return self.mkint(INTS[t.name][0] // 8, typeof(n))
        r = self.lib._ext("sizeof", t, n) if n.get("name") == "sizeof" and t is not None else None
        if r is not None:
            return self.mkint(r, typeof(n))
        raise Unsupported("sizeof", n)

    def e_CXXInheritedCtorInitExpr(self, n):
        raise Unsupported("inherited constructor", n)


class RefBind:
    """A reference member/variable: bound location."""
    def __init__(self, lv): self.lv = lv


class LoopCtx:
    """What invariant templates see: the loop's locations at entry, head and back edge."""
    def __init__(self, e, node, entry, cells, info):
        self.e, self.node, self.entry, self._cells, self.info = e, node, entry, cells, info
        self.phase = "entry"

    def cells(self, pred=None, modified=None):
        seen = set()
        for c in self._cells:
            if c.v is None or c.label in seen or c.dead:
                continue
            seen.add(c.label)
            if modified is not None and (c.label in self.info.modified) != modified:
                continue
            if pred is None or pred(c):
                yield c

    def ints(self, modified=None):
        return list(self.cells(lambda c: self.e.isint(c.t) and isinstance(c.v, z3.ExprRef), modified))

    def strings(self, modified=None):
        return list(self.cells(lambda c: c.t.name == "std::string" and not c.t.ptr, modified))

    def iters(self, modified=None):
        return list(self.cells(lambda c: isinstance(c.v, IterV), modified))

    def bools(self, modified=None):
        return list(self.cells(lambda c: c.t.name == "bool" and isinstance(c.v, z3.ExprRef), modified))

    def kind(self, cls, modified=None):
        return list(self.cells(lambda c: isinstance(c.v, cls), modified))


def rvalue_of(v):
    return v.get() if isinstance(v, LV) else v


def short(c):
    """Name of a location in messages and candidate identities (stable across paths)."""
    return c.label


def qual_sig(d):
    return "(" + ", ".join(repr(typeof(p)) for p in params_of(d)) + ")"


def sig_params(d):
    return [repr(typeof(p).noref()) for p in params_of(d)]


def find_ref(n):
    if n.get("kind") == "DeclRefExpr":
        return n["referencedDecl"]["id"]
    for c in n.get("inner", []):
        r = find_ref(c)
        if r:
            return r
    return None


def find_kind(n, k):
    if n.get("kind") == k:
        return True
    return any(find_kind(c, k) for c in n.get("inner", []))
