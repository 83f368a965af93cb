"""C01: Base64."""
from .common import *
from vc.frontend import REPO

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c01.cpp", "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/Formatter.cpp",
                                     "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["char is signed and has 8 bits, int has 32 bits (x86-64)",
               "a left shift of an int wraps, as GCC and clang define it"]
I = z3.IntSort()
BYTE = z3.Function("BYTE", I, I)      # byte i of the input, 0 beyond its end
ENC = z3.Function("ENC", I, I)        # character j of the RFC 4648 text before padding
SEXT = z3.Function("SEXT", I, I)      # value of the character i of the text to decode, -1 if not in the alphabet
DEC = z3.Function("DEC", I, I)        # byte t that the text encodes


def alph(k):
    return z3.If(k < 26, 65 + k, z3.If(k < 52, 71 + k, z3.If(k < 62, k - 4, z3.If(k == 62, z3.IntVal(43),
                                                                                  z3.IntVal(47)))))


def value(c):
    """RFC 4648 value of a character (as an unsigned char)"""
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 71, z3.If(
        z3.And(c >= 48, c <= 57), c + 4, z3.If(c == 43, z3.IntVal(62), z3.If(c == 47, z3.IntVal(63), z3.IntVal(-1))))))


def sextet(b0, b1, b2, r):
    return [b0 / 4, (b0 % 4) * 16 + b1 / 16, (b1 % 16) * 4 + b2 / 64, b2 % 64][r]


def defE(q):
    """the four characters of the group q of three bytes"""
    b = [BYTE(3 * q + k) for k in range(3)]
    return z3.And(*[z3.And(x >= 0, x <= 255) for x in b],
                  *[ENC(4 * q + r) == alph(sextet(*b, r)) for r in range(4)])


def octet(s, r):
    return [s[0] * 4 + s[1] / 16, (s[1] % 16) * 16 + s[2] / 4, (s[2] % 4) * 64 + s[3]][r]


def defD(q):
    s = [SEXT(4 * q + k) for k in range(4)]
    return z3.And(*[DEC(3 * q + r) == octet(s, r) for r in range(3)])


def text(e):
    t = T("std::string")
    c = arg(e, t, e.sym(t, "in"), "in")
    v = c.get()
    e.path_state["in"] = v
    i = e.fresh("i", I)
    e.assume(z3.ForAll([i], z3.And(v.select(i) >= -128, v.select(i) <= 127), patterns=[v.select(i)]))
    e.assume(v.n < (1 << 60))
    return c, v


def byte_at(v, i):
    return BYTE(i) == z3.If(i < v.n, v.select(i) % 256, z3.IntVal(0))


def setup(e):
    e.hooks["unroll"] = lambda n: n["kind"] in ("WhileStmt", "DoStmt") and not mentions(e, n)


def mentions(e, n):
    """the condition of the loop depends on the input or on an iterator"""
    from vc.frontend import walk
    c = n["inner"][1] if n["kind"] == "DoStmt" else n["inner"][-2]
    for x in walk(c):
        if x.get("kind") == "DeclRefExpr":
            d = x["referencedDecl"]
            if d.get("kind") == "ParmVarDecl" or "iterator" in qualtype(d):
                return True
    return False


def positions(ctx, v):
    for c in ctx.iters(True):
        if c.v.pos is not None and isinstance(c.v.cont.get(), Vec) and c.v.cont.get().arr is v.arr:
            yield c, c.v.pos
    for c in ctx.ints(True):
        yield c, c.v


def split(ctx, k, p):
    """p == k * q + r, one path for each r"""
    e = ctx.e
    q = e.fresh("q", I)
    r = e.choose(k, "phase")
    e.assume(z3.And(p == k * q + r, q >= 0))
    return q, r


def pending(ctx, b, k, low, name):
    """the accumulator b as its high bits and its low k bits, which the invariant `name` gives"""
    if name not in ctx.info.dropped:
        e = ctx.e
        x = (1 << k) * e.fresh("high", I) + low
        e.assume(b.v == x)
        b.v = x


def fixed(ctx, b, k, name):
    """the counter b, which the invariant `name` gives in this phase"""
    if name not in ctx.info.dropped:
        ctx.e.assume(b.v == k)
        b.v = z3.IntVal(k)


def outs(ctx):
    return [c for c in ctx.kind(Vec, True) if c.t.name == "std::string"]


def peel(arr):
    """base array and the (index, value) stored into it, oldest first"""
    st = []
    while z3.is_store(arr):
        st.append((arr.arg(1), arr.arg(2)))
        arr = arr.arg(0)
    return arr, st[::-1]


def pointwise(ctx, o, what, pred):
    """invariant: every element so far satisfies pred(element, index).  When the body only appended to the sequence it
    had at the head, one condition for each appended element is enough: the step from those to the quantified statement
    is proved for an arbitrary sequence and arbitrary elements."""
    e, j, name = ctx.e, z3.Int("jj"), "%s: all so far" % what
    a = o.v
    if a.items is not None:
        a = e.lib.symarr(a)

    def every(n, arr):
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), pred(arr[j], j)), patterns=[arr[j]])
    if ctx.phase == "back":
        h = ctx.head[o.label]
        base, st = peel(a.arr)
        if st and h.items is None and base.eq(h.arr):
            new = []
            for k, (i, x) in enumerate(st):
                nm = "%s: new element %d" % (what, k)
                yield nm, z3.And(i == h.n + k, pred(x, i))
                new.append(nm)
            nm = "%s: number of new elements" % what
            yield nm, a.n == h.n + len(st)
            if any(x in ctx.info.dropped for x in new + [nm]):
                yield name, z3.BoolVal(False)
                return
            n, arr = e.fresh("n", I), e.fresh("arr", base.sort())
            xs = [e.fresh("x", I) for _ in st]
            b = arr
            for k, x in enumerate(xs):
                b = z3.Store(b, n + k, x)
            c = e.fresh("arr", base.sort())
            yield name, z3.Implies(z3.And(n >= 0, every(n, arr), c == b, *[pred(x, n + k) for k, x in enumerate(xs)]),
                                   every(n + len(st), c)), []
            return
    if not z3.is_const(a.arr):
        b = e.fresh("flat", a.arr.sort())
        e.assume(b == a.arr)
        a = Vec(a.n, b, a.et)
    yield name, every(a.n, a.arr)


def encode(e):
    c, v = text(e)
    witness(e, length=v.n)
    r = rvalue(run(e, fn(e, "base64_encode"), [c]))
    e.cover("base64_encode")
    chars = (4 * v.n + 2) / 3
    j = e.fresh("j", I)
    q = e.fresh("q", I)
    for k in (q, v.n / 3):
        e.assume(defE(k))
        for x in range(3):
            e.assume(byte_at(v, 3 * k + x))
    e.prove("the length is the number of characters padded to a multiple of four", z3.And(
        r.n == 4 * ((v.n + 2) / 3)))
    r = e.lib.symarr(r)
    e.prove("every character is the one of RFC 4648", z3.Implies(z3.And(j >= 0, j < chars), r.select(j) == ENC(j)))
    e.prove("the rest is padding", z3.Implies(z3.And(j >= chars, j < r.n), r.select(j) == ord("=")))


def encode_setup(e):
    setup(e)

    def inv(ctx):
        v = e.path_state["in"]
        for c, i in positions(ctx, v):
            yield c.label + ": inside", z3.And(i >= 0, i <= v.n)
            if c.label + ": inside" in ctx.info.dropped:
                continue
            vals = [b for b in ctx.ints(True) if b is not c]
            if ctx.phase == "head":
                q, r = split(ctx, 3, i)
                e.assume(z3.And(*[ENC(4 * q + x) == alph(sextet(*[BYTE(3 * q + k) for k in range(3)], x))
                                  for x in ((2, 3) if r == 2 else (r,))]))
                for x in range(r + 1):
                    e.assume(byte_at(v, 3 * q + x))
            if ctx.phase == "entry":
                for x in (-1, 0, 1):
                    e.assume(byte_at(v, z3.IntVal(x)))
            for o in outs(ctx):
                yield "%s %s: length so far" % (c.label, o.label), o.v.n == (4 * i) / 3
                yield from pointwise(ctx, o, "%s %s" % (c.label, o.label), lambda x, j: x == ENC(j))
            for b in vals:
                if ctx.phase == "head":
                    pending(ctx, b, 8, z3.If(i == 0, z3.IntVal(0), BYTE(i - 1)),
                            "%s %s: last byte" % (c.label, b.label))
                    fixed(ctx, b, 8 * r % 6 - 6, "%s %s: bits pending" % (c.label, b.label))
                yield "%s %s: bits pending" % (c.label, b.label), b.v == (8 * i) % 6 - 6
                yield "%s %s: last byte" % (c.label, b.label), \
                    e.lowbits(b.v, 256) % 256 == z3.If(i == 0, z3.IntVal(0), BYTE(i - 1))
    e.invariants.append(inv)


def tables(ctx, v, i):
    """the table the code built from the alphabet holds the values of RFC 4648"""
    e = ctx.e
    for c in ctx.kind(Vec, False):
        it = c.v.items
        if it is None or len(it) != 256 or not all(const_int(x) is not None for x in it):
            continue
        k = e.fresh("k", I)
        e.prove("the table %s holds the values of RFC 4648" % c.label, z3.Implies(
            z3.And(k >= 0, k < 256), c.v.select(k) == value(k)))
        x = v.select(i) % 256
        e.assume(c.v.select(x) == value(x))
        e.assume(z3.Implies(i < v.n, c.v.select(x) == SEXT(i)))


def decode(e):
    c, v = text(e)
    witness(e, length=v.n)
    m = e.fresh("m", I)
    t = z3.Int("tt")
    e.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < v.n), SEXT(t) == value(v.select(t) % 256)),
                       patterns=[SEXT(t)]))
    e.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < v.n), SEXT(t) == value(v.select(t) % 256)),
                       patterns=[v.select(t)]))
    e.assume(z3.And(m >= 0, m <= v.n, z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), SEXT(t) >= 0),
                                                patterns=[SEXT(t)]), z3.Or(m == v.n, SEXT(m) < 0)))
    r = rvalue(run(e, fn(e, "base64_decode"), [c]))
    e.cover("base64_decode")
    r = e.lib.symarr(r)
    j = e.fresh("j", I)
    e.prove("as many bytes as the longest prefix of alphabet characters encodes", r.n == (6 * m) / 8)
    e.prove("every byte is the one encoded", z3.Implies(z3.And(j >= 0, j < r.n), r.select(j) % 256 == DEC(j)))


def decode_setup(e):
    setup(e)

    def inv(ctx):
        v = e.path_state["in"]
        for c, i in positions(ctx, v):
            yield c.label + ": inside", z3.And(i >= 0, i <= v.n)
            if c.label + ": inside" in ctx.info.dropped:
                continue
            vals = [b for b in ctx.ints(True) if b is not c]
            if ctx.phase == "head":
                q, r = split(ctx, 4, i)
                e.assume(defD(q))
                tables(ctx, v, i)
            t = z3.Int("tt")
            yield c.label + ": only alphabet characters so far", z3.ForAll([t], z3.Implies(
                z3.And(t >= 0, t < i), SEXT(t) >= 0), patterns=[SEXT(t)])
            for o in outs(ctx):
                yield "%s %s: length so far" % (c.label, o.label), o.v.n == (6 * i) / 8
                yield from pointwise(ctx, o, "%s %s" % (c.label, o.label), lambda x, j: x % 256 == DEC(j))
            for b in vals:
                if ctx.phase == "head":
                    pending(ctx, b, 6, z3.If(i == 0, z3.IntVal(0), SEXT(i - 1)),
                            "%s %s: last value" % (c.label, b.label))
                    fixed(ctx, b, 6 * r % 8 - 8, "%s %s: bits pending" % (c.label, b.label))
                yield "%s %s: bits pending" % (c.label, b.label), b.v == (6 * i) % 8 - 8
                yield "%s %s: last value" % (c.label, b.label), \
                    e.lowbits(b.v, 64) % 64 == z3.If(i == 0, z3.IntVal(0), SEXT(i - 1))
    e.invariants.append(inv)


def lemmas(e):
    """decoding inverts encoding, from the two definitions"""
    k, n, q = z3.Ints("k n q")
    e.prove("every value has its own character", z3.Implies(z3.And(k >= 0, k < 64), value(alph(k)) == k))
    e.prove("padding is not in the alphabet", value(z3.IntVal(ord("="))) == -1)
    m = (4 * n + 2) / 3
    e.prove("the number of bytes comes back", z3.Implies(n >= 0, (6 * m) / 8 == n))
    e.assume(defE(q))
    e.assume(defD(q))
    for r in range(4):
        x = sextet(*[BYTE(3 * q + i) for i in range(3)], r)
        e.assume(z3.And(SEXT(4 * q + r) == value(ENC(4 * q + r)), value(alph(x)) == x))
        e.prove("a value has six bits (%d)" % r, z3.And(x >= 0, x < 64))
    for r in range(3):
        e.prove("byte %d of every group comes back" % r, DEC(3 * q + r) == BYTE(3 * q + r))


O = dict(strmode="arr")
UNITS = [Unit("round trip lemmas", lemmas, prog=None),
         Unit("base64_encode", encode, encode_setup, budget=300, **O),
         Unit("base64_decode", decode, decode_setup, budget=300, **O)]
