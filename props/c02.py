"""C02: the integer arithmetic helpers are exact."""
from .common import *

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/math/math_extension.cpp"\n' % __import__("vc.frontend").frontend.REPO}
DRIVER = {"src": "c02.cpp", "repo": ["cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["unsigned int has 32 bits (x86-64)"]
M = 1 << 32
BV = z3.BitVecSort(32)


def u1(name, spec, **kw):
    def h(e):
        n = e.sym(UINT, "number")
        witness(e, number=n)
        r = run(e, fn(e, name), [n])
        e.cover(name)
        e.prove("%s(n) is exact" % name, r == spec(n))
    return Unit(name, h, intmode="bv", **kw)


def u2(name, spec):
    def h(e):
        a, b = e.sym(UINT, "dividend"), e.sym(UINT, "divisor")
        witness(e, dividend=a, divisor=b)
        e.assume(b != 0)
        r = run(e, fn(e, name), [a, b])
        e.cover(name)
        e.prove("%s equals the built-in operator" % name, r == spec(a, b))

    def setup(e):
        e.hooks["unroll"] = lambda n: True
    return Unit(name, h, setup, intmode="bv", budget=200)


# ---- power: POW is the mathematical definition (b^0 = 1, b^(k+1) = b * b^k) modulo 2^32
POW = z3.Function("POW", BV, BV, BV)


def powdef(b, k):
    return POW(b, k) == z3.If(k == 0, z3.BitVecVal(1, 32), b * POW(b, k - 1))


def square(b, k):
    """Lemma square: (b*b)^k == b^(2k), for 2k not wrapping."""
    return z3.Implies(z3.ULT(k, 1 << 31), POW(b * b, k) == POW(b, 2 * k))


def addlem(b, j, k):
    return z3.Implies(z3.UGE(j + k, j), POW(b, j) * POW(b, k) == POW(b, j + k))


def unfold(b, k):
    """the definition at k + 1"""
    return POW(b, k + 1) == b * POW(b, k)


def lemma_square(e):
    """by induction on k < 2^31"""
    b, k = z3.BitVecs("b k", 32)
    z = z3.BitVecVal(0, 32)
    e.prove("the two forms of the definition agree", z3.Implies(powdef(b, k + 1), z3.Or(k + 1 == 0, unfold(b, k))))
    e.prove("base case", z3.Implies(z3.And(powdef(b * b, z), powdef(b, z)), POW(b * b, z) == POW(b, 2 * z)))
    for h in (POW(b * b, k) == POW(b, 2 * k), unfold(b * b, k), unfold(b, 2 * k), unfold(b, 2 * k + 1)):
        e.assume(h)
    e.prove("induction step", POW(b * b, k + 1) == POW(b, 2 * k + 2))


def lemma_add(e):
    """by induction on j, j + k < 2^32"""
    b, j, k = z3.BitVecs("b j k", 32)
    z = z3.BitVecVal(0, 32)
    e.prove("base case", z3.Implies(powdef(b, z), POW(b, z) * POW(b, k) == POW(b, z + k)))
    for h in (POW(b, j) * POW(b, k) == POW(b, j + k), unfold(b, j), unfold(b, j + k)):
        e.assume(h)
    e.prove("induction step", POW(b, j + 1) * POW(b, k) == POW(b, j + k + 1))


# r * b^k, so that a loop that gathers the product in r needs no algebra but what the lemma below says
RES = z3.Function("RES", BV, BV, BV, BV)


def halves(b, k):
    """Lemma halves: b^k from the powers of k / 2"""
    h, odd = z3.LShR(k, 1), z3.Extract(0, 0, k) == 1
    P, Q = POW(b * b, h), POW(b, h)
    return z3.And(POW(b, k) == z3.If(odd, b * P, P), POW(b, k) == z3.If(odd, b * Q * Q, Q * Q))


def gathered(r, b, k):
    """Lemma gathered: the steps that keep r * b^k"""
    h, odd = z3.LShR(k, 1), z3.Extract(0, 0, k) == 1
    return z3.And(RES(r, b, k) == z3.If(odd, RES(r * b, b * b, h), RES(r, b * b, h)), RES(r, b, z3.BitVecVal(0, 32)) == r,
                  RES(r, b, z3.BitVecVal(1, 32)) == r * b, z3.Implies(k != 0, RES(r, b, k) == RES(r * b, b, k - 1)))


def lemma_halves(e):
    b, k = z3.BitVecs("b k", 32)
    h, odd = z3.LShR(k, 1), z3.Extract(0, 0, k) == 1
    e.assume(square(b, h))
    e.assume(addlem(b, h, h))
    for x in (k, 2 * h, 2 * h + 1):
        e.assume(powdef(b, x))
    e.prove("an even power by the square of the base", z3.Implies(z3.Not(odd), POW(b, k) == POW(b * b, h)))
    e.prove("an even power by the square of the power", z3.Implies(z3.Not(odd), POW(b, k) == POW(b, h) * POW(b, h)))
    e.prove("an odd power is one more", z3.Implies(odd, POW(b, k) == b * POW(b, 2 * h)))
    P, Q, X = z3.BitVecs("P Q X", 32)
    e.prove("... by the square of the base", z3.Implies(X == P, b * X == b * P))
    e.prove("... by the square of the power", z3.Implies(X == Q * Q, b * X == b * Q * Q))


def lemma_gathered(e):
    """with RES(r, b, k) read as r * POW(b, k)"""
    r, b, P, Q = z3.BitVecs("r b P Q", 32)
    e.prove("odd", r * (b * P) == (r * b) * P)
    e.prove("none", r * z3.BitVecVal(1, 32) == r)
    e.prove("one less", r * (b * Q) == (r * b) * Q)
    e.prove("one: the power is the base", z3.Implies(z3.And(powdef(b, z3.BitVecVal(1, 32)), powdef(b, z3.BitVecVal(0, 32))), POW(b, z3.BitVecVal(1, 32)) == b))


def facts(e, b, k):
    """Instances of the definition and of the lemmas that an implementation may need at (b, k)."""
    h = z3.LShR(k, 1)
    for f in (powdef(b, k), powdef(b, k - 1), square(b, h), powdef(b, 2 * h), powdef(b, 2 * h + 1), powdef(b, h),
              powdef(b * b, h), powdef(b, z3.BitVecVal(0, 32)), powdef(b, z3.BitVecVal(1, 32)), addlem(b, h, h),
              addlem(b, h, k - h), halves(b, k)):
        e.assume(f)


def power(e):
    b, k = e.sym(UINT, "base"), e.sym(UINT, "exponent")
    witness(e, base=b, exponent=k)
    e.path_state["measure"] = k
    facts(e, b, k)
    f = fn(e, "fast_exponential")
    r = run(e, f, [b, k])
    e.cover("fast_exponential")
    e.prove("fast_exponential(b, e) == b^e modulo 2^32", r == POW(b, k))


def power_setup(e):
    def apply(e, d, this, args, node):
        b, k = [rvalue(a) for a in args]
        e.prove("recursion descends", z3.ULT(k, e.path_state["measure"]), node, "termination")
        return POW(b, k)
    e.contracts[U + "fast_exponential"] = Contract(apply)

    def inv(ctx):
        cs = [c for c in ctx.ints() if z3.is_bv(c.v) and c.v.size() == 32]
        B, K = e.path_state["witness"]["base"], e.path_state["witness"]["exponent"]
        mod = [c for c in ctx.ints(True) if z3.is_bv(c.v) and c.v.size() == 32]
        if ctx.phase == "head":
            for b in cs:
                for k in mod:
                    if b is not k:
                        facts(e, b.v, k.v)
                        for r in mod:
                            if r is not b and r is not k:
                                e.assume(gathered(r.v, b.v, k.v))
        e.assume(RES(z3.BitVecVal(1, 32), B, K) == POW(B, K))
        for b in cs:
            for k in mod:
                for r in mod:
                    if len({b.label, k.label, r.label}) == 3:
                        yield "%s*%s^%s" % (r.label, b.label, k.label), RES(r.v, b.v, k.v) == RES(z3.BitVecVal(1, 32), B, K)
        for k in mod:
            for r in mod:
                if r is not k:
                    yield "%s==B^%s" % (r.label, k.label), z3.And(r.v == POW(B, k.v), z3.ULE(k.v, K))
    e.invariants.append(inv)


# ---- sum: SUM(l, d, n) is the mathematical sum l + (l+d) + ... of n terms; 2*SUM = 2nl + dn(n-1)

def lemma_sum(e):
    l, d, n, s, q = z3.Ints("l d n s q")
    closed = lambda s, n: 2 * s == 2 * n * l + d * n * (n - 1)
    e.prove("base case: the empty sum", closed(0, 0))
    e.prove("induction step: one more term", z3.Implies(closed(s, n), closed(s + (l + n * d), n + 1)))


def strip(t, m):
    """A term congruent to t modulo m without inner reductions (ring operations only)."""
    k = t.decl().kind()
    if k == z3.Z3_OP_MOD and const_int(t.arg(1)) is not None and const_int(t.arg(1)) % m == 0:
        return strip(t.arg(0), m)
    if k == z3.Z3_OP_ADD:
        return z3.Sum([strip(x, m) for x in t.children()])
    if k == z3.Z3_OP_MUL:
        return z3.Product([strip(x, m) for x in t.children()])
    if k == z3.Z3_OP_SUB:
        a, b = t.children()
        return strip(a, m) - strip(b, m)
    if k == z3.Z3_OP_UMINUS:
        return -strip(t.arg(0), m)
    if k == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), strip(t.arg(1), m), strip(t.arg(2), m))
    return t


def prog_sum(e):
    from vc.engine import solve
    l, d, n = (e.sym(UINT, x) for x in ("lowest", "interval", "steps"))
    witness(e, lowest=l, interval=d, steps=n)
    r = run(e, fn(e, "arithmetic_progression_sum"), [l, d, n])
    e.cover("arithmetic_progression_sum")
    s, h = z3.Int("s"), z3.Int("h")
    e.assume(2 * s == 2 * n * l + d * n * (n - 1))       # s is the sum (lemma)
    for x in (n, n - 1):
        e.assume(z3.Or(x % 2 == 0, x % 2 == 1))
    goal = r == s % M
    strong = strip(r, M) == s
    if solve(e.pc, strong, 10)[0] == "proved":
        e.prove("congruent to the sum modulo 2^32", strong)
        e.prove("result is an unsigned int", z3.And(r >= 0, r < M))
    else:
        e.prove("arithmetic_progression_sum == sum of the terms modulo 2^32", goal)


def pow2(n):
    return z3.Or(*[n == (1 << k) for k in range(32)])


UNITS = [
    u1("is_even", lambda n: z3.URem(n, z3.BitVecVal(2, 32)) == 0),
    u1("is_power_of_2", pow2),
    u2("fast_module", z3.URem),
    u2("fast_division", z3.UDiv),
    Unit("lemma: (b*b)^k = b^2k", lemma_square, prog=None),
    Unit("lemma: b^j * b^k = b^(j+k)", lemma_add, prog=None),
    Unit("lemma: halves", lemma_halves, prog=None), Unit("lemma: gathered", lemma_gathered, prog=None),
    Unit("fast_exponential", power, power_setup, intmode="bv"),
    Unit("lemma: closed form of the sum", lemma_sum, prog=None),
    Unit("arithmetic_progression_sum", prog_sum),
]
