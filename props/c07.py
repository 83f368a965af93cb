"""C07: byte quantities."""
from .common import *
from vc.frontend import REPO
from .strlem import L
from vc.text import Text, prove_fp, STRTOD, TRUNC, F64, NUMBER, SPACE

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c07.cpp", "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/Formatter.cpp",
                                     "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["double is IEEE 754 binary64, rounding to nearest",
               "the C locale: digits, letters and white space are ASCII", "strtod ends at the first character that is no part of a number, a null one too"]
K, M = 1000, 1024
UNITS_ = [("B", 1)] + [(c + "B", K ** (i + 1)) for i, c in enumerate("KMGTP")] + \
    [(c + "iB", M ** (i + 1)) for i, c in enumerate("KMGTP")]


def nocase(u):
    return z3.Concat(*[z3.Union(z3.Re(c.lower()), z3.Re(c.upper())) for c in u]) if len(u) > 1 else \
        z3.Union(z3.Re(u.lower()), z3.Re(u.upper()))


def letters():
    return z3.Plus(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z")))


def form(u):
    return z3.Concat(NUMBER, z3.Star(SPACE), u)


ANYUNIT = z3.Union(*[nocase(u) for u, _ in UNITS_])


def unique(t, p, q):
    """a text has one decomposition into number, space and letters"""
    return z3.Implies(z3.And(z3.InRe(p[0], NUMBER), z3.InRe(p[1], z3.Star(SPACE)), z3.InRe(p[2], letters())),
                      z3.And(*[a == b for a, b in zip(p, q)]))


def joined(t, p):
    return z3.Implies(z3.And(z3.InRe(p[0], NUMBER), z3.InRe(p[1], z3.Star(SPACE)), z3.InRe(p[2], ANYUNIT)),
                      z3.InRe(t, form(ANYUNIT)))


def setup(e):
    e.lib.whole_c_strings = True
    e.lib.ext.append(Text(e))

    def matched(t, ok, parts):
        """lemmas on the decomposition the match gives"""
        if len(parts) != 3:
            return
        e.assume(z3.Implies(ok, joined(t, parts)))
        q = e.path_state.get("parts")
        if q is not None and t.eq(e.path_state["text"]):
            e.assume(z3.Implies(ok, unique(t, parts, q)))

    def transformed(s, r, facts):
        for u, _ in UNITS_:
            g = (r == sv(u.upper())) == z3.InRe(s, nocase(u))
            e.prove("the text changed to upper case is %s exactly when it is %s in some case" % (u.upper(), u), g)
            e.obls[-1].hyps = list(facts)
            e.assume(g)
        u = e.path_state.get("unit")
        if u is not None:
            e.prove("the unit in upper case is " + u.upper(), r == sv(u.upper()))
            e.assume(r == sv(u.upper()))
    e.hooks["matched"] = matched
    e.hooks["transformed"] = transformed


def product(x, unit):
    return z3.fpMul(z3.RNE(), x, z3.FPVal(float(unit), F64))


def fits(b):
    return z3.fpLT(b, z3.FPVal(2.0 ** 64, F64))


def call(e, text):
    c = arg(e, T("std::string"), text, "input")
    witness(e, input=text)
    try:
        return rvalue(run(e, fn(e, "to_bytes"), [c], throws=True)), None
    except CppThrow as x:
        return None, x


def refused(e):
    """a text not of the form is refused"""
    t = e.fresh("input", z3.StringSort())
    e.assume(z3.Not(z3.InRe(t, form(ANYUNIT))))
    r, x = call(e, t)
    if x is None:
        e.prove("a text that is not a quantity is refused", False)
        return
    e.cover("refused")
    e.prove("as an invalid argument", is_invalid(e, x))


def is_invalid(e, x):
    return x.t.name == "std::invalid_argument"


def accepted(u, factor):
    def go(e):
        num, ws, unit = (e.fresh(k, z3.StringSort()) for k in ("number", "space", "unit"))
        e.assume(z3.And(z3.InRe(num, NUMBER), z3.InRe(ws, z3.Star(SPACE)), z3.InRe(unit, nocase(u))))
        t = e.fresh("input", z3.StringSort())
        e.assume(z3.InRe(t, form(letters())))
        e.path_state["parts"], e.path_state["text"] = (num, ws, unit), t
        e.path_state["unit"] = u
        r, x = call(e, t)
        b = product(STRTOD(num), factor)
        if x is None:
            e.cover("returned")
            prove_fp(e, "returns only what fits", fits(b))
            e.prove("returns the integer part of the number times %s" % u, r == TRUNC(b))
        else:
            e.cover("refused")
            prove_fp(e, "refused only when the product is 2^64 or more", z3.Not(fits(b)))
            e.prove("as an invalid argument", is_invalid(e, x))
    return go


UNITS = [Unit("to_bytes of anything else", refused, setup)] + \
    [Unit("to_bytes of a number of " + u, accepted(u, f), setup) for u, f in UNITS_]


def lemmas(e):
    Sx = z3.StringSort()
    p = [z3.Const("p%d" % i, Sx) for i in range(3)]
    q = [z3.Const("q%d" % i, Sx) for i in range(3)]
    t = z3.Const("t", Sx)
    e.assume(t == z3.Concat(*p))
    e.prove("pieces of the right kinds join to a quantity", joined(t, p))
    e.prove("pieces of the right kinds join to a text of the form", z3.Implies(z3.And(
        z3.InRe(p[0], NUMBER), z3.InRe(p[1], z3.Star(SPACE)), z3.InRe(p[2], letters())), z3.InRe(t, form(letters()))))


def cut(a, b, c, d):
    """a ++ b and c ++ d are the same text and b is longer than d: x is the character before d"""
    k = L(b) - L(d) - 1
    return z3.SubString(c, 0, L(c) - 1), z3.SubString(b, 0, k), z3.SubString(b, k, 1)


def aligned(a, b, c, d):
    r, y, x = cut(a, b, c, d)
    return z3.Implies(z3.And(z3.Concat(a, b) == z3.Concat(c, d), L(b) > L(d)),
                      z3.And(b == z3.Concat(y, x, d), c == z3.Concat(r, x), L(x) == 1))


def same(a, b, c, d):
    return z3.Implies(z3.And(z3.Concat(a, b) == z3.Concat(c, d), L(b) == L(d)), z3.And(a == c, b == d))


def clash(re1, re2):
    return lambda a, b, c, d: (lambda r, y, x: z3.Not(z3.And(
        L(x) == 1, z3.InRe(z3.Concat(r, x), re1), z3.InRe(z3.Concat(y, x, d), re2))))(*cut(a, b, c, d))


def uniqueness(e):
    Sx = z3.StringSort()
    S = lambda n: z3.Const(n, Sx)
    a, b, c, d, r, x, y = map(S, "abcdrxy")
    e.prove("alignment of two decompositions", aligned(a, b, c, d))
    e.prove("decompositions of the same lengths are the same", same(a, b, c, d))
    N, SP = NUMBER, z3.Star(SPACE)
    NS = z3.Concat(N, SP)
    rules = {"letter": (NS, letters()), "space": (N, SP)}
    for k, (r1, r2) in rules.items():
        e.prove("no character is both (%s)" % k, z3.Not(z3.And(
            L(x) == 1, z3.InRe(z3.Concat(r, x), r1), z3.InRe(z3.Concat(y, x, d), r2))))
    p, q = [S("p%d" % i) for i in range(3)], [S("q%d" % i) for i in range(3)]
    pa, qa = S("pa"), S("qa")
    e.assume(z3.And(z3.Concat(pa, p[2]) == z3.Concat(qa, q[2]), pa == z3.Concat(p[0], p[1]), qa == z3.Concat(q[0], q[1])))
    e.prove("a number and space join", z3.Implies(z3.And(z3.InRe(a, N), z3.InRe(b, SP)), z3.InRe(z3.Concat(a, b), NS)))
    for v, va in ((p, pa), (q, qa)):
        e.assume(z3.And(z3.InRe(v[0], N), z3.InRe(v[1], SP), z3.InRe(v[2], letters()), z3.InRe(va, NS)))

    def equal(u, k, what):
        """from u[0] u[1] == u[2] u[3]: the second pieces have the same length"""
        for w in (u, u[2:] + u[:2]):
            e.assume(aligned(*w))
            e.assume(clash(*rules[k])(*w))
        e.assume(same(*u))
        e.prove(what, z3.And(u[0] == u[2], u[1] == u[3]))
        e.assume(z3.And(u[0] == u[2], u[1] == u[3]))
    equal([pa, p[2], qa, q[2]], "letter", "the letters are the same")
    e.pc[:] = []
    e.assume(z3.Concat(p[0], p[1]) == z3.Concat(q[0], q[1]))
    for v in (p, q):
        e.assume(z3.And(z3.InRe(v[0], N), z3.InRe(v[1], SP)))
    equal([p[0], p[1], q[0], q[1]], "space", "the number and the space are the same")


UNITS.append(Unit("a text has one decomposition", uniqueness, prog=None))
UNITS.append(Unit("decomposition lemmas", lemmas, prog=None))


def printed(e):
    t = T("unsigned long")
    v = e.sym(t, "bytes")
    witness(e, bytes=v)
    r = rvalue(run(e, fn(e, "from_bytes"), [v]))
    e.cover("printed")
    if e.branch(v == 0):
        e.prove("nothing is 0B", r == sv("0B"))
        return
    dec = [(u, f) for u, f in UNITS_ if "i" not in u]
    k = 0
    while k + 1 < len(dec) and e.branch(z3.UGE(v, dec[k + 1][1])):
        k += 1
    u, f = dec[k]
    e.cover("printed in " + u)
    d = z3.fpDiv(z3.RNE(), z3.fpUnsignedToFP(z3.RNE(), v, F64), z3.FPVal(float(f), F64))
    w = z3.fpToUBV(z3.RTZ(), d, z3.BitVecSort(64))
    near = z3.fpLT(z3.fpAbs(z3.fpSub(z3.RNE(), d, z3.fpUnsignedToFP(z3.RNE(), w, F64))), z3.FPVal(0.01, F64))
    fixed = z3.Function("print_fixed", F64, z3.IntSort(), z3.StringSort())
    e.prove("the largest decimal unit not above the quantity, no decimals when the fraction is below 0.01 and two "
            "otherwise", z3.And(z3.Implies(near, r == z3.Concat(z3.IntToStr(z3.BV2Int(w)), sv(u))),
                                z3.Implies(z3.Not(near), r == z3.Concat(fixed(d, 2), sv(u)))))


UNITS.append(Unit("from_bytes", printed, setup, intmode="bv"))
