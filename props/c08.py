"""C08: zero-padded numbers."""
from .common import *
from .strlem import L
from vc.frontend import REPO

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c08.cpp", "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/Formatter.cpp",
                                     "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["std::setw/setfill pad on the left to exactly the width (assumed library contract)"]


def lengths(v):
    d = z3.IntToStr(v)
    return [z3.Implies(v >= 0, L(d) >= 1), z3.Implies(z3.And(v >= 0, v < (1 << 31)), L(d) <= 10)] + \
        [z3.Implies(v >= 0, (L(d) > k) == (v >= 10 ** k)) for k in range(1, 10)]


def lemmas(e):
    for i, f in enumerate(lengths(z3.Int("v"))):
        e.prove("number of decimal digits (%d)" % i, f)


def unit(e):
    v, n, more = e.sym(T("int"), "value"), e.sym(UINT, "width"), e.sym(T("bool"), "more")
    witness(e, value=v, width=n, more=more)
    e.assume(z3.And(v >= 0, n < (1 << 31)))
    digits = z3.IntToStr(v)
    # how many digits a value has
    for f in lengths(v):
        e.assume(f)
    fits = L(digits) <= n
    try:
        r = rvalue(run(e, fn(e, "number_trailing_zeros_format"), [v, n, more], throws=True))
    except CppThrow:
        e.cover("refused")
        e.prove("refused only when more characters are not allowed and the number does not fit",
                z3.And(z3.Not(more), z3.Not(fits)))
        raise PathEnd()
    e.cover("formatted")
    e.prove("formatted unless refused", z3.Or(more, fits))
    e.prove("as many characters as asked, or as the number has", L(r) == z3.If(fits, n, L(digits)))
    pad = z3.SubString(r, 0, L(r) - L(digits))
    e.prove("the digits of the number come last", r == z3.Concat(pad, digits))
    e.prove("only zeros before them", z3.InRe(pad, z3.Star(z3.Re("0"))))


UNITS = [Unit("lemmas of decimal digits", lemmas, prog=None),
         Unit("number_trailing_zeros_format", unit)]
