"""Checks that the tools the framework needs are here and work on a small obligation."""
import shutil, sys
import z3
from .engine import solve, Z3BIN
for t in ("clang++", "g++", "cvc5", Z3BIN):
    if shutil.which(t) is None:
        sys.exit("missing tool: " + t)
x = z3.Int("x")
for order in (("z3",), ("cvc5",)):
    st = solve([x > 1], x * x > x + 0 if order == ("z3",) else x > 0, 10, order=order)[0]
    if st != "proved":
        sys.exit("solver %s does not answer" % order)
from .frontend import Program
p = Program('#include <cpp_utils/math/math_extension.hpp>\n')
assert p.funcs
print("ok")
