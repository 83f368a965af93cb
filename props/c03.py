"""C03: substring replacement and stripping."""
from .common import *
from .strlem import *
from . import strlem
from vc.frontend import REPO
from vc.stdlib import NPOS

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c03.cpp", "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/Formatter.cpp",
                                     "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["replacement counts are unsigned int: modulo 2^32",
               "strings are shorter than 2^63 (std::string::max_size)"]
SS = z3.StringSort()
I = z3.IntSort()
M = 1 << 32
# Specification: the text and the number of replacements after replacing every occurrence of a by b, left to right
R = z3.Function("REPLACED", SS, SS, SS, SS)
N = z3.Function("OCCURRENCES", SS, SS, I)


def defR(s, a, b):
    """definition of REPLACED and OCCURRENCES at s (a not empty)"""
    i = ix(s, a)
    t = drop(s, i + L(a))
    return z3.If(i < 0, z3.And(R(s, a, b) == s, N(s, a) == 0),
                 z3.And(R(s, a, b) == z3.Concat(take(s, i), b, R(t, a, b)), N(s, a) == 1 + N(t, a)))


def jump(s, a, b):
    """skipping the text before the first occurrence"""
    i = ix(s, a)
    return z3.If(i < 0, z3.And(R(s, a, b) == s, N(s, a) == 0),
                 z3.And(R(s, a, b) == z3.Concat(take(s, i), R(drop(s, i), a, b)), N(s, a) == N(drop(s, i), a)))


def hit(s, a, b):
    """an occurrence at the start"""
    return z3.Implies(z3.PrefixOf(a, s), z3.And(R(s, a, b) == z3.Concat(b, R(drop(s, L(a)), a, b)),
                                                N(s, a) == 1 + N(drop(s, L(a)), a)))


def lemmas(e):
    s, a, b = z3.Strings("s a b")
    e.assume(L(a) > 0)
    i = ix(s, a)
    base = list(e.pc)
    for f in (defR(s, a, b), prefix_index(s, a)):
        e.assume(f)
    e.prove("an occurrence at the start", hit(s, a, b))
    e.pc = base
    for f in (defR(s, a, b), index_at(s, a), drop_drop(s, i, L(a)), hit(drop(s, i), a, b)):
        e.assume(f)
    e.prove("skipping to the first occurrence", jump(s, a, b))


def loop_invariants(e):
    """Templates over every string the loop may have changed and every position it keeps."""
    def inv(ctx):
        w = e.path_state["witness"]
        o, a, b = w["source"], w["searched"], w["replacement"]
        ints = list(ctx.ints(True))
        poss = [p for p in ints if e.range_of(e.int_t(p.t))[1] > M]
        shapes = []
        for c in ctx.strings(True):
            if not c.label in ctx.entry:
                continue
            if const_str(ctx.entry[c.label]) == "":
                shapes.append((c, o, c.v))          # building the result beside the source
            else:
                shapes.append((c, c.v, None))       # replacing in place
        for c, st, out in shapes:
            for p in poss:
                v = p.v
                some = z3.And(v != NPOS, v >= 0)
                rest, tail = drop(st, v), drop(st, v + L(a))
                if ctx.phase == "head":
                    for f in (replace_step(st, v, L(a), b, a), scan_step(st, v, a), scan_step(st, v + L(a), a),
                              occ_at(st, v, a), drop_drop(st, v, L(a)), index_at(tail, a), index_at(rest, a),
                              take_sub(st, v, v + L(a)), split_at(st, v), drop_drop(rest, ix(rest, a), L(a))):
                        e.assume(f)
                    if out is None:         # the next occurrence may be looked for in the body of the loop
                        i = ix(rest, a)
                        for f in (replace_step(st, v + i, L(a), b, a), replaced_before(st, v + i, L(a), b)):
                            e.assume(f)
                    for x in (rest, tail, drop(rest, ix(rest, a))):
                        e.assume(jump(x, a, b))
                        e.assume(hit(x, a, b))
                lab = "%s %s" % (c.label, p.label)
                if out is not None:
                    first = ix(rest, a)
                    if ctx.phase == "head":
                        e.assume(take_sub(st, v, v + first))
                    for q in poss:
                        if q is not p:
                            yield "%s %s: next occurrence" % (lab, q.label), q.v == z3.If(first < 0, z3.IntVal(NPOS), v + first)
                    yield lab + ": from here on still to replace", R(o, a, b) == z3.Concat(out, R(rest, a, b))
                    for n in ints:
                        if n is not p:
                            yield "%s %s: count from here on" % (lab, n.label), N(o, a) % M == (n.v + N(rest, a)) % M
                yield lab + ": position of an occurrence", z3.Implies(v != NPOS, z3.And(
                    v >= 0, v + L(a) <= L(st), z3.SubString(st, v, L(a)) == a))
                yield lab + ": always inside", z3.And(v >= 0, v <= L(st))
                yield lab + ": position inside", z3.Implies(v != NPOS, z3.And(v >= 0, v <= L(st)))
                done = take(st, v) if out is None else out
                yield lab + ": rest still to replace", z3.Implies(
                    some, R(o, a, b) == z3.Concat(done, R(rest, a, b)))
                if out is None:
                    yield lab + ": nothing left", z3.Implies(v == NPOS, R(o, a, b) == st)
                for n in ints:
                    if n is not p:
                        yield "%s %s: count" % (lab, n.label), z3.Implies(
                            some, N(o, a) % M == (n.v + N(rest, a)) % M)
                        yield "%s %s: count at the end" % (lab, n.label), z3.Implies(v == NPOS, N(o, a) % M == n.v)
    e.invariants.append(inv)

    def decreases(ctx):
        """|st| - p, or the remaining text once nothing was found, goes down"""
        best = None
        for st in ctx.strings():
            for p in ctx.ints(True):
                v1, v0 = p.v, ctx.head[p.label]
                s1, s0 = st.v, ctx.head.get(st.label, st.v)
                g = z3.Or(v1 == NPOS, z3.And(v1 >= 0, v1 <= L(s1), L(s1) - v1 < L(s0) - v0))
                if e.holds(g):
                    best = g
                    break
                best = g if best is None else best
        if best is not None:
            e.prove("the loop ends: the text left gets shorter", best, ctx.node, "termination")
    e.hooks["decreases"] = decreases


def strings(e):
    o, a, b = e.sym(S, "source"), e.sym(S, "searched"), e.sym(S, "replacement")
    witness(e, source=o, searched=a, replacement=b)
    for s in (o, a, b):
        e.assume(L(s) < (1 << 61))
    return o, a, b


def replace_all(e):
    o, a, b = strings(e)
    st = arg(e, S, o, "st")
    e.assume(z3.Implies(L(a) > 0, z3.And(jump(o, a, b), scan_step(o, z3.IntVal(0), a), index_at(o, a))))
    r = rvalue(run(e, fn(e, "replace_all"), [st, arg(e, S, a), arg(e, S, b)]))
    e.cover("replace_all")
    e.prove("every occurrence is replaced, left to right", z3.If(L(a) == 0, st.get() == o, st.get() == R(o, a, b)))
    e.prove("returns the number of replacements", z3.If(L(a) == 0, r == 0, r == N(o, a) % M))


def replace_first(e):
    o, a, b = strings(e)
    st = arg(e, S, o, "st")
    r = rvalue(run(e, fn(e, "replace_first"), [st, arg(e, S, a), arg(e, S, b)]))
    e.cover("replace_first")
    i = ix(o, a)
    e.prove("only the leftmost occurrence is replaced", st.get() == z3.If(
        i < 0, o, z3.Concat(take(o, i), b, drop(o, i + L(a)))))
    e.prove("reports whether there was one", r == (i >= 0))


# strip_str over a set of k strings in increasing order: callee contract of replace_all, result after j strings
SR = z3.Function("STRIPPED", I, SS)
SN = z3.Function("STRIPPED_COUNT", I, I)
RA = z3.Function("REPLACE_ALL", SS, SS, SS, SS)
RN = z3.Function("REPLACE_ALL_COUNT", SS, SS, I)


def strip_str(e):
    o, b = e.sym(S, "source"), e.sym(S, "replacement")
    t = parse_type("std::set<std::string>")
    und = arg(e, t, e.sym(t, "undesired"), "undesired")
    st = arg(e, S, o, "st")
    e.path_state["und"] = und
    e.path_state["b"] = b
    e.path_state["n"] = und.get().n
    e.assume(z3.And(SR(0) == o, SN(0) == 0))
    r = rvalue(run(e, fn(e, "strip_str"), [st, arg(e, S, b), und]))
    e.cover("strip_str")
    n = und.get().n
    e.prove("all undesired strings are replaced in turn, in the order of the set", st.get() == SR(n))
    e.prove("returns the total", r == SN(n) % M)


def strip_setup(e):
    def apply(e, d, this, args, node):
        st, a, b = args
        s0, av, bv = rvalue(st), rvalue(a), rvalue(b)
        st.set(RA(s0, av, bv))
        r = e.fresh("count", I)
        e.assume(z3.And(r >= 0, r < M, r == RN(s0, av)))
        return r
    e.contracts[U + "replace_all"] = Contract(apply)

    def inv(ctx):
        und, b = e.path_state["und"], e.path_state["b"]
        for it in ctx.iters(True):
            en, k = it.v.enum, it.v.pos
            if en is None or k is None:
                continue
            yield it.label + " in range", z3.And(k >= 0, k <= e.path_state["n"])
            if ctx.phase == "head":
                key = en[0][k]
                e.assume(z3.Implies(k < e.path_state["n"], z3.And(
                    SR(k + 1) == RA(SR(k), key, b), SN(k + 1) == SN(k) + RN(SR(k), key))))
            for s in ctx.strings(True):
                yield "%s %s stripped so far" % (it.label, s.label), s.v == SR(k)
            for n in ctx.ints(True):
                yield "%s %s counted so far" % (it.label, n.label), n.v == SN(k) % M
    e.invariants.append(inv)


UNITS = [strlem.unit(),
         Unit("lemmas of REPLACED", lemmas, prog=None),
         Unit("replace_first", replace_first),
         Unit("replace_all", replace_all, loop_invariants, budget=300),
         Unit("strip_str", strip_str, strip_setup)]
