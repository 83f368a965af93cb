"""C04: splitting strings."""
from .common import *
from .strlem import *
from . import strlem, listth
from .listth import *
from vc.frontend import REPO
from vc.stdlib import NPOS

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/utils.cpp"\n' % REPO}
DRIVER = {"src": "c04.cpp", "repo": ["cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/Formatter.cpp",
                                     "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["strings are shorter than 2^63 (std::string::max_size)"]
M = 1 << 32
VS = parse_type("std::vector<std::string>")
# Specification: the tokens of s
SPLIT = z3.Function("SPLIT", SS, SS, List)


def defS(s, d):
    i = ix(s, d)
    return SPLIT(s, d) == z3.If(i < 0, single(s), CONS(take(s, i), SPLIT(drop(s, i + L(d)), d)))


JOIN = z3.Function("JOIN", List, SS, SS)
FREE = z3.Function("FREE", List, SS, z3.BoolSort())


def defJ(l, d):
    t = List.tail(l)
    return JOIN(l, d) == z3.If(List.is_nil(l), sv(""), z3.If(List.is_nil(t), List.head(l), z3.Concat(
        List.head(l), d, JOIN(t, d))))


def defF(l, d):
    return FREE(l, d) == z3.If(List.is_nil(l), z3.BoolVal(True), z3.And(
        z3.Not(z3.Contains(List.head(l), d)), FREE(List.tail(l), d)))


def before_free(s, a):
    """the text before the first occurrence has none"""
    i = ix(s, a)
    return z3.Implies(z3.And(i >= 0, L(a) > 0), z3.Not(z3.Contains(take(s, i), a)))


def split_lemmas(e):
    """by induction on the length of s: joining the tokens gives s back, none contains the delimiter"""
    s, d = z3.Strings("s d")
    i = ix(s, d)
    t = drop(s, i + L(d))
    e.prove("the text before the first occurrence has none", before_free(s, d))
    e.assume(L(d) > 0)
    sp, st = SPLIT(s, d), SPLIT(t, d)
    for f in (defS(s, d), index_split(s, d), index_none(s, d), before_free(s, d), defJ(sp, d), defJ(single(s), d),
              defF(sp, d), defF(NIL, d), z3.Implies(i >= 0, z3.And(L(t) < L(s), JOIN(st, d) == t, FREE(st, d),
                                                                   z3.Not(List.is_nil(st))))):
        e.assume(f)
    e.prove("at least one token", z3.Not(List.is_nil(sp)))
    e.prove("joining the tokens with the delimiter gives the source back", JOIN(sp, d) == s)
    e.prove("no token contains the delimiter", FREE(sp, d))


def split_one(e):
    s, d = e.sym(S, "source"), e.sym(S, "delimiter")
    witness(e, source=s, delimiter=d)
    track(e)
    for f in (defS(s, d), scan_step(s, z3.IntVal(0), d), app_nil(SPLIT(s, d)), index_at(s, d), L(s) < (1 << 61),
              L(d) < (1 << 61), drop(s, 0) == s):
        e.assume(f)
    r = rvalue(run(e, fn(e, "split_string", 2, sig(S, S)), [arg(e, S, s), arg(e, S, d)]))
    e.cover("split_string")
    e.prove("an empty delimiter gives the source", z3.Implies(L(d) == 0, lst(r) == single(s)))
    e.prove("the tokens are those found from left to right", z3.Implies(L(d) > 0, lst(r) == SPLIT(s, d)))


def copying(ctx):
    """a loop that appends the elements of another vector one by one"""
    for it in ctx.iters(True):
        c = it.v.cont.get() if it.v.pos is not None else None
        if not isinstance(c, Vec) or c.items is not None or c.et.name != "std::string":
            continue
        k = it.v.pos
        done = LST(c.arr, k)
        if ctx.phase in ("entry", "head"):
            ctx.e.assume(LST(c.arr, 0) == NIL)
        yield it.label + " position", z3.And(k >= 0, k <= c.n)
        for r in ctx.kind(Vec, True):
            if r.v.et.name == "std::string" and r.label in ctx.entry:
                was = lst(ctx.entry[r.label])
                if ctx.phase == "entry":
                    ctx.e.assume(app_right_nil(was))
                if ctx.phase == "head":
                    ctx.e.assume(z3.Implies(k < c.n, LST(c.arr, k + 1) == snoc(done, c.select(k))))
                    ctx.e.assume(app_assoc(was, done, single(c.select(k))))
                yield "%s %s: copied so far" % (it.label, r.label), lst(r.v) == APP(was, done)


def sig(*ts):
    return lambda d: [typeof(p).noref().name for p in params_of(d)] == [t.name for t in ts]


def one_setup(e):
    def inv(ctx):
        w = e.path_state["witness"]
        s, d = w["source"], w["delimiter"]
        ints = [c for c in ctx.ints(True)]
        vecs = [c for c in ctx.kind(Vec, True) if c.v.et.name == "std::string"]
        strs = [c for c in ctx.strings(True) if const_str(ctx.entry.get(c.label, d)) != ""]
        for p in ints:
            v = p.v
            rest = drop(s, v)
            if ctx.phase == "head":
                for f in (scan_step(s, v, d), defS(rest, d), index_at(rest, d), drop_drop(s, v, L(d)), occ_at(s, v, d)):
                    e.assume(f)
            yield p.label + ": position inside", z3.Implies(v != NPOS, z3.And(v >= 0, v <= L(s)))
            yield p.label + ": always inside", z3.And(v >= 0, v <= L(s))
            for q in ints:
                if q is not p:
                    yield "%s %s: next delimiter" % (p.label, q.label), q.v == e.lib.pos(z3.IndexOf(s, d, v))
            for r in vecs:
                l = lst(r.v)
                if ctx.phase == "head":
                    i = ix(rest, d)
                    for f in (move(l, take(rest, i), SPLIT(drop(rest, i + L(d)), d)), app_right_nil(l)):
                        e.assume(f)
                yield "%s %s: tokens so far" % (r.label, p.label), z3.Implies(
                    z3.And(v != NPOS, v <= L(s)), APP(l, SPLIT(rest, d)) == SPLIT(s, d))
        for c in strs:
            i = ix(c.v, d)
            for r in vecs:
                l = lst(r.v)
                if ctx.phase == "head":
                    for f in (defS(c.v, d), scan_step(c.v, z3.IntVal(0), d), drop(c.v, 0) == c.v,
                              move(l, take(c.v, i), SPLIT(drop(c.v, i + L(d)), d)), app_right_nil(l)):
                        e.assume(f)
                yield "%s %s: tokens so far" % (r.label, c.label), APP(l, SPLIT(c.v, d)) == SPLIT(s, d)
            for q in ints:
                yield "%s %s: first delimiter" % (c.label, q.label), q.v == e.lib.pos(i)
    e.invariants.append(inv)

    def decreases(ctx):
        s = e.path_state["witness"]["source"]
        for c in list(ctx.ints(True)) + list(ctx.strings(True)):
            now, then = c.v, ctx.head[c.label]
            g = L(now) < L(then) if isinstance(now, z3.SeqRef) else z3.And(now > then, now <= L(s))
            if e.holds(g):
                break
        e.prove("the loop ends: the text left gets shorter", g, ctx.node, "termination")
    e.hooks["decreases"] = decreases


# ---- the other overloads, over the contract of the first
FLAT = z3.Function("FLAT", I, List)         # tokens of the first k strings
SPLITS = z3.Function("SPLIT_LIST", List, SS, List)
AFTER = z3.Function("AFTER", I, List)       # after the first k delimiters


def split_list(e):
    d = e.sym(S, "delimiter")
    src = arg(e, VS, e.sym(VS, "source"), "source")
    v = src.get()
    track(e)
    e.path_state.update(src=v, d=d)
    e.assume(z3.And(FLAT(0) == NIL, app_right_nil(NIL)))
    r = rvalue(run(e, fn(e, "split_string", 2, sig(VS, S)), [src, arg(e, S, d)]))
    e.cover("split_string of a list")
    e.prove("the tokens of all the strings, in order", lst(r) == FLAT(v.n))


def list_setup(e):
    def apply(e, d, this, args, node):
        s, dl = [rvalue(a) for a in args]
        v = e.sym(VS, "tokens")
        e.assume(z3.And(lst(v) == SPLIT(s, dl), v.n >= 1))
        return v
    e.contracts[U + "split_string"] = Contract(apply, lambda e, d, this, args: sig(S, S)(d))

    def inv(ctx):
        src, d = e.path_state["src"], e.path_state["d"]
        yield from copying(ctx)
        for k in [c for c in ctx.iters(True)] + list(ctx.ints(True)):
            pos = k.v.pos if isinstance(k.v, IterV) else k.v
            if pos is None:
                continue
            yield k.label + " in range", z3.And(pos >= 0, pos <= src.n)
            if ctx.phase == "head":
                tk = SPLIT(src.select(pos), d)
                e.assume(FLAT(pos + 1) == APP(FLAT(pos), tk))
            for r in ctx.kind(Vec, True):
                if r.v.et.name != "std::string":
                    continue
                yield "%s %s: tokens so far" % (r.label, k.label), lst(r.v) == FLAT(pos)
    e.invariants.append(inv)


def split_set(e):
    s = e.sym(S, "source")
    t = parse_type("std::set<std::string>")
    ds = arg(e, t, e.sym(t, "delimiters"), "delimiters")
    track(e)
    e.path_state["n"] = ds.get().n
    e.assume(AFTER(0) == single(s))
    r = rvalue(run(e, fn(e, "split_string", 2, sig(S, t)), [arg(e, S, s), ds]))
    e.cover("split_string by a set")
    e.prove("the list split by each delimiter in turn", lst(r) == AFTER(ds.get().n))


def set_setup(e):
    def apply(e, d, this, args, node):
        s, dl = [rvalue(a) for a in args]
        v = e.sym(VS, "tokens")
        e.assume(lst(v) == SPLITS(lst(s), dl))
        return v
    e.contracts[U + "split_string"] = Contract(apply, lambda e, d, this, args: sig(VS, S)(d))

    def inv(ctx):
        n = e.path_state["n"]
        for it in ctx.iters(True):
            en, k = it.v.enum, it.v.pos
            if en is None or k is None:
                continue
            yield it.label + " in range", z3.And(k >= 0, k <= n)
            if ctx.phase == "head":
                e.assume(z3.Implies(k < n, AFTER(k + 1) == SPLITS(AFTER(k), en[0][k])))
            for r in ctx.kind(Vec, True):
                if r.v.et.name == "std::string":
                    yield "%s %s: split so far" % (it.label, r.label), lst(r.v) == AFTER(k)
    e.invariants.append(inv)


UNITS = [strlem.unit(), listth.unit(), Unit("lemmas of SPLIT", split_lemmas, prog=None),
         Unit("split_string", split_one, one_setup, budget=300),
         Unit("split_string of a list", split_list, list_setup),
         Unit("split_string by a set", split_set, set_setup)]
