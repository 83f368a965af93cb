"""Assumed contracts of <regex>, number parsing, std::transform on strings and std::upper_bound (an extension of Lib)."""
import re
import z3
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
from .frontend import T, typeof, Unsupported
from .values import *
from .stdlib import NONE, Regex

F64 = z3.FPSort(11, 53)
STRTOD = z3.Function("strtod", z3.StringSort(), F64)
FIXED = z3.Function("print_fixed", F64, z3.IntSort(), z3.StringSort())
TRUNC = z3.Function("truncated", F64, z3.IntSort())     # the integer part of a double
DIGIT = z3.Range("0", "9")
SPACE = z3.Union(*[z3.Re(c) for c in (" ", "\\u{9}", "\\u{a}", "\\u{b}", "\\u{c}", "\\u{d}")])
NUMBER = z3.Concat(z3.Plus(DIGIT), z3.Option(z3.Concat(z3.Re("."), z3.Plus(DIGIT))))
ANY = z3.AllChar(z3.ReSort(z3.StringSort()))


def prove_fp(e, name, goal, node=None, kind="post"):
    """prove a statement about doubles from the hypotheses about doubles alone, with the doubles that were read from
    texts as arbitrary doubles (fewer hypotheses: sound)"""
    seen, hyps = {}, []

    def scan(x):
        k = x.get_id()
        if k not in seen:
            if z3.is_app(x) and x.decl().eq(STRTOD):
                seen[k] = (True, [x])
            elif isinstance(x, (z3.SeqRef, z3.ReRef)) or z3.is_quantifier(x):
                seen[k] = (False, [])
            else:
                cs = [scan(c) for c in x.children()]
                seen[k] = (all(c[0] for c in cs), [a for c in cs for a in c[1]])
        return seen[k]

    pure, reads = scan(goal)
    if not pure:
        e.prove(name, goal, node, kind)
        return
    reads = list(reads)
    for h in e.pc:
        ok, xs = scan(h)
        if ok:
            hyps.append(h)
            reads += xs
    sub = []
    for x in reads:
        if not any(x.eq(a) for a, _ in sub):
            same = [d for a, d in sub if e.holds(a.arg(0) == x.arg(0))]
            sub.append((x, same[0] if same else z3.Const("double!%d" % len(sub), F64)))
    e.prove(name, z3.substitute(goal, *sub) if sub else goal, node, kind)
    e.obls[-1].hyps = [z3.substitute(h, *sub) if sub else h for h in hyps]


class Match:
    """std::smatch: what each group matched (None: not tracked)"""
    def __init__(self, ok, groups):
        self.ok, self.groups = ok, groups


class Sub:
    def __init__(self, s):
        self.s = s


def ch(c):
    return z3.Re(chr(c) if 31 < c < 127 and c != 92 else "\\u{%x}" % c)


def union(xs):
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


class Text:
    def __init__(self, e):
        self.e = e

    # ---------------------------------------------------------------- regular expressions (ECMAScript, C locale)
    def node(self, op, av):
        o = str(op)
        if o == "LITERAL":
            return ch(av)
        if o == "IN":
            neg, xs = False, []
            for k, v in av:
                k = str(k)
                if k == "NEGATE":
                    neg = True
                elif k == "LITERAL":
                    xs.append(ch(v))
                elif k == "RANGE":
                    xs.append(z3.Range(z3.StringVal(chr(v[0])), z3.StringVal(chr(v[1]))))
                elif k == "CATEGORY":
                    xs.append(self.cat(str(v)))
                else:
                    raise Unsupported("regex class " + k)
            r = union(xs)
            return z3.Intersect(ANY, z3.Complement(r)) if neg else r
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi == sre.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if o == "SUBPATTERN":
            return self.seq(av[3])
        if o == "BRANCH":
            return union([self.seq(x) for x in av[1]])
        if o == "CATEGORY":
            return self.cat(str(av))
        if o == "ANY":
            return z3.Intersect(ANY, z3.Complement(z3.Union(ch(10), ch(13))))
        raise Unsupported("regex construct " + o)

    def cat(self, k):
        word = z3.Union(DIGIT, z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
        cats = {"CATEGORY_DIGIT": DIGIT, "CATEGORY_SPACE": SPACE, "CATEGORY_WORD": word}
        if k not in cats:
            raise Unsupported("regex " + k)
        return cats[k]

    def seq(self, items):
        rs = [self.node(o, a) for o, a in items]
        return z3.Re("") if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def match(self, s, rx, n):
        """regex_match: -> (Boolean term, groups).  The groups are some way to split s that fits the pattern."""
        e = self.e
        p = sre.parse(rx.pat)
        items = [(o, a) for o, a in p]
        if items and str(items[0][0]) == "AT" and str(items[0][1]) == "AT_BEGINNING":
            items = items[1:]
        if items and str(items[-1][0]) == "AT" and str(items[-1][1]) == "AT_END":
            items = items[:-1]
        ok = e.fresh("matches", z3.BoolSort())
        ngroups = p.state.groups
        groups = [None] * ngroups
        groups[0] = s
        parts, inre = [], []
        for o, a in items:
            x = e.fresh("part", z3.StringSort())
            parts.append(x)
            inre.append(z3.InRe(x, self.node(o, a)))
            if str(o) == "SUBPATTERN" and a[0] is not None:
                groups[a[0]] = x
        whole = parts[0] if len(parts) == 1 else z3.Concat(*parts) if parts else z3.StringVal("")
        e.lib.note("std::regex_match: matches exactly the strings of the pattern's language, its groups are pieces of a "
                   "decomposition of the string that fits the pattern (ECMAScript, C locale)")
        e.assume(z3.Implies(ok, z3.And(s == whole, *inre)))
        e.assume(z3.Implies(z3.Not(ok), z3.Not(z3.InRe(s, self.seq(items)))))
        h = e.hooks.get("matched")
        if h:
            h(s, ok, parts)
        for g in range(ngroups):
            if groups[g] is None:
                groups[g] = e.fresh("group", z3.StringSort())
        return ok, groups

    def default(self, t, label):
        if t.name in ("std::match_results", "std::smatch"):
            return Match(z3.BoolVal(False), [])
        return None

    def construct(self, t, inner, n):
        if t.name in ("std::match_results", "std::smatch"):
            if len([x for x in inner if x["kind"] != "CXXDefaultArgExpr"]) == 0:
                return Match(z3.BoolVal(False), [])
            v = self.e.lib.val(self.e.ev(inner[0]))
            if isinstance(v, Match):
                return v
        if t.name in ("std::sub_match", "std::ssub_match"):
            v = self.e.lib.val(self.e.ev(inner[0]))
            if isinstance(v, Sub):
                return v
        return None

    def copy(self, v, move=False):
        return v if isinstance(v, (Match, Sub)) else None

    def needs_dtor(self, v):
        return False if isinstance(v, (Match, Sub)) else None

    def method(self, base, o, name, argn, n, bt):
        e = self.e
        if isinstance(o, Match):
            if name == "size":
                return z3.If(o.ok, e.mkint(len(o.groups), T("unsigned long")), e.mkint(0, T("unsigned long")))
            if name == "empty":
                return z3.Not(o.ok)
            if name == "ready":
                return z3.BoolVal(bool(o.groups))
            if name == "str":
                a = e.args_of(argn)
                k = const_int(e.lib.val(a[0])) if a else 0
                return self.group(o, k, n)
        if isinstance(o, Sub):
            if name == "str" or name.startswith("operator"):
                return o.s
        return None

    def group(self, o, k, n):
        if k is None or k >= len(o.groups):
            raise Unsupported("group of a match", n)
        return o.groups[k]

    def operator(self, name, args, n):
        e = self.e
        if name == "operator[]" and args:
            v = e.lib.val(args[0])
            if isinstance(v, Match):
                return Sub(self.group(v, const_int(e.lib.val(args[1])), n))
        return None

    # ---------------------------------------------------------------- functions
    def call_free(self, name, args, n, argn):
        e = self.e
        val = e.lib.val
        if name == "regex_match":
            s = e.lib.tostr(args[0], n)
            m = [a for a in args if isinstance(val(a), (Match, Regex))]
            rx = [val(a) for a in m if isinstance(val(a), Regex)]
            if len(rx) != 1 or len(args) > 3:
                raise Unsupported("regex_match", n)
            ok, groups = self.match(s, rx[0], n)
            for a in m:
                if isinstance(val(a), Match):
                    a.set(Match(ok, groups))
            return ok
        if name in ("strtod", "stod"):
            s = e.lib.tostr(args[0], n)
            if len(args) > 1 and name == "strtod":
                p = val(args[1])
                if not (isinstance(p, Ptr) and z3.is_true(z3.simplify(p.null))):
                    raise Unsupported("strtod with an end pointer", n)
            e.lib.note("strtod/stod of a decimal number: a fixed double for each text, positive zero or more, maybe "
                       "infinite, never NaN; stod throws when it is infinite (or subnormal)")
            r = STRTOD(s)
            good = z3.And(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsNegative(r)))
            e.assume(good if e.holds(z3.InRe(s, NUMBER)) else z3.Implies(z3.InRe(s, NUMBER), good))
            if name == "stod":
                if e.branch(z3.Not(z3.InRe(s, NUMBER)), n):
                    raise Unsupported("stod of a text that is not a plain decimal number", n)
                if e.branch(e.fresh("out_of_range", z3.BoolSort()), n):
                    e.lib.throw_std("out_of_range")
                e.assume(z3.Not(z3.fpIsInf(r)))
            return r
        if name in ("fabs", "abs") and len(args) == 1 and z3.is_fp(val(args[0])):
            return z3.fpAbs(val(args[0]))
        if name in ("trunc", "floor", "ceil", "round") and len(args) == 1 and z3.is_fp(val(args[0])):
            rm = {"trunc": z3.RTZ(), "floor": z3.RTN(), "ceil": z3.RTP(), "round": z3.RNA()}[name]
            return z3.fpRoundToIntegral(rm, val(args[0]))
        if name == "transform" and len(args) == 4:
            return self.transform(args, n)
        if name in ("upper_bound", "lower_bound") and len(args) in (3, 4):
            return self.bound(name, args, n)
        return None

    def transform(self, args, n):
        """std::transform of a whole string onto itself with a pure function of each character"""
        e = self.e
        a, b, o = (e.lib.val(x) for x in args[:3])
        if not all(isinstance(x, IterV) and x.pos is not None for x in (a, b, o)):
            raise Unsupported("std::transform", n)
        s = a.cont.get()
        if not (isinstance(s, z3.SeqRef) and o.cont.get() is s and b.cont.get() is s and
                e.holds(z3.And(a.pos == 0, o.pos == 0, b.pos == z3.Length(s)))):
            raise Unsupported("std::transform", n)
        e.lib.note("std::transform applies the function to every character")
        r = e.fresh("mapped", z3.StringSort())
        e.assume(z3.Length(r) == z3.Length(s))
        c = z3.Int(e.fresh_name("c"))
        mark = len(e.pc)
        e.assume(z3.And(c >= -128, c <= 127))
        y = e.lib.val(e.invoke(args[3], [e.conv(c, T("char"), T("unsigned char"))], n))
        if len([x for x in e.pc[mark:]]) != 1:
            raise Unsupported("std::transform with a branching function", n)
        y = z3.If(y < 0, y + 256, y)
        k = z3.Int("k")

        def signed(x):
            return z3.If(x >= 128, x - 256, x)
        facts = [z3.Length(r) == z3.Length(s)]
        for i in list(range(4)) + e.path_state.get("positions", []):
            at = lambda t: z3.StrToCode(z3.SubString(t, i, 1))
            facts.append(at(s) <= 255)
            facts.append(z3.Implies(z3.And(z3.IntVal(0) <= i, i < z3.Length(s)), at(r) == z3.substitute(y, (c, signed(at(s))))))
        for f in facts:
            e.assume(f)
        h = e.hooks.get("transformed")
        if h:
            h(s, r, facts)
        a.cont.set(r)
        return IterV(a.cont, z3.Length(r))

    def bound(self, name, args, n):
        """std::upper_bound/lower_bound over a whole sequence of known elements"""
        e = self.e
        a, b = e.lib.val(args[0]), e.lib.val(args[1])
        if not (isinstance(a, IterV) and isinstance(b, IterV)):
            raise Unsupported(name, n)
        m = a.cont.get()
        if not isinstance(m, MapV):
            raise Unsupported(name, n)
        en = e.lib.enumerate(a.cont)
        cnt = const_int(z3.simplify(m.n))
        if cnt is None or not e.holds(z3.And(a.pos == 0, b.end)) or len(args) != 4:
            raise Unsupported(name + " over part of a map", n)
        e.lib.note("std::upper_bound/lower_bound: the partition point of a sorted sequence")
        for k in range(cnt):
            it = e.lib.assoc_iter(a.cont, en, z3.IntVal(k))
            elem = e.lib.iter_deref(it, n)
            x = args[2] if isinstance(args[2], LV) else TempLV(args[2], None)
            r = e.lib.val(e.invoke(args[3], [x, elem] if name == "upper_bound" else [elem, x], n))
            if e.branch(r if name == "upper_bound" else z3.Not(r), n):
                return it
        return e.lib.assoc_iter(a.cont, en, z3.IntVal(cnt))

    # ---------------------------------------------------------------- doubles beside mathematical integers
    def fpcast(self, ck, v, ft, tt, n):
        e = self.e
        if e.intmode == "bv":
            return None
        if ck == "IntegralToFloating" and z3.is_int(v):
            return self.from_int(v)
        if ck == "FloatingToIntegral":
            bits, signed = INTS[e.int_t(tt).name]
            if signed or bits != 64:
                return None
            prove_fp(e, "floating value fits the integer type it is converted to", z3.And(
                z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(2.0 ** 64, F64)), z3.fpGT(v, z3.FPVal(-1.0, F64))), n, "safety")
            r = TRUNC(v)
            e.assume(z3.And(r >= 0, r < 2 ** 64))
            return r
        return None

    def from_int(self, v):
        c = const_int(v)
        if c is not None:
            return z3.FPVal(float(c), F64)
        v = z3.simplify(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b, c = v.children()
            return self.from_int(b if self.e.branch(a) else c)
        if z3.is_select(v):
            a, k = v.children()
            while z3.is_store(a):
                if self.e.branch(k == a.arg(1)):
                    return self.from_int(a.arg(2))
                a = a.arg(0)
        return z3.fpRealToFP(z3.RNE(), z3.ToReal(v), F64)
