"""C29: return codes, QoS policies, formatters and exceptions."""
from .common import *
from vc.frontend import REPO
from vc.stdlib import NONE, StreamV

PROGS = {"main": '''#include <functional>
#include <sstream>
#include "%(r)s/cpp_utils/src/cpp/ReturnCode.cpp"
namespace eprosima { namespace utils {
bool vp_eq(const ReturnCode& a, const ReturnCode& b) { return a == b; }
bool vp_ne(const ReturnCode& a, const ReturnCode& b) { return a != b; }
bool vp_lt(const ReturnCode& a, const ReturnCode& b) { return a < b; }
bool vp_not(const ReturnCode& a) { return !a; }
bool vp_eqv(const ReturnCode& a, const ReturnCode::ReturnCodeValue& b) { return a == b; }
bool vp_nev(const ReturnCode& a, const ReturnCode::ReturnCodeValue& b) { return a != b; }
bool vp_veq(const ReturnCode::ReturnCodeValue& a, const ReturnCode& b) { return a == b; }
bool vp_vne(const ReturnCode::ReturnCodeValue& a, const ReturnCode& b) { return a != b; }
std::uint32_t vp_number(const ReturnCode& a) { return a(); }
ReturnCode* vp_default() { return new ReturnCode(); }
ReturnCode* vp_dds(const fastdds::dds::ReturnCode_t& v) { return new ReturnCode(v); }
ReturnCode* vp_value(const ReturnCode::ReturnCodeValue& v) { return new ReturnCode(v); }
void vp_print(std::ostream& os, const ReturnCode& a) { os << a; }
} }
''' % {"r": REPO}, "qos": '''#include "%(r)s/cpp_utils/src/cpp/qos/qos_utils.cpp"
''' % {"r": REPO}, "text": '''#include <sstream>
#include "%(r)s/cpp_utils/src/cpp/Formatter.cpp"
#include "%(r)s/cpp_utils/src/cpp/exception/Exception.cpp"
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(const OpVal&); int x; };
std::ostream& operator<<(std::ostream&, const OpVal&);
} namespace utils {
Formatter* vp_formatter() { return new Formatter(); }
void vp_put(Formatter& f, const eprosima::vp::OpVal& v) { f << v; }
Formatter& vp_put_string(Formatter& f, const std::string& v) { return f << v; }
Formatter& vp_put_twice(Formatter& f, const std::string& a, const eprosima::vp::OpVal& b) { return f << a << b; }
std::string vp_as_string(const Formatter& f) { return f; }
std::string vp_to_string(const Formatter& f) { return f.to_string(); }
void vp_print(std::ostream& os, const Formatter& f) { os << f; }
%(kinds)s
} }
'''}
KINDS = ("Exception", "ConfigurationException", "DNSException", "DisabledException", "InconsistencyException", "InitializationException",
         "PreconditionNotMet", "TimeoutException", "UnsupportedException", "ValueAccessException", "ValueNotAllowedException")
PROGS["text"] = PROGS["text"] % {"r": REPO, "kinds": "\n".join('''
%(k)s* vp_chars_%(k)s(const char* m) { return new %(k)s(m); }
%(k)s* vp_string_%(k)s(const std::string& m) { return new %(k)s(m); }
%(k)s* vp_formatter_%(k)s(const Formatter& m) { return new %(k)s(m); }
%(k)s* vp_copy_%(k)s(const %(k)s& o) { return new %(k)s(o); }
void vp_assign_%(k)s(%(k)s& a, const %(k)s& o) { a = o; }
const char* vp_what_%(k)s(const %(k)s& o) { return o.what(); }
void vp_throw_%(k)s(const std::string& m) { throw %(k)s(m); }
''' % {"k": k} for k in KINDS)}
DRIVER = {"src": "c29.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined"],
          "repo": ["cpp_utils/src/cpp/" + x for x in ("ReturnCode.cpp", "qos/qos_utils.cpp", "Formatter.cpp", "exception/Exception.cpp")]}
ASSUMPTIONS = ["the codes and policies have the values of Fast DDS 3 (stub/fastdds); std::bitset test(i) and none() as the standard says",
               "the operator<< of a value appends a text that depends on the value only"]
RC = T(U + "ReturnCode")
RV = T(U + "ReturnCode::ReturnCodeValue")
I, B, SS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
OK, ERROR, UNKNOWN, NO_DATA, NOT_ENABLED, PRECONDITION = range(6)
DDS = {0: OK, 1: ERROR, 2: ERROR, 3: ERROR, 4: PRECONDITION, 5: ERROR, 6: NOT_ENABLED, 7: ERROR, 8: ERROR, 9: ERROR, 10: ERROR, 11: NO_DATA, 12: ERROR}
NAMES = ["Ok", "Error", "Unknown", "NoData", "NotEnabled", "PreconditionNotMet"]


def code(e, name):
    o = e.sym_obj(e.prog.record(RC), name)
    c = list(o.byname.values())
    if len(c) != 1:
        raise Unsupported("fields of ReturnCode")
    e.assume(z3.And(c[0].v >= 0, c[0].v <= 5))
    return o, c[0]


def value(e, name):
    v = e.fresh(name, I)
    e.assume(z3.And(v >= 0, v <= 5))
    return v


def obj(p):
    t = p.target if isinstance(p, Ptr) else p
    return t.v if isinstance(t, Cell) else t


def made(which):
    def unit(e):
        a = []
        if which == "dds":
            v = e.fresh("value", I)
            e.assume(z3.And(v >= -2**31, v < 2**31))
            a = [arg(e, T("int"), v, "value")]
            want = z3.IntVal(UNKNOWN)
            for k, r in DDS.items():
                want = z3.If(v == k, r, want)
        elif which == "value":
            want = value(e, "value")
            a = [arg(e, RV, want, "value")]
        else:
            want = z3.IntVal(OK)
        o = obj(rvalue(run(e, fn(e, "vp_" + which), a)))
        e.cover("made")
        c = list(o.byname.values())
        e.prove("the code has the value that it is made of", c[0].v == want if len(c) == 1 else False)
    return unit


def compared(name, f, left=True, right=True):
    def unit(e):
        args, vals = [], []
        for nm, isobj in (("a", left), ("b", right)):
            if isobj is None:
                continue
            if isobj:
                o, c = code(e, nm)
                args.append(arg(e, RC, o, nm)); vals.append(c.v)
            else:
                v = value(e, nm)
                args.append(arg(e, RV, v, nm)); vals.append(v)
        before = [c for c in vals]
        r = rvalue(run(e, fn(e, name), args))
        e.cover("compared")
        e.prove("the answer is that of the values", r == f(*before))
        for a, v in zip(args, before):
            if isinstance(a.v, Obj):
                e.prove("the code stays", list(a.v.byname.values())[0].v == v)
    return unit


def printed(e):
    o, c = code(e, "code")
    s0 = e.fresh("before", SS)
    os = Cell(e, T("std::ostream"), StreamV(s0), "arg/os", name="os")
    run(e, fn(e, U + "vp_print"), [os, arg(e, RC, o, "code")])
    e.cover("printed")
    want = sv("")
    for k, n in enumerate(NAMES):
        want = z3.If(c.v == k, sv("{%s}" % n), want)
    e.prove("its name in braces is added", os.v.s == z3.Concat(s0, want))



# ---------------------------------------------------------------- policies

IDS = ("Invalid", "User data", "Durability", "Presentation", "Deadline", "Latency budget", "Ownership", "Ownership strength", "Liveliness",
       "Time-based filter", "Partition", "Reliability", "Destination order", "History", "Resource limits", "Entity factory", "Writer data lifecycle",
       "Reader data lifecycle", "Topic data", "Group data", "Transport priority", "Lifespan", "Durability service", "Data representation",
       "Type consistency enforcement", "Disable positive acks", "Participant resource limits", "Property policy", "Publish mode",
       "Reader resource limits", "RTPS endpoint", "RTPS reliable reader", "RTPS reliable writer", "Transport config", "Type consistency",
       "Wire protocol config", "Writer resource limits")
N = len(IDS)
PID = T("eprosima::fastdds::dds::QosPolicyId_t")
NAME = z3.Function("NAME", I, SS)


def names(e):
    for k, n in enumerate(IDS):
        e.assume(NAME(k) == sv(n))


class MaskV:
    def __init__(self, bits):
        self.bits = bits


class Masks:
    """a bitset: which of its N bits are set"""
    def __init__(self, e):
        self.e = e

    def ismask(self, t):
        return not t.noref().ptr and t.noref().name in ("std::bitset", "eprosima::fastdds::dds::PolicyMask")

    def sym(self, t, name):
        if self.ismask(t):
            return MaskV(self.e.fresh("bits", z3.ArraySort(I, B)))

    def havoc(self, c, base):
        if isinstance(c.v, MaskV):
            return MaskV(self.e.fresh("bits", z3.ArraySort(I, B)))

    def copy(self, v, t=None):
        if isinstance(v, MaskV):
            return MaskV(v.bits)

    def method(self, base, o, name, argn, n, bt):
        e = self.e
        if not isinstance(o, MaskV):
            return None
        if name in ("test", "operator[]"):
            i = rvalue(e.rv(argn[0]))
            ok = z3.And(i >= 0, i < N)
            if name == "test":
                if e.branch(z3.Not(ok), n):
                    e.lib.throw_std("out_of_range")
            else:
                e.prove("a bit of the mask", ok, n, "safety")
            return o.bits[i]
        if name == "size":
            return z3.IntVal(N)
        j = z3.Int("j!")
        none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.Not(o.bits[j])), patterns=[o.bits[j]])
        if name in ("none", "any"):
            return none if name == "none" else z3.Not(none)
        if name == "count":
            return z3.Sum(*[z3.If(o.bits[k], 1, 0) for k in range(N)])


def qsetup(e):
    e.lib.ext.append(Masks(e))

    def inv(ctx):
        f = e.path_state.get("inv")
        if f:
            yield from f(ctx)
    e.invariants.append(inv)


def policy(e):
    k = e.fresh("id", I)
    e.assume(z3.And(k >= 0, k < 2**32))
    names(e)
    r = rvalue(run(e, fn(e, "qos_policy_id_to_string"), [arg(e, PID, k, "id")]))
    e.cover("named")
    e.prove("it is the name of the policy", r == z3.If(k < N, NAME(k), NAME(0)))


def mask(e):
    e.hooks["cut"] = lambda n: True
    m = arg(e, T("std::bitset"), MaskV(e.fresh("bits", z3.ArraySort(I, B))), "mask")
    bits = m.v.bits
    e.contracts[U + "qos_policy_id_to_string"] = Contract(lambda e, d, this, args, node: (lambda k: z3.If(z3.And(k >= 0, k < N), NAME(k), NAME(0)))(rvalue(args[0])))
    J = z3.Function("LISTED", I, SS)
    i, j = z3.Int("i!"), z3.Int("j!")
    NONE = lambda q: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.Not(bits[j])), patterns=[bits[j]])
    NB = z3.Function("NONE_BEFORE", I, B)
    e.assume(z3.And(J(0) == sv(""), NB(0), NB(N) == NONE(N)))
    e.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And(
        NB(i + 1) == z3.And(NB(i), z3.Not(bits[i])),
        J(i + 1) == z3.If(bits[i], z3.If(NB(i), NAME(i), z3.Concat(J(i), sv(", "), NAME(i))), J(i)))), patterns=[bits[i]]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), NAME(i) != sv("")), patterns=[NAME(i)]))
    NONE = NB

    known = {c.label for c in e.cells}

    def inv(ctx):
        for q in ctx.ints():
            if q.label in known:
                continue
            v = q.v
            yield "%s in range" % q.name, z3.And(v >= 0, v <= N)
            for s in ctx.strings():
                if s.label not in known:
                    yield "%s lists those before %s" % (s.name, q.name), s.v == J(v)
                    for what, x in (("the separator, if any is", sv(", ")), ("those, with a separator after,", z3.Concat(J(v), sv(", "))),
                                    ("those, with a separator before,", z3.Concat(sv(", "), J(v)))):
                        yield "%s is %s before %s" % (s.name, what, q.name), s.v == z3.If(NONE(v), sv(""), x)
            for b in ctx.bools():
                if b.label not in known:
                    yield "%s: none before %s" % (b.name, q.name), b.v == NONE(v)
                    yield "%s: one before %s" % (b.name, q.name), b.v == z3.Not(NONE(v))
            yield "the list is empty while none is before %s" % q.name, (J(v) == sv("")) == NONE(v)
    e.path_state["inv"] = inv
    r = rvalue(run(e, fn(e, "qos_policy_mask_to_string"), [m]))
    e.cover("listed")
    e.prove("the names of the policies in the mask, by id, or Invalid if there is none", r == z3.If(NONE(N), NAME(0), J(N)))


# ---------------------------------------------------------------- formatters and exceptions

V, F = T("eprosima::vp::OpVal"), T(U + "Formatter")
TEXT = None


def tsetup(e):
    e.lib.ext.append(Chars(e))
    e.path_text = z3.Function("TEXT", e.sort_of(V), SS)

    def out(e, d, this, args, node):
        os, v = rvalue(args[0]), StreamV.__new__(StreamV)
        v.__dict__.update(os.__dict__)
        v.s = z3.Concat(os.s, e.path_text(rvalue(args[1])))
        args[0].set(v)
        return args[0]
    e.contracts["eprosima::vp::operator<<"] = Contract(out)


def formatter(e, name="formatter"):
    o = e.sym_obj(e.prog.record(F), name)
    c = [c for c in o.byname.values() if isinstance(c.v, StreamV)]
    if len(c) != 1:
        raise Unsupported("fields of Formatter")
    return arg(e, F, o, name), c[0]


def fempty(e):
    o = obj(rvalue(run(e, fn(e, "vp_formatter"), [])))
    e.cover("made")
    e.prove("it is empty", [c for c in o.byname.values() if isinstance(c.v, StreamV)][0].v.s == sv(""))


def fput(which):
    def unit(e):
        f, c = formatter(e)
        s0 = c.v.s
        v = e.sym(V, "value")
        s = e.fresh("string", SS)
        a, want = {"vp_put": ([arg(e, V, v, "v")], [e.path_text(v)]), "vp_put_string": ([arg(e, S, s, "v")], [s]),
                   "vp_put_twice": ([arg(e, S, s, "a"), arg(e, V, v, "b")], [s, e.path_text(v)])}[which]
        r = run(e, fn(e, which), [f] + a)
        e.cover("put")
        e.prove("what is put is added at the end", c.v.s == z3.Concat(s0, *want))
        if which != "vp_put":
            e.prove("the formatter itself is returned", z3.BoolVal(isinstance(r, LV) and r.get() is f.v or r is f.v))
    return unit


def ftext(which):
    def unit(e):
        f, c = formatter(e)
        s0 = c.v.s
        r = rvalue(run(e, fn(e, which), [f]))
        e.cover("asked")
        e.prove("it is the text that was put", r == s0)
        e.prove("the formatter stays", c.v.s == s0)
    return unit


def fprint(e):
    f, c = formatter(e)
    s0 = c.v.s
    t0 = e.fresh("before", SS)
    os = Cell(e, T("std::ostream"), StreamV(t0), "arg/os", name="os")
    run(e, fn(e, U + "vp_print"), [os, f])
    e.cover("printed")
    e.prove("its text is printed", os.v.s == z3.Concat(t0, s0))
    e.prove("the formatter stays", c.v.s == s0)


class Chars:
    """which string a character pointer points into"""
    def __init__(self, e):
        self.e = e

    def method(self, base, o, name, argn, n, bt):
        if name in ("c_str", "data") and isinstance(base, Cell):
            self.e.path_state.setdefault("chars", []).append(base)


def strings(o):
    return [c for c in o.byname.values() if isinstance(c.v, z3.SeqRef)]


def exc(e, k, name="exception"):
    o = e.sym_obj(e.prog.record(T(U + k)), name)
    c = strings(o)
    if len(c) != 1:
        raise Unsupported("fields of the exception")
    return arg(e, T(U + k), o, name), c[0]


def emade(k, which):
    def unit(e):
        s = e.fresh("message", SS)
        if which == "string":
            a = arg(e, S, s, "message")
        elif which == "formatter":
            a, c = formatter(e, "message")
            s = c.v.s
        else:
            e.assume(z3.Not(z3.Contains(s, sv("\0"))))
            a = arg(e, parse_type("const char *"), s, "message")
        o = obj(rvalue(run(e, fn(e, "vp_%s_%s" % (which, k)), [a])))
        e.cover("made")
        c = strings(o)
        e.prove("it has the message", c[0].v == s if len(c) == 1 else False)
    return unit


def copied(k, assign):
    def unit(e):
        a, c = exc(e, k, "original")
        s = c.v
        if assign:
            b, d = exc(e, k, "copy")
            run(e, fn(e, "vp_assign_" + k), [b, a])
        else:
            o = obj(rvalue(run(e, fn(e, "vp_copy_" + k), [a])))
            d = strings(o)[0]
        e.cover("copied")
        e.prove("the copy has the message", d.v == s)
        e.prove("the original keeps it", c.v == s)
    return unit


def what(k):
    def unit(e):
        a, c = exc(e, k)
        s = c.v
        r = rvalue(run(e, fn(e, "vp_what_" + k), [a]))
        e.cover("asked")
        e.prove("what() tells the message", r == e.lib.c_string(s))
        chars = e.path_state.get("chars")
        if not chars:
            raise Unsupported("where the characters of what() are")
        e.prove("the characters are those of the exception and stay as long as it does", z3.BoolVal(chars[-1] is c))
        e.prove("the exception stays", c.v == s)
    return unit


def thrown(k):
    def unit(e):
        s = e.fresh("message", SS)
        try:
            run(e, fn(e, "vp_throw_" + k), [arg(e, S, s, "message")], throws=True)
        except CppThrow as x:
            e.cover("thrown")
            e.prove("an exception of that kind is thrown", z3.BoolVal(x.t.noref().name == U + k))
            names = [b.get("qualType") or b["type"]["qualType"] for r in e.lib.bases_of(e.prog.record(x.t)) for b in r.get("bases", [])] + [x.t.noref().name]
            e.prove("it is caught as an Exception", z3.BoolVal(any(x.split("::")[-1] == "Exception" for x in names)))
            e.prove("and as a std::exception", z3.BoolVal("std::exception" in names))
            return
        e.prove("an exception of that kind is thrown", False)
    return unit


UNITS = [Unit("made of a code of Fast DDS", made("dds")), Unit("made of a value", made("value")), Unit("made of nothing", made("default")),
         Unit("==", compared("vp_eq", lambda a, b: a == b)), Unit("!=", compared("vp_ne", lambda a, b: a != b)), Unit("<", compared("vp_lt", lambda a, b: a < b)),
         Unit("== a value", compared("vp_eqv", lambda a, b: a == b, True, False)), Unit("!= a value", compared("vp_nev", lambda a, b: a != b, True, False)),
         Unit("a value ==", compared("vp_veq", lambda a, b: a == b, False, True)), Unit("a value !=", compared("vp_vne", lambda a, b: a != b, False, True)),
         Unit("!", compared("vp_not", lambda a: a != OK, True, None)), Unit("number", compared("vp_number", lambda a: a, True, None)),
         Unit("printed", printed),
         Unit("qos_policy_id_to_string", policy, qsetup, prog="qos"), Unit("qos_policy_mask_to_string", mask, qsetup, prog="qos"),
         Unit("an empty Formatter", fempty, tsetup, prog="text")]
UNITS += [Unit("Formatter " + w[3:], fput(w), tsetup, prog="text") for w in ("vp_put", "vp_put_string", "vp_put_twice")]
UNITS += [Unit("Formatter " + w[3:], ftext(w), tsetup, prog="text") for w in ("vp_as_string", "vp_to_string")]
UNITS += [Unit("Formatter printed", fprint, tsetup, prog="text")]
for k in KINDS:
    UNITS += [Unit("%s made of a %s" % (k, w), emade(k, w), tsetup, prog="text") for w in ("chars", "string", "formatter")]
    UNITS += [Unit(k + " copied", copied(k, False), tsetup, prog="text"), Unit(k + " assigned", copied(k, True), tsetup, prog="text"),
              Unit(k + "::what", what(k), tsetup, prog="text"), Unit(k + " thrown", thrown(k), tsetup, prog="text")]
