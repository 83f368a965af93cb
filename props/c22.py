"""C22: commands read from the console."""
from .common import *
from .monitor import method
from .threads import Threads
from .listth import *
from . import listth
from vc.frontend import REPO

PROGS = {"main": '''#include <functional>
#include <string>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/utils.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include "%s/cpp_utils/src/cpp/event/StdinEventHandler.cpp"
#include <cpp_utils/user_interface/CommandReader.hpp>
namespace eprosima { namespace vp {
struct OpVal { OpVal(); OpVal(const OpVal&); OpVal& operator=(const OpVal&); bool operator<(const OpVal&) const; int x; };
} namespace utils {
template class CommandReader<eprosima::vp::OpVal>;
CommandReader<eprosima::vp::OpVal>* vp_reader(const EnumBuilder<eprosima::vp::OpVal>& b) { return new CommandReader<eprosima::vp::OpVal>(b); }
} }
''' % REPO}
DRIVER = {"src": "c22.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
          "repo": ["cpp_utils/src/cpp/event/StdinEventHandler.cpp", "cpp_utils/src/cpp/history/CommandHistoryHandler.cpp",
                   "cpp_utils/src/cpp/wait/CounterWaitHandler.cpp", "cpp_utils/src/cpp/exception/Exception.cpp",
                   "cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/time/time_utils.cpp", "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["lines by the contract of StdinEventHandler (C21), the queue by that of its consumer (C15), the split by that of split_string (C04) "
               "and the table of commands by that of EnumBuilder (C13)",
               "a line is shorter than 2^61 characters", "commands are an opaque type"]
V = T("eprosima::vp::OpVal")
RD = parse_type(U + "CommandReader<eprosima::vp::OpVal>")
CMD = parse_type(U + "Command<eprosima::vp::OpVal>")
VS = parse_type("std::vector<std::string>")
L = z3.Length
SP, QT = sv(" "), sv('"')
A = z3.ArraySort(I, SS)
# Specification.  TEXT(i, j): the words from i to j with a space between them.  LAST(i, j): the word that closes the quotation
# open since i, looking from j on (the last word if none does).  ARGS(k): the arguments of the first k words.
TEXT = z3.Function("TEXT", I, I, SS)
LAST = z3.Function("LAST", I, I, I)
ARGS = z3.Function("ARGS", I, List)
SPLIT = z3.Function("SPLIT", SS, SS, List)
QUOTED = z3.Function("QUOTED", List, List)


def quoted(s):
    return z3.PrefixOf(QT, s)


def closed(s):
    return z3.And(L(s) >= 2, z3.SuffixOf(QT, s))


def inside(s):
    """what is inside the quotes; the closing one may be missing"""
    return z3.If(closed(s), z3.SubString(s, 1, L(s) - 2), z3.SubString(s, 1, L(s) - 1))


def defs(v, i, j):
    """the defining equations, at i and j"""
    n = v.n
    return [TEXT(i, i) == v.select(i), z3.Implies(z3.And(j >= i, j + 1 < n), TEXT(i, j + 1) == z3.Concat(TEXT(i, j), SP, v.select(j + 1))),
            LAST(i, j) == z3.If(z3.Or(closed(TEXT(i, j)), j + 1 >= n), j, LAST(i, j + 1)),
            z3.Implies(z3.And(i >= 0, i < n), z3.If(quoted(v.select(i)), ARGS(LAST(i, i) + 1) == snoc(ARGS(i), inside(TEXT(i, LAST(i, i)))),
                                                    ARGS(i + 1) == snoc(ARGS(i), v.select(i))))]


def join(e):
    o = e.sym_obj(e.prog.record(RD), "reader")
    v = arg(e, VS, e.sym(VS, "words"), "words")
    w = v.get()
    track(e)
    e.path_state["words"] = w
    e.path_state["known"] = {c.label for c in e.cells}
    e.assume(w.n < 2 ** 61)
    e.assume(z3.And(ARGS(0) == NIL, app_nil(NIL)))
    r = rvalue(run(e, method(e, e.prog.record(RD), "join_quoted_strings", 1), [v], this=o))
    e.cover("joined")
    e.prove("the arguments are the words and the quotations, in order", lst(r) == ARGS(w.n))
    e.prove("some word gives some argument", z3.Implies(w.n >= 1, r.n >= 1))


def join_setup(e):
    e.lib.ext.append(Threads(e))

    def inv(ctx):
        w = e.path_state.get("words")
        if w is None:
            return
        loc = lambda cs: [c for c in cs if c.label not in e.path_state["known"]]
        pos = [(c.name, c.v) for c in loc(ctx.ints())] + [(c.name, c.v.pos) for c in loc(ctx.iters()) if c.v.pos is not None]
        vecs = [c for c in loc(ctx.kind(Vec)) if c.v.et.name == "std::string"]
        for nm, p in pos:
            yield nm + " in range", z3.And(p >= 0, p <= w.n)
            yield nm + " at a word", z3.And(p >= 0, p < w.n)
            if ctx.phase == "head":
                for f in defs(w, p, p):
                    e.assume(f)
            for r in vecs:
                yield "%s %s: the arguments so far" % (r.name, nm), lst(r.v) == ARGS(p)
                yield "%s %s: some argument" % (r.name, nm), z3.Implies(p >= 1, r.v.n >= 1)
            # the start of the quotation: a position as it was when this loop was reached
            for c0 in loc(ctx.ints()):
                q = ctx.entry.get(c0.label)
                if q is None:
                    continue
                for s in ctx.strings(True):
                    yield "%s begins with a quote" % s.name, quoted(s.v)
                    for b in loc(ctx.bools(True)):
                        yield "%s: %s is closed" % (b.name, s.name), b.v == closed(s.v)
                        yield "%s: %s is open" % (b.name, s.name), b.v == z3.Not(closed(s.v))
                    yield "%s is the text from %s at entry to %s" % (s.name, c0.name, nm), s.v == TEXT(q, p)
                yield "%s after the start %s" % (nm, c0.name), p >= q
                yield "%s start %s: not closed before" % (nm, c0.name), LAST(q, q) == LAST(q, p)
                if ctx.phase in ("entry", "head"):
                    for f in defs(w, q, p) + defs(w, q, q):
                        e.assume(f)
    e.invariants.append(inv)

    def decreases(ctx):
        w = e.path_state["words"]
        c = [(c.v, ctx.head.get(c.label)) for c in ctx.ints(True)] + [(c.v.pos, ctx.head[c.label].pos) for c in ctx.iters(True)
                                                                     if c.label in ctx.head and c.v.pos is not None]
        g = z3.Or(*[z3.And(a > b, a <= w.n) for a, b in c if b is not None]) if c else z3.BoolVal(False)
        e.prove("the loop ends: fewer words are left", g, ctx.node, "termination")
    e.hooks["decreases"] = decreases


def next_setup(e):
    e.lib.ext.append(Threads(e))
    W = U + "event::"

    def st():
        return e.path_state["flow"]

    def more(e, d, this, args, node):
        st().append("ask")

    def consume(e, d, this, args, node):
        e.prove("a line is awaited once it has been asked for", z3.BoolVal(st() == ["ask"]), node)
        e.prove("it is awaited for as long as it takes", rvalue(args[0]) == 0 if args else z3.BoolVal(True), node)
        st().append("consume")
        return e.path_state["line"]

    def split(e, d, this, args, node):
        s, dl = [rvalue(a) for a in args]
        v = e.sym(VS, "words")
        e.assume(z3.And(lst(v) == SPLIT(s, dl), v.n >= 1))
        return v

    def joined(e, d, this, args, node):
        w = rvalue(args[0])
        v = e.sym(VS, "arguments")
        e.assume(z3.And(lst(v) == QUOTED(lst(w)), z3.Implies(w.n >= 1, v.n >= 1)))
        return v

    def build(e, d, this, args, node):
        st().append("build")
        e.path_state["looked"] = rvalue(args[0])
        e.path_state["builder"] = this
        r, x = e.fresh("found", z3.BoolSort()), e.fresh("command", e.sort_of(V))
        e.path_state["found"] = (r, x, rvalue(args[1]))
        args[1].set(z3.If(r, x, rvalue(args[1])))
        return r
    e.contracts[W + "StdinEventHandler::read_one_more_line"] = Contract(more)
    e.contracts[W + "ConsumerWaitHandler::consume"] = Contract(consume)
    e.contracts[U + "split_string"] = Contract(split, lambda e, d, this, args: [typeof(p).noref().name for p in params_of(d)] == ["std::string"] * 2)
    e.contracts[U + "CommandReader::join_quoted_strings"] = Contract(joined)
    e.contracts[U + "EnumBuilder::string_to_enumeration"] = Contract(build, lambda e, d, this, args: len(args) == 2)


def next_command(e):
    o = e.sym_obj(e.prog.record(RD), "reader")
    c = e.sym_obj(e.prog.record(CMD), "command")
    e.path_state["flow"] = []
    line = e.path_state["line"] = e.sym(S, "line")
    x0 = c.byname["command"].v
    r = rvalue(run(e, method(e, e.prog.record(RD), "read_next_command", 1), [TempLV(c, CMD)], this=o))
    e.cover("read")
    e.prove("one line is asked for and awaited, and its command looked up once", z3.BoolVal(e.path_state["flow"] == ["ask", "consume", "build"]))
    a = c.byname["arguments"].v
    e.prove("the arguments are those of the line", lst(a) == QUOTED(SPLIT(line, SP)))
    found, x, was = e.path_state.get("found", (None, None, None))
    if found is None:
        return
    e.prove("the command is looked up by the first argument", e.path_state["looked"] == a.select(z3.IntVal(0)))
    e.prove("the answer tells whether there is such a command, and gives it", z3.And(r == found, z3.Implies(found, c.byname["command"].v == x)))


def callback(e):
    """the callback of the handler, until the reader is destroyed: what is read goes to the queue"""
    o = None
    W = U + "event::"
    made, calls = [], []
    e.path_state["order"] = order = []

    def stdin(e, d, this, args, node):
        order.append("+handler")
        made.append([rvalue(a) for a in args])

    def queue(e, d, this, args, node):
        order.append("+queue")
        made.append(("queue", [rvalue(a) for a in args]))
    e.contracts[W + "StdinEventHandler::StdinEventHandler"] = Contract(stdin)
    e.contracts[W + "DBQueueWaitHandler::DBQueueWaitHandler"] = Contract(queue)
    e.contracts[W + "ConsumerWaitHandler::ConsumerWaitHandler"] = Contract(queue)

    def produce(e, d, this, args, node):
        calls.append((this, rvalue(args[0])))
    e.contracts[W + "ConsumerWaitHandler::produce"] = Contract(produce)
    e.contracts[W + "StdinEventHandler::~StdinEventHandler"] = Contract(lambda e, d, this, args, node: order.append("-handler"))
    e.contracts[W + "ConsumerWaitHandler::~ConsumerWaitHandler"] = Contract(lambda e, d, this, args, node: order.append("-queue"))
    e.contracts[W + "DBQueueWaitHandler::~DBQueueWaitHandler"] = Contract(lambda e, d, this, args, node: order.append("-queue"))
    f = fn(e, "vp_reader")
    b = e.sym_obj(e.prog.record(parse_type(U + "EnumBuilder<eprosima::vp::OpVal>")), "builder")
    p = rvalue(run(e, f, [TempLV(b, typeof(params_of(f)[0]).noref())]))
    o = p.target if isinstance(p.target, Obj) else rvalue(p.target)
    e.cover("made")
    q = [m for m in made if isinstance(m, tuple)]
    h = [m for m in made if not isinstance(m, tuple)]
    if len(q) != 1 or len(h) != 1:
        raise Unsupported("not one queue and one handler: %s" % order)
    e.prove("the queue is empty and enabled", z3.And(q[0][1][0] == 0, q[0][1][1]))
    e.prove("no line is asked for at the start", z3.And(h[0][1], h[0][2] == 0))
    e.prove("the handler does not exist before its queue does", z3.BoolVal(order == ["+queue", "+handler"]))
    s = e.sym(S, "text")
    e.invoke(h[0][0], [arg(e, S, s, "text")], None)
    e.prove("what the handler reads goes to the queue, once", z3.And(z3.BoolVal(len(calls) == 1), calls[0][1] == s if calls else False))
    bb = [c.v for c in o.byname.values() if isinstance(c.v, Obj) and c.v.rec is b.rec]
    mb = [c.v for c in b.byname.values() if isinstance(c.v, MapV)]
    ob = [c.v for c in bb[0].byname.values() if isinstance(c.v, MapV)] if len(bb) == 1 else []
    k = z3.String("anykey")
    e.prove("the table of commands is the one given", z3.And(ob[0].has(k) == mb[0].has(k), z3.Implies(
        mb[0].has(k), ob[0].select(k) == mb[0].select(k))) if len(ob) == len(mb) == 1 else False)
    del order[:]
    e.destroy(o)
    e.prove("the handler ends before its queue does", z3.BoolVal(order.index("-handler") < order.index("-queue")
                                                                 if "-handler" in order and "-queue" in order else False))


def life_setup(e):
    e.lib.ext.append(Threads(e))


def spec_lemmas(e):
    """what the specification means for a quotation: words w_i..w_j typed inside quotes come out as they were typed"""
    s = e.sym(S, "text")
    e.assume(z3.And(z3.PrefixOf(QT, s), closed(s)))
    e.prove("a closed quotation is what is between the quotes", z3.Concat(QT, inside(s), QT) == s)
    t = e.sym(S, "open")
    e.assume(z3.And(z3.PrefixOf(QT, t), z3.Not(closed(t))))
    e.prove("an open quotation is what follows the quote", z3.Concat(QT, inside(t)) == t)


UNITS = [listth.unit(), Unit("lemmas of the quotations", spec_lemmas, life_setup), Unit("join_quoted_strings", join, join_setup, budget=200),
         Unit("read_next_command", next_command, next_setup), Unit("CommandReader", callback, life_setup)]
