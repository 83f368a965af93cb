"""C21: reading lines from the standard input."""
from .common import *
from .monitor import method
from .threads import Threads
from vc.frontend import REPO
from vc.stdlib import ThreadV, NONE

PROGS = {"main": '''#include <cstdio>
#include <iostream>
#include <functional>
#include "%(r)s/cpp_utils/src/cpp/event/StdinEventHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp"
namespace eprosima { namespace utils {
history::CommandHistoryHandler vp_history() { return history::CommandHistoryHandler(); }
namespace event { StdinEventHandler* vp_stdin(std::function<void(std::string)> f, int n) { return new StdinEventHandler(f, true, n); } }
} }
''' % {"r": REPO}}
DRIVER = {"src": "c21.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
          "repo": ["cpp_utils/src/cpp/event/StdinEventHandler.cpp", "cpp_utils/src/cpp/history/CommandHistoryHandler.cpp",
                   "cpp_utils/src/cpp/wait/CounterWaitHandler.cpp", "cpp_utils/src/cpp/exception/Exception.cpp",
                   "cpp_utils/src/cpp/utils.cpp", "cpp_utils/src/cpp/time/time_utils.cpp",
                   "cpp_utils/src/cpp/Formatter.cpp"]}
ASSUMPTIONS = ["getchar gives the next byte of the input as an unsigned char, or EOF",
               "a line, with its prompt, is shorter than 2^30 characters; fewer than 2^62 commands are kept",
               "what is shown on the terminal, and its mode, are not specified",
               "whether input is ignored does not change between the end of a line and its addition to the history"]
W = U + "event::"
HIST = T(U + "history::CommandHistoryHandler")
STDIN = T(W + "StdinEventHandler")
L = z3.Length

# ---------------------------------------------------------------- the history
# its entries, oldest first, and a position in [0, number of entries]


def parts(e, o):
    v = [c for c in o.byname.values() if isinstance(c.v, Vec)]
    i = [c for c in o.byname.values() if z3.is_int(c.v)]
    if len(v) != 1 or len(i) != 1:
        raise Unsupported("the fields of the history are not the expected ones")
    return v[0], i[0]


def position(v, i):
    """with no entry every position is the same one"""
    return z3.If(v.n == 0, z3.IntVal(0), i)


def hist(e):
    o = e.sym_obj(e.prog.record(HIST), "history")
    v, i = parts(e, o)
    e.assume(z3.And(v.v.n >= 0, v.v.n < 2 ** 62))
    e.assume(valid(v.v, i.v))
    witness(e, entries=v.v.n, position=i.v)
    return o, v, i


def valid(v, i):
    return z3.Or(z3.And(i >= 0, i <= v.n), z3.And(v.n == 0, i == 2 ** 64 - 1))


def same_entries(a, b):
    k = z3.Int("k")
    return z3.And(a.n == b.n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.n), a.select(k) == b.select(k)))) \
        if a.items is None and b.items is None else z3.BoolVal(False)


def history_ctor(e):
    o = rvalue(run(e, fn(e, "vp_history"), []))
    v, i = parts(e, o)
    e.cover("made")
    e.prove("a new history has no entries", v.v.n == 0)
    e.prove("and a valid position", valid(v.v, i.v))


def history_op(name):
    def unit(e):
        o, v, i = hist(e)
        v0, p0 = v.v, position(v.v, i.v)
        f = method(e, e.prog.record(HIST), name)
        if name == "add_command":
            s = e.sym(S, "command")
            witness(e, command=s)
            run(e, f, [arg(e, S, s)], this=o)
            e.cover("added")
            k = z3.Int("k")
            e.prove("add_command: an empty command changes nothing", z3.Implies(
                L(s) == 0, z3.And(same_entries(v.v, v0), position(v.v, i.v) == p0)))
            e.prove("add_command: the command is the last entry, the others stay, and the position is after it", z3.Implies(
                L(s) > 0, z3.And(v.v.n == v0.n + 1, v.v.select(v0.n) == s, i.v == v0.n + 1,
                                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v0.n), v.v.select(k) == v0.select(k))))))
        else:
            r = rvalue(run(e, f, [], this=o))
            e.cover("asked")
            p = position(v.v, i.v)
            e.prove("%s: the entries stay" % name, same_entries(v.v, v0))
            if name == "get_previous_command":
                e.prove("get_previous_command: moves to the entry before and gives it, if there is one",
                        z3.If(p0 > 0, z3.And(p == p0 - 1, r == v0.select(p0 - 1)), z3.And(p == p0, r == sv(""))))
            else:
                e.prove("get_next_command: moves to the entry after and gives it, or to the end and gives nothing",
                        z3.If(p0 + 1 < v0.n, z3.And(p == p0 + 1, r == v0.select(p0 + 1)), z3.And(p == v0.n, r == sv(""))))
        e.prove("%s: the position stays valid" % name, valid(v.v, i.v))
    return unit


# ---------------------------------------------------------------- reading a line
# The specification reads the keys one by one: the state of the line, and the history as an abstract state.
H = z3.DeclareSort("History")
PREV, NEXT = z3.Function("PREV", H, H), z3.Function("NEXT", H, H)
PREVS, NEXTS = z3.Function("PREV_TEXT", H, z3.StringSort()), z3.Function("NEXT_TEXT", H, z3.StringSort())
ADD = z3.Function("ADD", H, z3.StringSort(), H)
IDLE, KEY, ESC, CSI, INS, DEL, PGUP, PGDN, ENDED, GIVEN = range(10)


class Machine:
    def __init__(self, e):
        self.e = e
        I = T("int")
        mk = lambda t, v, n: Cell(e, t, v, "ghost/" + n, name=n)
        h = e.fresh("history", H)
        self.mode = mk(T("ghost"), z3.IntVal(IDLE), "mode")
        self.line, self.cur = mk(S, sv(""), "line"), mk(T("ghost"), z3.IntVal(0), "cursor")
        self.out, self.keep = mk(S, sv(""), "out"), mk(T("bool"), z3.BoolVal(False), "keep")
        self.h, self.real = mk(T("ghost"), h, "history"), mk(T("ghost"), h, "real_history")
        self.ignoring = e.fresh("ignoring", z3.BoolSort())
        self.keys = []

    def char(self, k):
        return self.e.char_to_str(z3.If(k >= 128, k - 256, k))

    def key(self, k):
        m, ln, c, h = self.mode.v, self.line.v, self.cur.v, self.h.v
        If, And, Or = z3.If, z3.And, z3.Or
        sub = z3.SubString
        at = lambda *ks: Or(*[k == (ord(x) if isinstance(x, str) else x) for x in ks])
        n = L(ln)
        key, esc, csi = m == KEY, m == ESC, m == CSI
        tilde = k == ord("~")
        enter = And(key, at("\n", "\r", -1))
        back = And(key, at(8, 127))
        stop = And(key, at(3))
        text = And(key, z3.Not(Or(enter, back, stop, k == 27)))
        up = Or(And(csi, at("A")), And(m == PGUP, tilde))
        down = Or(And(csi, at("B")), And(m == PGDN, tilde))
        erase = And(m == DEL, tilde, c < n)
        mode = If(Or(enter, stop), ENDED, If(And(key, k == 27), ESC, If(esc, CSI, If(csi, If(at("2"), INS, If(
            at("3"), DEL, If(at("5"), PGUP, If(at("6"), PGDN, KEY)))), KEY))))
        line = If(text, z3.Concat(sub(ln, 0, c), self.char(k), sub(ln, c, n - c)),
                  If(And(back, c > 0), z3.Concat(sub(ln, 0, c - 1), sub(ln, c, n - c)),
                     If(erase, z3.Concat(sub(ln, 0, c), sub(ln, c + 1, n - c - 1)),
                        If(And(up, L(PREVS(h)) > 0), PREVS(h), If(down, NEXTS(h), ln)))))
        cur = If(text, c + 1, If(And(back, c > 0), c - 1,
              If(And(up, L(PREVS(h)) > 0), L(PREVS(h)), If(down, L(NEXTS(h)),
              If(And(csi, at("D"), c > 0), c - 1, If(And(csi, at("C"), c < n), c + 1,
              If(And(csi, at("H")), 0, If(And(csi, at("F")), n, c))))))))
        self.out.set(If(enter, ln, If(stop, sv(""), self.out.v)))
        self.keep.set(If(enter, n > 0, If(stop, False, self.keep.v)))
        self.h.set(If(up, PREV(h), If(down, NEXT(h), h)))
        self.mode.set(mode)
        self.line.set(line)
        self.cur.set(cur)

    def start(self, asked):
        self.mode.set(z3.If(asked, z3.IntVal(KEY), z3.IntVal(IDLE)))
        self.line.set(sv(""))
        self.cur.set(z3.IntVal(0))

    def over(self, what, node):
        """nothing of a line is left to do"""
        e = self.e
        e.prove("%s: every line read has been given" % what, z3.Or(self.mode.v == IDLE, self.mode.v == GIVEN), node)
        e.prove("%s: a line that is not empty nor ignored is in the history, once, and nothing else is" % what, z3.Implies(
            self.mode.v == GIVEN, self.real.v == z3.If(z3.And(self.keep.v, z3.Not(self.ignoring)), ADD(self.h.v, self.out.v), self.h.v)), node)
        e.assume(z3.Or(self.mode.v == IDLE, self.mode.v == GIVEN))
        self.h.set(self.real.v)
        self.mode.set(z3.IntVal(IDLE))


class Terminal:
    """the keys come from getchar; what goes to the terminal is not specified"""
    def __init__(self, e):
        self.e = e

    def havoc(self, c, base=None):
        if c.label == "ghost/mode" or c.label == "ghost/cursor":
            return self.e.fresh(c.name, z3.IntSort())
        if c.label in ("ghost/history", "ghost/real_history"):
            return self.e.fresh(c.name, H)

    def construct(self, t, inner, n):
        if t.noref().name == "winsize":
            o = Opaque(t.noref(), "size")
            o.cells = {}
            return o

    def member(self, base, o, n):
        if isinstance(o, Opaque) and o.t.name == "winsize":
            if n["name"] not in o.cells:
                x = self.e.fresh(n["name"], z3.IntSort())
                self.e.assume(z3.And(x >= 0, x < 65536))
                o.cells[n["name"]] = TempLV(x, typeof(n))
            return o.cells[n["name"]]

    def method(self, base, o, name, argn, n, bt):
        if isinstance(o, Opaque) and name in ("flush", "put", "write", "setf"):
            return base

    def call_free(self, name, args, n, argn):
        e = self.e
        m = e.path_state.get("machine")
        if m is not None and name in ("getchar", "getc", "fgetc", "getchar_unlocked"):
            e.prove("a key is read only while a line is being read", z3.And(m.mode.v >= KEY, m.mode.v <= PGDN), n)
            e.assume(z3.And(m.mode.v >= KEY, m.mode.v <= PGDN))
            k = e.fresh("key", z3.IntSort())
            e.assume(z3.And(k >= -1, k <= 255))
            m.keys.append(k)
            witness(e, **{"key%d" % len(m.keys): k})
            m.key(k)
            return k
        if name in ("tcgetattr", "tcsetattr"):
            return e.fresh(name, z3.IntSort())
        if name == "ioctl":
            for a in args[2:]:
                v = rvalue(a)
                o = v.target if isinstance(v, Ptr) else None
                o = o if isinstance(o, Opaque) else rvalue(o)
                if not isinstance(o, Opaque):
                    raise Unsupported("ioctl", n)
                o.cells.clear()
            return e.fresh("ioctl", z3.IntSort())


def common(e):
    e.lib.ext.append(Terminal(e))
    e.lib.ext.append(Threads(e))


def terminal_width(e, d, this, args, node):
    w = e.fresh("width", z3.IntSort())
    e.assume(z3.And(w >= 1, w < 65536))
    return w


def listener_setup(e):
    common(e)
    c = e.contracts

    def occurred(e, d, this, args, node):
        m = e.path_state["machine"]
        s = rvalue(args[0])
        e.prove("a line is given when it has been read, and once", m.mode.v == ENDED, node)
        e.assume(m.mode.v == ENDED)
        e.prove("the line that is given is the one the keys make", s == m.out.v, node)
        m.mode.set(z3.IntVal(GIVEN))
    c[W + "EventHandler::event_occurred_"] = Contract(occurred)

    def wait(e, d, this, args, node):
        m = e.path_state["machine"]
        m.over("before waiting to be asked for a line", node)
        r = e.fresh("reason", z3.IntSort())
        ok = e.prog.enum_value(W + "AwakeReason::condition_met")
        m.start(r == ok)
        return r
    c[W + "CounterWaitHandler::wait_and_decrement"] = Contract(wait)

    def hop(f, g=None):
        def apply(e, d, this, args, node):
            m = e.path_state["machine"]
            h = m.real.v
            if g is not None:
                m.real.set(f(h))
                return g(h)
            s = rvalue(args[0])
            e.assume(ADD(h, sv("")) == h)
            m.real.set(f(h, s))
        return Contract(apply)
    for nm, k in (("get_previous_command", hop(PREV, PREVS)), ("get_next_command", hop(NEXT, NEXTS)), ("add_command", hop(ADD))):
        c[U + "history::CommandHistoryHandler::" + nm] = k
    c[W + "StdinEventHandler::is_ignoring_input"] = Contract(lambda e, d, this, args, node: e.path_state["machine"].ignoring)
    c[W + "StdinEventHandler::set_terminal_mode_"] = Contract(lambda e, d, this, args, node: None)
    c[W + "get_terminal_width"] = Contract(terminal_width)

    def clear(e, d, this, args, node):
        return None
    c[W + "clear_lines"] = Contract(clear)

    def lines(e, d, this, args, node):
        e.prove("a terminal has columns", rvalue(args[2]) >= 1, node)
        return e.fresh("lines", z3.IntSort())
    c[W + "compute_lines_needed"] = Contract(lines)

    def update(e, d, this, args, node):
        f = rvalue(args[3])
        e.invoke(f, [args[1], args[2]], node)
    c[W + "update_line"] = Contract(update)

    def inv(ctx):
        m = e.path_state.get("machine")
        if m is None:
            return
        yield "between keys", m.mode.v == KEY
        yield "between lines", z3.Or(m.mode.v == IDLE, m.mode.v == KEY)
        kept = m.real.v == z3.If(z3.And(m.keep.v, z3.Not(m.ignoring)), ADD(m.h.v, m.out.v), m.h.v)
        yield "no line is left to give", z3.Or(m.mode.v == IDLE, m.mode.v == GIVEN)
        yield "a line that was given is in the history", z3.Implies(m.mode.v == GIVEN, kept)
        yield "the history is the one of the specification until a line is given", z3.Implies(m.mode.v != GIVEN, m.real.v == m.h.v)
        yield "a line that is asked for has just started", z3.Implies(m.mode.v == KEY, z3.And(m.line.v == sv(""), m.cur.v == 0))
        yield "the cursor of the specification is in the line", z3.And(m.cur.v >= 0, m.cur.v <= L(m.line.v))
        yield "the history is the one of the specification", m.real.v == m.h.v
        for s in ctx.strings(True):
            if not s.label.startswith("ghost/"):
                yield "%s is the line" % s.name, s.v == m.line.v
                for i in ctx.ints(True):
                    yield "%s is inside %s" % (i.name, s.name), z3.And(i.v >= 0, i.v <= L(s.v))
        for i in ctx.ints(True):
            yield "%s is the cursor" % i.name, i.v == m.cur.v
        for i in ctx.ints():
            if i.t.noref().name.startswith(U):
                yield "%s tells that a line is asked for" % i.name, (i.v == e.prog.enum_value(W + "AwakeReason::condition_met")) == (m.mode.v == KEY)
    e.invariants.append(inv)


def listener(e):
    o = e.sym_obj(e.prog.record(STDIN), "handler")
    m = e.path_state["machine"] = Machine(e)
    run(e, method(e, e.prog.record(STDIN), "stdin_listener_thread_routine_"), [], this=o)
    e.cover("ends")
    m.over("when the thread ends", None)


# ---------------------------------------------------------------- showing the line

def width(e):
    r = rvalue(run(e, fn(e, W + "get_terminal_width"), []))
    e.cover("width")
    e.prove("the terminal has some columns", z3.And(r >= 1, r < 65536))


def lines_needed(e):
    p, s = e.sym(S, "prompt"), e.sym(S, "line")
    w = e.fresh("width", z3.IntSort())
    e.assume(z3.And(w >= 1, w < 65536, L(p) < 2 ** 20, L(s) < 2 ** 30))
    r = rvalue(run(e, fn(e, W + "compute_lines_needed"), [arg(e, S, p), arg(e, S, s), arg(e, T("int"), w)]))
    e.cover("computed")
    e.prove("the lines are enough for the text, and not one more", z3.And(r * w >= L(p) + L(s), (r - 1) * w < L(p) + L(s)))


def update(e):
    p, s = e.sym(S, "prompt"), arg(e, S, e.sym(S, "line"), "line")
    c = arg(e, T("unsigned long"), e.fresh("cursor", z3.IntSort()), "cursor")
    e.assume(z3.And(L(p) < 2 ** 20, L(s.v) < 2 ** 30, c.v >= 0, c.v <= L(s.v)))
    f = FnV("opaque", name="modifier")
    calls = []

    def modify(g, args, n):
        a = [x.root() if isinstance(x, LV) else x for x in args]
        e.prove("the modifier gets the line and the cursor, as they were", z3.BoolVal(
            g.name == "modifier" and len(a) == 2 and a[0] is s and a[1] is c), n)
        e.prove("the modifier is called once", z3.BoolVal(not calls), n)
        calls.append((s.v, c.v))
        s.set(e.fresh("modified", z3.StringSort()))
        c.set(e.fresh("moved", z3.IntSort()))
        e.assume(z3.And(L(s.v) < 2 ** 30, c.v >= 0, c.v <= L(s.v)))
        calls.append((s.v, c.v))
    e.opaque_call = modify
    was = (s.v, c.v)
    g = fn(e, W + "update_line")
    run(e, g, [arg(e, S, p), s, c, arg(e, typeof(params_of(g)[3]), f, "modifier")])
    e.cover("updated")
    ok = len(calls) == 2
    e.prove("the line and the cursor are what the modifier makes of them",
            z3.And(calls[0][0] == was[0], calls[0][1] == was[1], s.v == calls[1][0], c.v == calls[1][1]) if ok else False)


def update_setup(e):
    common(e)
    e.contracts[W + "get_terminal_width"] = Contract(terminal_width)


# ---------------------------------------------------------------- when the callback is set

def life_setup(e):
    common(e)

    def note(name):
        def f(e, d, this, args, node):
            e.path_state.setdefault("calls", []).append((name, this, [rvalue(a) for a in args]))
        return Contract(f)
    for k in ("WaitHandler::enable", "WaitHandler::disable", "WaitHandler::blocking_disable", "CounterWaitHandler::enable",
              "CounterWaitHandler::disable", "CounterWaitHandler::operator++", "CounterWaitHandler::operator--", "EventHandler::set_callback",
              "EventHandler::unset_callback", "StdinEventHandler::stdin_listener_thread_routine_"):
        e.contracts[W + k] = note(k.split("::")[1])


def names(e):
    return [c[0] for c in e.path_state.get("calls", [])]


def thread_of(o):
    c = [c for c in o.byname.values() if isinstance(c.v, ThreadV)]
    if len(c) != 1:
        raise Unsupported("not one thread")
    return c[0]


def sm(e, name):
    return method(e, e.prog.record(STDIN), name, 0)


def handler(e):
    o = e.sym_obj(e.prog.record(STDIN), "handler")
    e.path_state["calls"] = []
    return o, thread_of(o)


def set_(e):
    o, t = handler(e)
    e.assume(z3.Not(t.v.joinable))
    run(e, sm(e, "callback_set_nts_"), [], this=o)
    e.cover("set")
    e.prove("reading is enabled before the thread starts, and there is a thread", z3.And(t.v.joinable, z3.BoolVal(names(e) == ["enable"])))
    if t.v.fn is None:
        raise Unsupported("what the thread runs is not known")
    del e.path_state["calls"][:]
    e.invoke(t.v.fn[0], t.v.fn[1], None)
    c = e.path_state["calls"]
    x = c[0][1] if len(c) == 1 else None
    x = x.target if isinstance(x, Ptr) else x
    e.prove("the thread reads for this handler", z3.BoolVal(names(e) == ["stdin_listener_thread_routine_"] and
                                                           (x if isinstance(x, Obj) else rvalue(x)) is o))


def unset_(e):
    o, t = handler(e)
    e.assume(t.v.joinable)
    run(e, sm(e, "callback_unset_nts_"), [], this=o)
    e.cover("unset")
    e.prove("the thread is told to stop, and has ended", z3.And(z3.Not(t.v.joinable), z3.BoolVal(names(e) == ["disable"])))


def unset_setup(e):
    life_setup(e)
    e.lib.ext[:] = [x for x in e.lib.ext if not isinstance(x, Threads)]
    e.lib.ext.append(Threads(e, joined=lambda t, n: e.prove(
        "the thread is joined once it has been told to stop", z3.BoolVal(names(e)[-1:] == ["disable"]), n)))


def one_more(e):
    o, t = handler(e)
    run(e, sm(e, "read_one_more_line"), [], this=o)
    e.cover("asked")
    e.prove("one more line is asked for", z3.BoolVal(names(e) == ["operator++"]))


def ignore(e):
    o, t = handler(e)
    b = e.fresh("ignore", z3.BoolSort())
    run(e, method(e, e.prog.record(STDIN), "set_ignore_input", 1), [arg(e, T("bool"), b)], this=o)
    r = rvalue(run(e, sm(e, "is_ignoring_input"), [], this=o))
    e.cover("asked")
    e.prove("input is ignored as it was last asked", r == b)


def made(e):
    e.path_state["calls"] = []
    n = e.fresh("lines", z3.IntSort())
    e.assume(z3.And(n >= 0, n < 2 ** 31))
    f = fn(e, W + "vp_stdin")
    cells = []
    e.contracts[W + "CounterWaitHandler::CounterWaitHandler"] = Contract(
        lambda e, d, this, args, node: cells.append([rvalue(a) for a in args]))
    o = rvalue(run(e, f, [arg(e, typeof(params_of(f)[0]), FnV("opaque", name="user"), "callback"), arg(e, T("int"), n)])).target
    o = o if isinstance(o, Obj) else rvalue(o)
    e.cover("made")
    c = e.path_state["calls"]
    e.prove("a new handler has the callback given", z3.BoolVal(names(e) == ["set_callback"] and c[0][2][0].name == "user"))
    ok = len(cells) == 1 and len(cells[0]) == 3
    e.prove("it waits to be asked for lines, and reads those asked for at the start", z3.And(
        cells[0][0] == 0, cells[0][1] == n, z3.Not(cells[0][2])) if ok else False)
    e.prove("no input is ignored", z3.Not(rvalue(run(e, sm(e, "is_ignoring_input"), [], this=o))))


def destroyed(e):
    o, t = handler(e)

    def unset(e, d, this, args, node):
        e.path_state["calls"].append(("unset_callback", this, []))
        t.set(ThreadV(z3.BoolVal(False), "thread"))      # (unset_callback calls the hook that joins it)
    e.contracts[W + "EventHandler::unset_callback"] = Contract(unset)
    e.destroy(o)
    e.cover("destroyed")
    e.prove("destruction: the callback is unset first", z3.BoolVal(names(e)[:1] == ["unset_callback"]))


UNITS = [Unit("CommandHistoryHandler", history_ctor, common)] + \
    [Unit("CommandHistoryHandler::" + n, history_op(n), common) for n in ("add_command", "get_previous_command", "get_next_command")] + \
    [Unit("get_terminal_width", width, common), Unit("compute_lines_needed", lines_needed, common), Unit("update_line", update, update_setup),
     Unit("callback_set_nts_", set_, life_setup), Unit("callback_unset_nts_", unset_, unset_setup),
     Unit("read_one_more_line", one_more, life_setup), Unit("set_ignore_input", ignore, life_setup),
     Unit("StdinEventHandler construction", made, life_setup), Unit("StdinEventHandler destruction", destroyed, life_setup)] + \
    [Unit("stdin_listener_thread_routine_", listener, listener_setup, budget=300)]
