"""C30: files: reading them, watching them."""
import json
from .common import *
from .waits import *
from .threads import Threads
from vc.frontend import REPO
from vc.stdlib import LAST_INDEX, NONE, ThreadV, SharedV, MutexV, CondVar

PROGS = {"read": '''#include <functional>
#include "%(r)s/cpp_utils/src/cpp/file/file_utils.cpp"
''' % {"r": REPO}, "watch": '''#include <bits/stdc++.h>
#include <errno.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
namespace eprosima {
#include "%(r)s/thirdparty/filewatch/FileWatch.hpp"
}
#include "%(r)s/cpp_utils/src/cpp/event/FileWatcherHandler.cpp"
#include "%(r)s/cpp_utils/src/cpp/exception/Exception.cpp"
#include "%(r)s/cpp_utils/src/cpp/Formatter.cpp"
namespace eprosima { namespace utils { namespace event {
FileWatcherHandler* vp_handler(std::function<void(std::string)> c, std::string f) { return new FileWatcherHandler(c, f); }
FileWatcherHandler* vp_bare(std::string f) { return new FileWatcherHandler(f); }
void vp_watch(const std::string& p, std::function<void(const std::string&, const FileWatchEvent)> c) { filewatch::FileWatch<std::string> w(p, c); }
} } }
''' % {"r": REPO}}
CLANG_FLAGS = ["-I%s/thirdparty/filewatch" % REPO, "-I%s/cpp_utils/src/cpp" % REPO]
DRIVER = {"src": "c30.cpp", "flags": ["-O1", "-g", "-fsanitize=address,undefined"] + CLANG_FLAGS,
          "repo": ["cpp_utils/src/cpp/" + x for x in ("file/file_utils.cpp", "utils.cpp", "exception/Exception.cpp", "Formatter.cpp",
                                                      "event/FileWatcherHandler.cpp", "wait/CounterWaitHandler.cpp", "time/time_utils.cpp")]}
ASSUMPTIONS = ["std::getline gives the lines of the file, one after the other, and fails after the last one or when reading fails (bad())",
               "strip_str takes every end of line and carriage return out by default (its contract is proved by the check of C03)",
               "inotify: read gives whole events one after another, each of at most one kind of change, with IN_IGNORED last once the watch is removed; "
               "a watch of a file is a watch of its directory; inotify_rm_watch makes the reading thread return",
               "std::regex_match is an uninterpreted relation between names and patterns; std::promise and std::future as one value handed over once",
               "EventHandler::{set_callback, unset_callback, event_occurred_} (C16)"]
I, B, SS = z3.IntSort(), z3.BoolSort(), z3.StringSort()
LINE = z3.Function("LINE", SS, I, SS)         # the lines of the file of this name
LINES = z3.Function("LINES", SS, I)
OPENS = z3.Function("OPENS", SS, B)
BROKEN = z3.Function("BROKEN", SS, B)         # reading it fails after its last line
STRIPPED = z3.Function("STRIPPED", SS, SS)    # strip_str with its default arguments (C03)


class FileV:
    """an input file: its name, how many lines were read, whether the last read failed"""
    def __init__(self, name, pos, failed, closed=z3.BoolVal(False)):
        self.name, self.pos, self.failed, self.closed = name, pos, failed, closed


class Files:
    def __init__(self, e):
        self.e = e

    def is_(self, t):
        t = t.noref()
        return not t.ptr and t.name in ("std::ifstream", "std::basic_ifstream")

    def construct(self, t, inner, n):
        if not self.is_(t):
            return None
        args = [rvalue(a) for a in self.e.args_of(inner)] if inner else []
        if not args or not isinstance(args[0], z3.SeqRef):
            raise Unsupported("an ifstream not made of a name", n)
        for a in args[1:]:
            if const_int(a) not in (None, 8, 12):
                raise Unsupported("mode of an ifstream", n)
        name = args[0]
        self.e.path_state.setdefault("opened", []).append(name)
        return FileV(name, z3.IntVal(0), z3.Not(OPENS(name)))

    def needs_dtor(self, v):
        return isinstance(v, FileV) or None

    def destroy(self, v):
        return isinstance(v, FileV) or None

    def havoc(self, c, base=None):
        if isinstance(c.v, FileV):
            return FileV(c.v.name, self.e.fresh("line", I), self.e.fresh("failed", B), c.v.closed)

    def truth(self, v):
        if isinstance(v, FileV):
            return z3.Not(v.failed)

    def method(self, base, o, name, argn, n, bt):
        if not isinstance(o, FileV):
            return None
        over = o.pos >= LINES(o.name)
        if name == "is_open":
            return OPENS(o.name)
        if name == "bad":
            return z3.And(OPENS(o.name), BROKEN(o.name), o.failed)
        if name == "fail" or name == "operator!":
            return o.failed
        if name == "operator bool":
            return z3.Not(o.failed)
        if name == "eof":
            return z3.And(OPENS(o.name), z3.Not(BROKEN(o.name)), o.failed)
        if name == "good":
            raise Unsupported("good() of a file", n)
        if name == "close":
            return z3.BoolVal(True)
        raise Unsupported("%s of a file" % name, n)

    def call_free(self, name, args, n, argn):
        if name != "getline" or len(args) != 2:
            return None
        e, f = self.e, args[0].get()
        if not isinstance(f, FileV):
            return None
        if e.branch(z3.And(z3.Not(f.failed), f.pos < LINES(f.name)), n):
            args[1].set(LINE(f.name, f.pos))
            args[0].set(FileV(f.name, f.pos + 1, z3.BoolVal(False)))
        else:
            args[1].set(e.fresh("rest", SS))
            args[0].set(FileV(f.name, f.pos, z3.BoolVal(True)))
        return args[0]


def shown(s, strip):
    return z3.If(strip, STRIPPED(s), s)


def literals(n):
    if n.get("kind") == "StringLiteral":
        yield json.loads(n["value"])
    for c in n.get("inner", []):
        yield from literals(c)


def defaults(e, name):
    """the texts in the default arguments of this function of the library"""
    for d in e.prog.decls.values():
        if d.get("kind") == "FunctionDecl" and d.get("name") == name:
            r = [sorted(literals(p)) for p in params_of(d) if p.get("init")]
            if r:
                return r


def flags(e, name):
    """the default arguments of this function of the library, where they are true or false"""
    def value(n):
        if n.get("kind") == "CXXBoolLiteralExpr":
            return n["value"] in (True, "true")
        for c in n.get("inner", []):
            v = value(c)
            if v is not None:
                return v
    for d in e.prog.decls.values():
        if d.get("kind") == "FunctionDecl" and d.get("name") == name and any(p.get("init") for p in params_of(d)):
            return [value(p) for p in params_of(d)]
    raise Unsupported("default arguments of " + name)


def rsetup(e):
    e.lib.ext.append(Files(e))

    def strip(e, d, this, args, node):
        s = rvalue(args[0])
        r = e.fresh("stripped", SS)
        rest = args[1:]
        want = [[""], ["\n", "\r"]]
        given = defaults(e, "strip_str")
        if not rest and given != want:
            e.prove("by default, the ends of line are taken out", z3.BoolVal(False), node)
        elif rest:
            raise Unsupported("strip_str of chosen strings", node)
        e.assume(r == STRIPPED(s))
        args[0].set(r)
        return e.fresh("replaced", I)
    e.contracts[U + "strip_str"] = Contract(strip)

    def inv(ctx):
        f = e.path_state.get("inv")
        if f:
            yield from f(ctx)
    e.invariants.append(inv)


CNT = z3.Function("KEPT_BEFORE", I, I)


def strings(e):
    name = e.fresh("name", SS)
    strip, drop = e.fresh("strip_chars", B), e.fresh("strip_empty_lines", B)
    n = LINES(name)
    e.assume(z3.And(n >= 0, n < 2**62, CNT(0) == 0))
    val = lambda i: shown(LINE(name, i), strip)
    keep = lambda i: z3.Not(z3.And(drop, val(i) == sv("")))
    i = z3.Int("i!")
    e.assume(z3.ForAll([i], z3.Implies(i >= 0, CNT(i + 1) == CNT(i) + z3.If(keep(i), 1, 0)), patterns=[LINE(name, i)]))
    e.assume(z3.Implies(z3.Not(OPENS(name)), n == 0))

    def upto(p, v):
        return z3.And(v.n == CNT(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p, keep(i)), z3.And(
            CNT(i) >= 0, CNT(i) < v.n, v.select(CNT(i)) == val(i))), patterns=[LINE(name, i)]))

    def inv(ctx):
        for f in ctx.cells(lambda c: isinstance(c.v, FileV)):
            yield "line of the file", z3.And(f.v.pos >= 0, f.v.pos <= n, CNT(f.v.pos) >= 0, CNT(f.v.pos) <= f.v.pos)
            yield "the file did not end", z3.Not(f.v.failed)
            for v in ctx.cells(lambda c: isinstance(c.v, Vec) and c.v.items is None):
                yield "%s has those that were read" % v.label, upto(f.v.pos, v.v)
    e.path_state["inv"] = inv
    e.hooks["cut"] = lambda n: True
    try:
        r = rvalue(run(e, fn(e, "file_to_strings"), [arg(e, parse_type("const char *"), name, "name"), arg(e, T("bool"), strip, "strip_chars"),
                                                     arg(e, T("bool"), drop, "strip_empty_lines")], throws=True))
    except CppThrow as x:
        e.cover("refused")
        e.prove("only a file that cannot be read is refused, with PreconditionNotMet", z3.And(
            z3.Or(z3.Not(OPENS(name)), BROKEN(name)), z3.BoolVal(x.t.noref().name.endswith("PreconditionNotMet"))))
        return
    e.cover("read")
    e.prove("a file that cannot be read is refused", z3.And(OPENS(name), z3.Not(BROKEN(name))))
    e.prove("that file is read", z3.And(*[z3.BoolVal(len(e.path_state.get("opened", [])) == 1)] + [o == name for o in e.path_state.get("opened", [])]))
    if r.items is not None:
        raise Unsupported("result of a known size")
    e.prove("every line is there, in order, as it was asked for", upto(n, r))


def string(e):
    name = e.fresh("name", SS)
    strip = e.fresh("strip_chars", B)
    n = LINES(name)
    TEXT = z3.Function("TEXT", I, SS)
    i = z3.Int("i!")
    arr = e.fresh("lines", z3.ArraySort(I, SS))
    e.assume(z3.And(n >= 0, n < 2**61, TEXT(0) == sv("")))
    e.assume(z3.ForAll([i], z3.Implies(i >= 0, TEXT(i + 1) == z3.Concat(TEXT(i), arr[i], sv("\n"))), patterns=[arr[i]]))

    def read(e, d, this, args, node):
        a = [rvalue(x) for x in args]
        a += [z3.BoolVal(x) for x in flags(e, "file_to_strings")[len(a):]]
        e.prove("the file is read as it was asked, with its empty lines", z3.And(a[0] == name, a[1] == strip, z3.Not(a[2])), node)
        if e.branch(z3.Not(z3.And(OPENS(name), z3.Not(BROKEN(name)))), node):
            e.cover("refused")
            raise PathEnd()
        return Vec(n, arr, S)
    e.contracts[U + "file_to_strings"] = Contract(read)

    def inv(ctx):
        for it in ctx.iters(True):
            k = it.v.pos
            if k is None:
                continue
            yield it.label + " in range", z3.And(k >= 0, k <= n)
            for s in ctx.strings(True):
                yield "%s %s" % (it.label, s.label), s.v == TEXT(k)
        for k in ctx.ints(True):
            yield k.label + " in range", z3.And(k.v >= 0, k.v <= n)
            for s in ctx.strings(True):
                yield "%s %s" % (k.label, s.label), s.v == TEXT(k.v)
    e.path_state["inv"] = inv
    e.hooks["cut"] = lambda n: True
    r = rvalue(run(e, fn(e, "file_to_string"), [arg(e, parse_type("const char *"), name, "name"), arg(e, T("bool"), strip, "strip_chars")]))
    e.cover("read")
    e.prove("the lines, each with its end of line", r == TEXT(n))


# ---------------------------------------------------------------- FileWatcherHandler

W = U + "event::"
HND = T(W + "FileWatcherHandler")
WATCHER = W + "FileWatcher"
EVENTS = ("added", "removed", "modified", "renamed_old", "renamed_new")


class Hnd:
    """the fields of a handler: the file, the watcher, whether it has started"""
    def __init__(self, e, o=None):
        o = self.o = o or e.sym_obj(e.prog.record(HND), "handler")
        own = {c["id"] for c in e.prog.record(HND)["inner"] if c.get("kind") == "FieldDecl"}
        cs = [c for k, c in o.fields.items() if k in own]
        p = [c for c in cs if isinstance(c.v, z3.SeqRef)]
        w = [c for c in cs if c.t.noref().name == "std::unique_ptr"]
        f = [c for c in cs if c not in p + w and isinstance(c.v, z3.BoolRef)]
        if not (len(p) == len(w) == len(f) == 1):
            raise Unsupported("the fields of the handler are not the expected ones")
        self.path, self.watcher, self.started = p[0], w[0], f[0]
        self.made, self.events, self.calls, self.failed = [], [], [], False
        e.path_state["mon"] = None
        if not isinstance(w[0].v, SharedV):
            w[0].set(SharedV("unique", None, z3.BoolVal(True)))
        e.path_state["hnd"] = self

    def idle(self):
        return z3.And(z3.Not(self.started.v), self.watcher.v.null)


class Watcher:
    """the watcher that the handler makes: of which file, with which callback"""
    def __init__(self, path, callback):
        self.path, self.callback, self.alive = path, callback, True


def hsetup(e):
    hooks(e)

    def make(kind, t, args, argn, n):
        if t.noref().name != WATCHER:
            return None
        h = e.path_state["hnd"]
        if e.branch(e.fresh("cannot_watch", B), n):
            h.failed = True
            e.lib.throw_std("system_error")
        w = Watcher(rvalue(args[0]), rvalue(args[1]))
        h.made.append(w)
        return SharedV(kind, Cell(e, t, w, "watcher"), z3.BoolVal(False))
    e.hooks["make_smart"] = make

    class Ext:
        def __init__(self, e):
            self.e = e

        def method(self, base, o, name, argn, n, bt):
            if name == "what" and isinstance(o, Opaque):
                return e.fresh("what", SS)

        def watcher(self, v):
            return v.target.v if isinstance(v, SharedV) and isinstance(v.target, Cell) and isinstance(v.target.v, Watcher) else None

        def needs_dtor(self, v):
            return self.watcher(v) is not None or None

        def destroy(self, v):
            w = self.watcher(v)
            if w is not None:
                e.prove("a watcher is ended once", z3.BoolVal(w.alive))
                w.alive = False
                return True

        def assigned(self, c, v):
            w = self.watcher(rvalue(c))
            if w is not None and w is not self.watcher(v):
                self.destroy(rvalue(c))
    e.lib.ext.append(Ext(e))

    def note(name):
        def f(e, d, this, args, node):
            getattr(e.path_state["hnd"], "events" if name == "event_occurred_" else "calls").append((name, [rvalue(a) for a in args]))
            return None
        return Contract(f)
    for n in ("set_callback", "unset_callback", "event_occurred_"):
        e.contracts[W + "EventHandler::" + n] = note(n)


def hm(e, name):
    return method(e, e.prog.record(HND), name, 0)


def started(name):
    def unit(e):
        h = Hnd(e)
        e.assume(h.idle())
        path = h.path.v
        run(e, hm(e, name), [], this=h.o)
        e.cover("failed" if h.failed else "started")
        e.prove("the file stays", h.path.v == path)
        e.prove("no event occurs and no callback is changed", z3.BoolVal(not h.events and not h.calls))
        if h.failed:
            e.prove("what cannot be watched is not watched", z3.And(h.watcher.v.null, z3.BoolVal(not h.made)))
            return
        e.prove("it has one watcher, of its file", z3.And(z3.BoolVal(len(h.made) == 1), h.made[0].path == path) if h.made else False)
        e.prove("it keeps it and says that it has started", z3.And(h.started.v, z3.Not(h.watcher.v.null)))
        e.prove("the watcher lives", z3.BoolVal(bool(h.made) and h.made[0].alive))
        if not h.made:
            return
        k = e.fresh("kind", I)
        s = e.fresh("changed", SS)
        e.assume(z3.And(k >= 0, k < len(EVENTS)))
        for i in range(len(EVENTS)):
            if e.branch(k == i, None):
                break
        e.invoke(h.made[0].callback, [arg(e, S, s, "path"), arg(e, T("eprosima::filewatch::Event"), z3.IntVal(i), "change")], None)
        if EVENTS[i] == "modified":
            e.cover("modified")
            e.prove("a modification is one event, with the name of the file", z3.And(z3.BoolVal(len(h.events) == 1), h.events[0][1][0] == s) if h.events else False)
        else:
            e.prove("nothing else is an event", z3.BoolVal(not h.events))
    return unit


def with_watcher(e, h):
    w = Watcher(h.path.v, None)
    h.watcher.set(SharedV("unique", Cell(e, T(WATCHER), w, "watcher"), z3.BoolVal(False)))
    return w


def stopped(name, failed):
    def unit(e):
        h = Hnd(e)
        if failed:
            e.assume(h.watcher.v.null)
        else:
            w = with_watcher(e, h)
            e.assume(h.started.v)
        path = h.path.v
        run(e, hm(e, name), [], this=h.o)
        e.cover("stopped")
        if not failed:
            e.prove("its watcher has ended", z3.BoolVal(not w.alive))
        e.prove("it has no watcher, and can start again", h.idle())
        e.prove("the file stays", h.path.v == path)
        e.prove("no watcher is made, no event occurs and no callback is changed", z3.BoolVal(not h.made and not h.events and not h.calls))
    return unit


def hmake(name):
    def unit(e):
        path = e.fresh("path", SS)
        f = fn(e, W + name)
        rec = Hnd(e)
        a = [arg(e, S, path, "file")]
        if name == "vp_handler":
            a.insert(0, arg(e, typeof(params_of(f)[0]), FnV("opaque", name="user"), "callback"))
        o = rvalue(run(e, f, a)).target
        o = o if isinstance(o, Obj) else rvalue(o)
        e.cover("made")
        calls, made = rec.calls, rec.made
        h = Hnd(e, o)
        e.prove("it is of the file given, and watches nothing yet", z3.And(h.path.v == path, h.idle(), z3.BoolVal(not made)))
        e.prove("the callback is set, if any is given", z3.BoolVal(
            [c[0] for c in calls] == ([] if name == "vp_bare" else ["set_callback"]) and all(c[1][0].name == "user" for c in calls)))
    return unit


def hdestroy(e):
    h = Hnd(e)
    w = with_watcher(e, h)

    def unset(e, d, this, args, node):
        h.calls.append(("unset_callback", []))
        e.prove("the callback is unset before anything is destroyed", z3.BoolVal(w.alive), node)
        w.alive = False
        h.watcher.set(SharedV("unique", None, z3.BoolVal(True)))        # (unset_callback calls the hook that ends it)
        return None
    e.contracts[W + "EventHandler::unset_callback"] = Contract(unset)
    e.destroy(h.o)
    e.cover("destroyed")
    e.prove("destruction: the callback is unset", z3.BoolVal([c[0] for c in h.calls] == ["unset_callback"]))


# ---------------------------------------------------------------- FileWatch

FW = parse_type("eprosima::filewatch::FileWatch<std::string>")
INFO = parse_type("std::pair<std::basic_string<char>, eprosima::filewatch::Event>")
ISFILE = z3.Function("IS_FILE", SS, B)
EXISTS = z3.Function("EXISTS", SS, B)
MATCHES = z3.Function("MATCHES", SS, B)


class Watch(Waits):
    """callback mutex M: what is to be told, whether it is being destroyed (read without it by the loops)"""
    frames = False

    def __init__(self, e, o=None):
        self.e = e
        o = self.o = o or e.sym_obj(e.prog.record(FW), "watch")
        cs = list(o.byname.values())
        one = lambda what, p: [c for c in cs if p(c)]
        typ = lambda *n: [c for c in cs if c.t.noref().name in n]
        mx, cv, th = [c for c in cs if isinstance(c.v, MutexV)], [c for c in cs if isinstance(c.v, CondVar)], [c for c in cs if isinstance(c.v, ThreadV)]
        end, info, cb = typ("std::atomic"), typ("std::vector"), typ("std::function")
        if not (len(mx) == len(cv) == len(end) == len(info) == len(cb) == 1 and len(th) == 2):
            raise Unsupported("the fields of the watch are not the expected ones")
        self.end_, self.info, self.cb, self.th = end[0], info[0], cb[0], th
        self.M = Lock([self.info, self.end_])
        self.cvl = cv[0].v.label
        super().__init__(e, {mx[0].v.label: self.M}, [], rely=self.others)
        self.conds = [Cond("something to tell, or destroyed", (self.M, self.cvl), lambda s: z3.Or(s[self.info.label].n > 0, s[self.end_.label]))]
        self.given = Cell(e, T("std::size_t"), z3.IntVal(0), "ghost/given", name="given")
        self.batch = None
        self.log, self.joins = [], 0

    def others(self, old):
        """only the destruction writes the flag, once"""
        self.e.assume(z3.And(z3.Implies(old[self.end_.label], self.end_.v), self.info.v.n >= 0, self.info.v.n < 2 ** 40))

    def end(self, l, n):
        s = l.cur
        super().end(l, n)
        self.section(s, n)

    def section(self, s, n):
        pass

    def owe(self, cv, need, when, how):
        super().owe(cv, "one", when, how)       # (only the callback thread waits)

    def atomic(self, base, o, name, argn, n, et):
        c = base.root() if isinstance(base, LV) else base
        if c is not self.end_:
            return None
        if name == "load" or name.startswith("operator ") or name in ("operator bool",):
            self.quiet = True
            if not self.M.held():
                old = c.v
                c.set(self.e.lib.havoc(c))
                self.e.assume(z3.Implies(old, c.v))
            v = base.get()
            self.quiet = False
            return v
        self.e.prove("%s is written only while the mutex is held" % c.name, z3.BoolVal(bool(self.M.ex)), n, "lock")
        if not self.M.ex:
            raise PathEnd()

    def read(self, c):
        if c is not self.end_:
            super().read(c)

    def write(self, c):
        if c is not self.end_:
            super().write(c)


class Term:
    """pairs, promises, regular expressions and the calls of the system"""
    def __init__(self, e):
        self.e = e
        self.ps = e.sort_of(INFO)
        self.first, self.second = z3.Function("FIRST", self.ps, SS), z3.Function("SECOND", self.ps, I)

    def opaque(self, t):
        return not t.ptr and t.name in ("std::promise", "std::future", "std::basic_regex", "std::regex", "std::exception_ptr", "std::error_category")

    def sym(self, t, name):
        if self.opaque(t):
            return Opaque(t, name)

    def default(self, t, name):
        if self.opaque(t):
            return Opaque(t, name)

    def construct(self, t, inner, n):
        if self.opaque(t):
            return Opaque(t, "made")

    def box(self, x, t):
        if isinstance(x, PairV):
            p = self.e.fresh("pair", self.ps)
            self.e.assume(z3.And(self.first(p) == rvalue(x.a), self.second(p) == rvalue(x.b)))
            return p

    def emplace(self, t, args, n):
        if t.name == "std::pair" and len(args) == 2:
            return self.box(PairV(*args), t)

    def member(self, base, o, n):
        if isinstance(o, z3.ExprRef) and o.sort() == self.ps and n.get("name") in ("first", "second"):
            first = n["name"] == "first"
            return TempLV((self.first if first else self.second)(o), S if first else T("eprosima::filewatch::Event"))

    def method(self, base, o, name, argn, n, bt):
        if isinstance(o, Opaque) and o.t.noref().name.startswith("std::"):
            if name == "what":
                return self.e.fresh("what", SS)
            if name in ("set_value", "set_exception", "get", "operator=", "wait"):
                return NONE
            if name == "get_future":
                return Opaque(T("std::future"), "future")

    def call_free(self, name, args, n, argn):
        e, a = self.e, [rvalue(x) for x in args]
        m = e.path_state.get("mon")
        if name in ("current_exception", "system_category", "generic_category"):
            return Opaque(T("std::error_category"), name)
        if name == "__errno_location":
            return Ptr(Cell(e, T("int"), e.fresh("errno", I), "errno"))
        if name == "regex_match":
            return MATCHES(a[0])
        log = e.path_state.setdefault("system", [])
        if name == "inotify_init":
            r = e.fresh("folder", I)
            e.assume(z3.And(r >= -1, r < 2**31))
            log.append((name, r))
            return r
        if name == "inotify_add_watch":
            r = e.fresh("watch", I)
            e.assume(z3.And(r >= -1, r < 2**31))
            log.append((name, a[0], a[1], a[2], r))
            return r
        if name in ("inotify_rm_watch", "close"):
            log.append((name, *a))
            return z3.IntVal(0)
        return None


def wsetup(e):
    hooks(e)
    e.lib.ext.append(Term(e))
    e.lib.ext.append(Reversed(e))

    def joined(t, n):
        m = e.path_state["mon"]
        m.joins += 1
        log = e.path_state.get("system", [])
        e.prove("a thread is joined only once it has been told to end, and woken", z3.And(m.end_.v, *[z3.Not(f) for f in m.owed.values()]), n)
        e.prove("a thread is joined only once nothing is watched", z3.BoolVal("inotify_rm_watch" in [x[0] for x in log]), n)
        e.prove("the files stay open until the threads have ended", z3.BoolVal("close" not in [x[0] for x in log]), n)
        e.prove("no lock is held while joining", z3.BoolVal(not m.M.held()), n)
    e.lib.ext.append(Threads(e, joined=joined))

    def inv(ctx):
        f = e.path_state.get("inv")
        if f:
            yield from f(ctx)
    e.invariants.append(inv)
    e.hooks["cut"] = lambda n: True


def wm(e, name):
    return method(e, e.prog.record(FW), name)


def told(e):
    m = Watch(e)
    m.cb.set(FnV("opaque", name="user"))
    t = [x for x in e.lib.ext if isinstance(x, Term)][0]

    def section(s, n):
        b = s.pre[m.info.label]
        e.prove("what was taken before has been told", z3.BoolVal(m.batch is None) if m.batch is None else m.given.v == z3.If(m.cb.v.null, 0, m.batch.n), n)
        e.prove("all that is to be told is taken", s.post[m.info.label].n == 0, n)
        e.prove("the flag is not changed", s.post[m.end_.label] == s.pre[m.end_.label], n)
        if z3.is_true(z3.simplify(s.post[m.info.label].n == 0)):
            e.cover("taken")
            m.batch = b
            m.given.set(z3.IntVal(0))
    m.section = section
    m.may_block = lambda s: z3.And(s[m.info.label].n == 0, z3.Not(s[m.end_.label]))

    def call(f, args, n):
        e.cover("told")
        e.prove("no lock is held while telling", z3.BoolVal(not m.M.held()), n)
        b = m.batch
        if b is None:
            e.prove("only what was taken is told", z3.BoolVal(False), n)
            raise PathEnd()
        p = b.select(m.given.v)
        e.prove("what is told is the next of those taken, in order", z3.And(m.given.v < b.n, rvalue(args[0]) == t.first(p), rvalue(args[1]) == t.second(p)), n)
        m.given.set(m.given.v + 1)
        if e.branch(e.fresh("throws", B), n):
            e.cover("throws")
            e.lib.throw_std("runtime_error")
        return None
    e.opaque_call = call

    def inv(ctx):
        b = m.batch
        if m.M.held() and m.M.cur is not None:
            a, c = m.M.cur.pre[m.info.label], m.info.v
            if a.items is None and c.items is None:
                yield "nothing was taken since the lock was", z3.And(a.n == c.n, a.arr == c.arr)
                yield "the flag was not changed since the lock was taken", m.M.cur.pre[m.end_.label] == m.end_.v
        if b is None:
            yield "all told", m.given.v == 0
            return
        its = [it for it in ctx.iters(True) if it.v.pos is not None]
        for it in its:
            yield "those before the current one were told", z3.And(it.v.pos >= 0, it.v.pos <= b.n, m.given.v == z3.If(m.cb.v.null, 0, it.v.pos))
        for q in ctx.ints(True):
            if not its and not q.label.startswith("ghost/"):
                yield "those before the current one were told", z3.And(q.v >= 0, q.v <= b.n, m.given.v == z3.If(m.cb.v.null, 0, q.v))
        if not its:
            yield "all told", m.given.v == z3.If(m.cb.v.null, 0, b.n)
    e.path_state["inv"] = inv
    run(e, wm(e, "callback_thread"), [], this=m.o)
    e.cover("ends")
    m.closed()
    e.prove("it ends only once it was told to", m.end_.v)
    e.prove("all that was taken has been told", z3.BoolVal(True) if m.batch is None else m.given.v == z3.If(m.cb.v.null, 0, m.batch.n))


def ended(name):
    def unit(e):
        m = Watch(e)
        e.assume(z3.And(m.th[0].v.joinable, m.th[1].v.joinable, z3.Not(m.end_.v)))
        d = [c for c in m.o.byname.values() if isinstance(c.v, Obj)]
        if len(d) != 1:
            raise Unsupported("what is watched")
        f = {c.name: c.v for c in d[0].v.byname.values()}
        if name:
            run(e, wm(e, name), [], this=m.o)
        else:
            e.destroy(m.o)
        e.cover("ended")
        m.closed()
        log = e.path_state.get("system", [])
        e.prove("both threads have ended", z3.And(z3.BoolVal(m.joins == 2), z3.Not(m.th[0].v.joinable), z3.Not(m.th[1].v.joinable)))
        rm = [x for x in log if x[0] == "inotify_rm_watch"]
        cl = [x for x in log if x[0] == "close"]
        e.prove("its folder is not watched any more", z3.And(rm[0][1] == f["folder"], rm[0][2] == f["watch"]) if len(rm) == 1 else False)
        e.prove("its file is closed", cl[0][1] == f["folder"] if len(cl) == 1 else False)
    return unit


def single(m):
    c = [c for c in m.o.byname.values() if isinstance(c.v, z3.BoolRef) and c is not m.end_]
    if len(c) != 1:
        raise Unsupported("whether a single file is watched")
    return c[0]


def filename(m):
    c = [c for c in m.o.byname.values() if isinstance(c.v, z3.SeqRef) and not c.t.const and not (c.name or "").endswith("_path")]
    if len(c) != 1:
        raise Unsupported("the name of the single file")
    return c[0]


def pivot(s):
    """where the name of the file starts"""
    return LAST_INDEX(s, sv("/")) + 1


def dirpart(s):
    return z3.If(pivot(s) > 0, z3.SubString(s, 0, pivot(s)), sv("./"))


def namepart(s):
    return z3.SubString(s, pivot(s), z3.Length(s) - pivot(s))


def parts(o):
    f = {c.name: rvalue(c) for c in o.byname.values()}
    return f["directory"], f["filename"]


class Rev:
    """a reverse iterator, by its base"""
    def __init__(self, cont, pos):
        self.cont, self.pos = cont, pos


class Reversed:
    def __init__(self, e):
        self.e = e

    def method(self, base, o, name, argn, n, bt):
        if isinstance(o, z3.SeqRef) and name in ("rbegin", "crbegin"):
            return Rev(base, z3.Length(o))
        if isinstance(o, z3.SeqRef) and name in ("rend", "crend"):
            return Rev(base, z3.IntVal(0))
        if isinstance(o, Rev) and name == "base":
            return IterV(o.cont, o.pos)

    def copy(self, v, move=False):
        if isinstance(v, Rev):
            return v

    def call_free(self, name, args, n, argn):
        if name == "find_if" and len(args) == 3 and isinstance(rvalue(args[0]), Rev):
            e, a, b = self.e, rvalue(args[0]), rvalue(args[1])
            s = rvalue(a.cont)
            x = e.fresh("character", I)
            e.assume(z3.And(x >= -128, x < 128))
            f = e.truth(rvalue(e.invoke(rvalue(args[2]), [arg(e, T("char"), x, "character")], n)))
            if not e.holds(z3.And(a.pos == z3.Length(s), b.pos == 0)) or not e.holds(f == (x == 47)):
                raise Unsupported("search for other characters", n)
            e.lib.last_index(s, sv("/"))
            return Rev(a.cont, pivot(s))


def split(e):
    m = Watch(e)
    s = e.fresh("path", SS)
    r = rvalue(run(e, wm(e, "split_directory_and_file"), [arg(e, S, s, "path")], this=m.o))
    e.cover("split")
    d, f = parts(r)
    e.prove("the directory is all up to the last /, or ./ if there is none", d == dirpart(s))
    e.prove("the file is what follows it", f == namepart(s))


def split_contract(e):
    rec = [k for k in e.prog.records if k.endswith("::PathParts")]

    def apply(e, d, this, args, node):
        s = rvalue(args[0])
        o = e.new_obj(e.prog.records[rec[0]], "parts")
        for c in o.byname.values():
            c.set(dirpart(s) if c.name == "directory" else namepart(s))
        return o
    e.contracts["eprosima::filewatch::FileWatch::split_directory_and_file"] = Contract(apply)


def filtered(e):
    split_contract(e)
    m = Watch(e)
    s = e.fresh("changed", SS)
    one, name = single(m).v, filename(m).v
    r = rvalue(run(e, wm(e, "pass_filter"), [arg(e, S, s, "file")], this=m.o))
    e.cover("filtered")
    e.prove("of a single file its changes, and of a folder those of the files that match", r == z3.If(one, namepart(s) == name, MATCHES(s)))


def folder(e):
    split_contract(e)

    def isfile(e, d, this, args, node):
        s = rvalue(args[0])
        if e.branch(z3.Not(EXISTS(s)), node):
            e.lib.throw_std("system_error")
        return ISFILE(s)
    e.contracts["eprosima::filewatch::FileWatch::is_file"] = Contract(isfile)
    m = Watch(e)
    s = e.fresh("path", SS)
    old = filename(m).v
    log = e.path_state.setdefault("system", [])
    failed = False
    try:
        r = rvalue(run(e, wm(e, "get_directory"), [arg(e, S, s, "path")], this=m.o, throws=True))
    except CppThrow as x:
        failed = True
        e.cover("refused")
        e.prove("it is refused with system_error", z3.BoolVal(x.t.noref().name == "std::system_error"))
    opened = [x[1] for x in log if x[0] == "inotify_init"]
    closed = [x[1] for x in log if x[0] == "close"]
    added = [x for x in log if x[0] == "inotify_add_watch"]
    bad = z3.Or(z3.Not(EXISTS(s)), *[x < 0 for x in opened], *[x[-1] < 0 for x in added])
    if failed:
        e.prove("only what cannot be watched is refused", bad)
        for x in opened:
            e.prove("what was opened is closed", z3.Or(x < 0, *[x == y for y in closed]))
        return
    e.cover("watched")
    e.prove("what cannot be watched is refused", z3.Not(bad))
    if len(opened) != 1 or len(added) != 1:
        e.prove("one folder is watched", z3.BoolVal(False))
        return
    f = {c.name: rvalue(c) for c in r.byname.values()}
    _, fd, path, mask, w = added[0]
    e.prove("the folder is open and watched", z3.And(f["folder"] == opened[0], f["watch"] == w, fd == opened[0], z3.BoolVal(not closed)))
    e.prove("it is the folder itself, or that of the file", path == e.lib.c_string(z3.If(ISFILE(s), dirpart(s), s)))
    e.prove("for changes, new files and removed files", mask == 0x2 | 0x100 | 0x200)
    e.prove("whether it is a single file, and which", z3.And(single(m).v == ISFILE(s), z3.Implies(ISFILE(s), filename(m).v == namepart(s))))


def begun(e):
    m = Watch(e)
    e.assume(z3.And(z3.Not(m.th[0].v.joinable), z3.Not(m.th[1].v.joinable)))
    run(e, wm(e, "init"), [], this=m.o)
    e.cover("begun")
    m.closed()
    ran = []
    for k in ("callback_thread", "monitor_directory"):
        e.contracts["eprosima::filewatch::FileWatch::" + k] = Contract(lambda e, d, this, args, node, k=k: ran.append((k, this)) or None)
    for t in m.th:
        e.prove("both threads run", t.v.joinable)
        if t.v.fn is None:
            raise Unsupported("what a thread runs is not known")
        e.invoke(t.v.fn[0], t.v.fn[1], None)
    own = lambda x: (x.target if isinstance(x, Ptr) else x)
    e.prove("one reads the changes, the other one tells them", z3.BoolVal(sorted(k for k, _ in ran) == ["callback_thread", "monitor_directory"]
                                                                           and all((own(x) if isinstance(own(x), Obj) else rvalue(own(x))) is m.o for _, x in ran)))


def wmade(e):
    s = e.fresh("path", SS)
    state = {"n": 0}
    name, fd, w = e.fresh("filename", SS), e.fresh("folder", I), e.fresh("watch", I)

    def get(e, d, this, args, node):
        e.prove("the folder of the path given is watched", rvalue(args[0]) == s, node)
        o = this if isinstance(this, Obj) else this.target
        o = o if isinstance(o, Obj) else rvalue(o)
        c = {c.name: c for c in o.byname.values()}
        state["one"] = [x for x in c.values() if x.t.noref().name == "bool" and not x.t.noref().name.startswith("std::atomic")][0]
        state["name"] = [x for x in c.values() if x.t.noref().name == "std::string" and not x.name.endswith("_path")][0]
        state["one"].set(ISFILE(s))
        state["name"].set(name)
        r = e.new_obj(e.prog.records[[k for k in e.prog.records if k.endswith("::FolderInfo")][0]], "folder")
        for x in r.byname.values():
            x.set(fd if x.name == "folder" else w)
        return r
    e.contracts["eprosima::filewatch::FileWatch::get_directory"] = Contract(get)

    def init(e, d, this, args, node):
        o = this if isinstance(this, Obj) else this.target
        o = o if isinstance(o, Obj) else rvalue(o)
        state["n"] += 1
        if "one" not in state:
            e.prove("the threads start once the folder is watched", z3.BoolVal(False), node)
            raise PathEnd()
        m = Watch(e, o)
        e.prove("before its threads start, nothing is to be told and it is not destroyed", z3.And(m.info.v.n == 0, z3.Not(m.end_.v)), node)
        e.prove("the callback is the one given", z3.BoolVal(isinstance(m.cb.v, FnV) and m.cb.v.name == "user"), node)
        d = [c for c in o.byname.values() if isinstance(c.v, Obj)]
        f = {c.name: c.v for c in d[0].v.byname.values()}
        e.prove("the folder is that watched", z3.And(f["folder"] == fd, f["watch"] == w), node)
        e.prove("whether a single file is watched, and which, stays", z3.And(state["one"].v == ISFILE(s), state["name"].v == name), node)
        e.cover("made")
        raise PathEnd()
    e.contracts["eprosima::filewatch::FileWatch::init"] = Contract(init)
    e.path_state["mon"] = None
    run(e, fn(e, U + "event::vp_watch"), [arg(e, S, s, "path"), arg(e, typeof(params_of(fn(e, U + "event::vp_watch"))[1]), FnV("opaque", name="user", null=z3.BoolVal(False)), "callback")])
    e.prove("the threads start", z3.BoolVal(state["n"] == 1))


CHANGES = ((8, 0), (9, 1), (1, 2))      # the bits of inotify for a new, a removed and a modified file, and what they are told as
FIELDS = {"mask": T("unsigned int"), "len": T("unsigned int"), "wd": T("int"), "cookie": T("unsigned int"), "name": S}


def bit(m, k):
    return (m / 2**k) % 2 == 1


class Events:
    """what one read gives: events that follow one another, each with a mask and the length of its name"""
    def __init__(self, e, k, length):
        f = lambda nm, *s: z3.Function("%s_%d" % (nm, k), *s)
        self.e, self.length = e, length
        self.bound, self.len, self.mask = f("BOUND", I, B), f("LEN", I, I), f("MASK", I, I)
        self.name, self.told = f("NAME", I, SS), f("TOLD", I, I)
        e.assume(z3.And(self.told(0) == 0, self.bound(0), length > 0))

    def kept(self, i):
        return z3.And(self.len(i) > 0, z3.Function("PASS", SS, B)(self.name(i)), z3.Or(*[bit(self.mask(i), k) for k, _ in CHANGES]))

    def kind(self, i):
        r = z3.IntVal(CHANGES[-1][1])
        for k, v in CHANGES[:-1]:
            r = z3.If(bit(self.mask(i), k), v, r)
        return r

    def at(self, i):
        """what the system says of an event that starts at i"""
        e, nx, j = self.e, i + 16 + self.len(i), z3.Int("j!")
        e.assume(z3.And(self.len(i) >= 0, self.mask(i) >= 0, self.mask(i) < 2**32, nx <= self.length, self.bound(nx),
                        self.told(nx) == self.told(i) + z3.If(self.kept(i), 1, 0)))
        e.assume(z3.ForAll([j], z3.Implies(z3.And(self.bound(j), j > i), j >= nx), patterns=[self.bound(j)]))
        bs = [bit(self.mask(i), k) for k, _ in CHANGES]
        e.assume(z3.And(*[z3.Not(z3.And(a, b)) for x, a in enumerate(bs) for b in bs[:x]]))
        e.assume(z3.Implies(self.len(i) == 0, self.name(i) == sv("")))

    def upto(self, i, v, t, off=0):
        j = z3.Int("j!")
        p = v.select(off + self.told(j))
        return z3.And(v.n == off + self.told(i), z3.ForAll([j], z3.Implies(z3.And(self.bound(j), j >= 0, j < i, self.kept(j)), z3.And(
            self.told(j) >= 0, self.told(j) < self.told(i), t.first(p) == self.name(j), t.second(p) == self.kind(j))), patterns=[self.bound(j)]))


class Event:
    """where an event of the buffer starts"""
    def __init__(self, i):
        self.i = i


class Inotify:
    """read() from inotify, and the events in its buffer"""
    def __init__(self, e):
        self.e = e

    def call_free(self, name, args, n, argn):
        if name != "read" or len(args) != 3:
            return None
        e = self.e
        m = e.path_state["mon"]
        fd, p, k = [rvalue(a) for a in args]
        if not (isinstance(p, Ptr) and isinstance(p.target, ElemLV)):
            raise Unsupported("read into what is not an array", n)
        v = p.target.base.get()
        e.prove("it reads what is watched", fd == m.fd, n)
        e.prove("no more is read than there is room for", z3.And(p.target.idx == 0, k <= v.n), n, "safety")
        e.prove("nothing is read once nothing is watched: it would wait for ever", z3.Not(m.gone.v), n)
        e.prove("no lock is held while reading", z3.BoolVal(not m.M.held()), n)
        e.prove("what was read before has been passed on", z3.Not(m.pending.v), n)
        r = e.fresh("length", I)
        e.assume(z3.And(r >= -1, r <= k))
        e.path_state["reads"] = e.path_state.get("reads", 0) + 1
        if e.branch(r > 0, n):
            m.events = Events(e, e.path_state["reads"], r)
            m.buffer = p.target.base.root() if hasattr(p.target.base, "root") else p.target.base
            m.pending.set(z3.BoolVal(True))
        return r

    def reinterpret(self, v, t, n):
        e = self.e
        m = e.path_state["mon"]
        if not (isinstance(v, Ptr) and isinstance(v.target, ElemLV) and "inotify_event" in t.name):
            return None
        if m.events is None:
            e.prove("only what was read is used", z3.BoolVal(False), n)
            raise PathEnd()
        i = v.target.idx
        e.prove("an event is taken where it starts", z3.And(m.events.bound(i), i >= 0, i < m.events.length), n, "safety")
        m.events.at(i)
        m.gone.set(z3.Or(m.gone.v, bit(m.events.mask(i), 15)))
        return Ptr(TempLV(Event(i), t))

    def member(self, base, o, n):
        if isinstance(o, Event):
            ev = self.e.path_state["mon"].events
            nm = n.get("name")
            if nm in ("mask", "len", "name"):
                return TempLV(getattr(ev, nm)(o.i), FIELDS[nm])

    def sizeof(self, t, n):
        if "inotify_event" in t.name and not t.ptr:
            return 16


def monitored(e):
    m = Watch(e)
    t = [x for x in e.lib.ext if isinstance(x, Term)][0]
    e.lib.ext.append(Inotify(e))
    d = [c for c in m.o.byname.values() if isinstance(c.v, Obj)]
    m.fd = {c.name: c.v for c in d[0].v.byname.values()}["folder"]
    m.events = None
    m.gone = Cell(e, T("bool"), z3.BoolVal(False), "ghost/gone", name="gone")
    m.pending = Cell(e, T("bool"), z3.BoolVal(False), "ghost/pending", name="pending")
    PASS = z3.Function("PASS", SS, B)
    e.contracts["eprosima::filewatch::FileWatch::pass_filter"] = Contract(lambda e, d, this, args, node: PASS(rvalue(args[0])))

    def section(s, n):
        a, b = s.pre[m.info.label], s.post[m.info.label]
        e.prove("the flag is not changed", s.post[m.end_.label] == s.pre[m.end_.label], n)
        if m.events is None:
            e.prove("nothing is passed on that was not read", b.n == a.n, n)
            return
        e.cover("passed on")
        j = z3.Int("j!")
        w = lambda v: v if v.items is None else e.lib.symarr(v)
        a, b = w(a), w(b)
        e.prove("what was to be told stays", z3.And(b.n >= a.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), b.select(j) == a.select(j)), patterns=[b.select(j)])), n)
        e.prove("every change that was read and passes the filter is to be told, in order, once", m.events.upto(m.events.length, b, t, a.n), n)
        e.prove("what was read is passed on once", m.pending.v, n)
        m.pending.set(z3.BoolVal(False))
    m.section = section
    known = {c.label for c in e.cells}

    def inv(ctx):
        yield "all was passed on", z3.Not(m.pending.v)
        yield "being passed on", m.pending.v
        bools = [b for b in ctx.bools() if not b.label.startswith("ghost/") and b.label not in known]
        for b in bools:
            yield "%s: watched" % b.label, b.v == z3.Not(m.gone.v)
            yield "%s: not watched" % b.label, b.v == m.gone.v
        yield "still watched", z3.Not(m.gone.v)
        s, j = m.M.cur if m.M.held() else None, z3.Int("j!")
        if s is not None and m.info.v.items is None:
            a, b = s.pre[m.info.label], m.info.v
            old = z3.And(b.n >= a.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), b.select(j) == a.select(j)), patterns=[b.select(j)]))
            yield "what was to be told stays", old

            def passed(q, v):
                return z3.And(q >= 0, q <= v.n, b.n == a.n + q, z3.ForAll([j], z3.Implies(z3.And(j >= a.n, j < a.n + q), b.select(j) == v.select(j - a.n)), patterns=[b.select(j)]))
            for it in ctx.iters(True):
                v = it.v.cont.get() if hasattr(it.v.cont, "get") else None
                if it.v.pos is not None and isinstance(v, Vec) and v.items is None:
                    yield "%s: those before are to be told" % it.label, passed(it.v.pos, v)
            for v in ctx.cells(lambda c: isinstance(c.v, Vec) and c.v.items is None and c.v.et.name == "std::pair" and c is not m.info):
                for q in ctx.ints(True):
                    if not q.label.startswith("ghost/"):
                        yield "%s: those of %s before are to be told" % (q.label, v.label), passed(q.v, v.v)
        if m.events is None:
            return
        ev = m.events
        for q in ctx.ints(True):
            if q.label.startswith("ghost/"):
                continue
            yield "%s: where an event starts" % q.label, z3.And(q.v >= 0, q.v <= ev.length, ev.bound(q.v))
            yield "%s: as many" % q.label, z3.And(ev.told(q.v) >= 0, ev.told(q.v) <= q.v)
            for v in ctx.cells(lambda c: isinstance(c.v, Vec) and c.v.items is None and c.v.et.name == "std::pair" and c is not m.info):
                yield "%s: the changes before %s" % (v.label, q.label), ev.upto(q.v, v.v, t)
    e.path_state["inv"] = inv
    run(e, wm(e, "monitor_directory"), [], this=m.o)
    e.cover("ends")
    m.closed()
    e.prove("it ends only once it was told to, or nothing is watched", z3.Or(m.end_.v, m.gone.v))
    e.prove("what was read has been passed on", z3.Not(m.pending.v))


def isfile(e):
    m = Watch(e)
    s = e.fresh("path", SS)
    mode = e.fresh("mode", I)
    e.assume(z3.And(mode >= 0, mode < 2**16))
    done = []

    class Stat:
        def default(self, t, label):
            if t.name == "stat":
                return Opaque(t, label)

        sym = zeroed = default

        def init_list(self, t, items, n):
            if t.name == "stat":
                return Opaque(t, "stat")

        def call_free(self, name, args, n, argn):
            if name in ("stat",):
                e.prove("it is asked of that path", rvalue(args[0]) == e.lib.c_string(s), n)
                done.append(1)
                r = e.fresh("result", I)
                e.assume(z3.And(z3.Or(r == 0, r == -1), (r == 0) == EXISTS(s)))
                return r

        def member(self, base, o, n):
            if isinstance(o, Opaque) and o.t.noref().name == "stat" and n.get("name") == "st_mode":
                e.prove("the answer is used only if there is one", z3.And(z3.BoolVal(bool(done)), EXISTS(s)), n)
                return TempLV(mode, T("unsigned int"))
    e.lib.ext.append(Stat())
    try:
        r = rvalue(run(e, wm(e, "is_file"), [arg(e, S, s, "path")], this=m.o, throws=True))
    except CppThrow as x:
        e.cover("refused")
        e.prove("only what does not exist is refused, with system_error", z3.And(z3.Not(EXISTS(s)), z3.BoolVal(x.t.noref().name == "std::system_error")))
        return
    e.cover("asked")
    e.prove("what does not exist is refused", EXISTS(s))
    e.prove("whether it is a regular file", r == ((mode / 4096) % 16 == 8))


UNITS = [Unit("FileWatch::monitor_directory", monitored, wsetup, prog="watch", budget=300), Unit("FileWatch::is_file", isfile, wsetup, prog="watch"),
         Unit("FileWatch::split_directory_and_file", split, wsetup, prog="watch"), Unit("FileWatch::pass_filter", filtered, wsetup, prog="watch"),
         Unit("FileWatch::get_directory", folder, wsetup, prog="watch"), Unit("FileWatch::init", begun, wsetup, prog="watch"),
         Unit("FileWatch construction", wmade, wsetup, prog="watch"),
         Unit("FileWatch::callback_thread", told, wsetup, prog="watch"), Unit("FileWatch::destroy", ended("destroy"), wsetup, prog="watch"),
         Unit("FileWatch destruction", ended(None), wsetup, prog="watch"),
         Unit("FileWatcherHandler::callback_set_nts_", started("callback_set_nts_"), hsetup, prog="watch"),
         Unit("FileWatcherHandler::start_filewatcher_nts_", started("start_filewatcher_nts_"), hsetup, prog="watch"),
         Unit("FileWatcherHandler::callback_unset_nts_", stopped("callback_unset_nts_", False), hsetup, prog="watch"),
         Unit("FileWatcherHandler::callback_unset_nts_ without watcher", stopped("callback_unset_nts_", True), hsetup, prog="watch"),
         Unit("FileWatcherHandler::stop_filewatcher_nts_", stopped("stop_filewatcher_nts_", False), hsetup, prog="watch"),
         Unit("FileWatcherHandler construction", hmake("vp_handler"), hsetup, prog="watch"),
         Unit("FileWatcherHandler construction without callback", hmake("vp_bare"), hsetup, prog="watch"),
         Unit("FileWatcherHandler destruction", hdestroy, hsetup, prog="watch")]

UNITS += [Unit("file_to_strings", strings, rsetup, prog="read"), Unit("file_to_string", string, rsetup, prog="read")]
