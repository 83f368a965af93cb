"""std::thread: creation gives a joinable thread, join ends it; a joinable thread is neither overwritten nor destroyed."""
from .common import *
from vc.stdlib import ThreadV


class Threads:
    """spawn(v, node): hook called when a thread is created; joined(v, node): when it is joined"""
    def __init__(self, e, spawn=None, joined=None):
        self.e, self.spawn, self.joined = e, spawn, joined

    def is_(self, t):
        t = t.noref()
        return not t.ptr and t.name == "std::thread"

    def sym(self, t, name):
        if self.is_(t):
            return ThreadV(self.e.fresh(name + "_joinable", z3.BoolSort()), name)

    def construct(self, t, inner, n):
        if not self.is_(t):
            return None
        if not inner:
            return ThreadV(z3.BoolVal(False), "thread")
        args = self.e.args_of(inner)
        v = rvalue(args[0])
        if isinstance(v, ThreadV):
            if isinstance(args[0], LV) and not isinstance(args[0], TempLV):
                args[0].set(ThreadV(z3.BoolVal(False), v.label))
            return ThreadV(v.joinable, v.label, v.fn)
        if not isinstance(v, FnV):
            raise Unsupported("thread of %r" % (v,), n)
        r = ThreadV(z3.BoolVal(True), "thread", (v, [rvalue(a) for a in args[1:]]))
        if self.spawn:
            self.spawn(r, n)
        return r

    def copy(self, v, move):
        if isinstance(v, ThreadV):
            return ThreadV(v.joinable, v.label, v.fn)

    def moved_from(self, v):
        if isinstance(v, ThreadV):
            return ThreadV(z3.BoolVal(False), v.label)

    def assigned(self, c, v):
        if isinstance(v, ThreadV) and isinstance(c.v, ThreadV):
            self.e.prove("a thread that was not joined is not overwritten", z3.Not(c.v.joinable), None, "safety")

    def havoc(self, c, base=None):
        if isinstance(c.v, ThreadV):
            return ThreadV(self.e.fresh("joinable", z3.BoolSort()), c.label)

    def needs_dtor(self, v):
        if isinstance(v, ThreadV):
            return True

    def destroy(self, v):
        if isinstance(v, ThreadV):
            self.e.prove("a thread that was not joined is not destroyed", z3.Not(v.joinable), None, "safety")
            return True

    def method(self, base, o, name, argn, n, bt):
        if not isinstance(o, ThreadV):
            return None
        if name == "joinable":
            return o.joinable
        if name == "operator=":
            a = self.e.ev(argn[0])
            v = rvalue(a)
            self.e.prove("a thread that was not joined is not overwritten", z3.Not(o.joinable), n, "safety")
            if isinstance(a, LV) and not isinstance(a, TempLV):
                a.set(ThreadV(z3.BoolVal(False), v.label))
            base.set(ThreadV(v.joinable, v.label, v.fn))
            return base
        if name == "join":
            self.e.prove("only a joinable thread is joined", o.joinable, n, "safety")
            self.e.assume(o.joinable)
            if self.joined:
                self.joined(o, n)
            base.set(ThreadV(z3.BoolVal(False), o.label))
            return z3.BoolVal(True)
