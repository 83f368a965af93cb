"""Monitor contracts: guarded fields, critical sections, lock discipline.

An object's fields are guarded by a mutex.  Acquiring the mutex gives the fields arbitrary values that satisfy the monitor invariant
(other threads ran), releasing it proves the invariant, reading a guarded field needs the lock, writing it needs the exclusive lock.
Every critical section is recorded with the state at its start and end, so that a postcondition can name the section at which the
operation takes effect."""
from .common import *


class Section:
    def __init__(self, shared):
        self.shared, self.pre, self.post, self.done = shared, {}, {}, False


class Lock:
    def __init__(self, cells, inv=None, recursive=False, stable=()):
        self.cells, self.inv, self.recursive, self.stable = cells, inv, recursive, stable
        self.ex, self.sh, self.cur = 0, 0, None

    def held(self):
        return self.ex or self.sh


class Monitor:
    """e.path_state['mon']"""
    def __init__(self, e, locks, rely=None):
        self.e, self.locks, self.rely = e, locks, rely     # locks: {mutex label: Lock}
        self.guard = {c.label: (k, c) for k, l in locks.items() for c in l.cells}
        self.sections, self.quiet, self.trace = [], False, []
        e.path_state["mon"] = self

    def lock_of(self, m):
        return self.locks.get(m.label)

    def snapshot(self, l):
        return {c.label: c.v for c in l.cells}

    def havoc(self, l):
        self.quiet = True
        for c in l.cells:
            if c.v is None:
                continue
            c.set(self.e.lib.havoc(c))
        self.quiet = False

    def begin(self, l, shared, fresh=True):
        old = self.snapshot(l)
        if fresh:
            self.havoc(l)
            if l.inv:
                self.e.assume(l.inv())
            if self.rely:
                self.rely(old)
        s = Section(shared)
        s.lock = l
        s.pre = self.snapshot(l)
        l.cur = s
        self.sections.append(s)

    def end(self, l, n):
        s = l.cur
        s.post = self.snapshot(l)
        s.done = True
        l.cur = None
        if l.inv:
            self.e.prove("the invariant of the monitor holds when the lock is released", l.inv(), n)

    def acquire(self, m, shared, n):
        l = self.lock_of(m)
        if l is None:
            return
        self.trace.append(("lock", m.label))
        if not l.recursive:
            self.e.prove("a lock held exclusively is not taken again", z3.BoolVal(not l.ex), n, "safety")
            if not shared:
                self.e.prove("an exclusive lock is not taken while the lock is held", z3.BoolVal(not l.held()), n, "safety")
            if l.ex or (not shared and l.held()):
                raise PathEnd()
        first = not l.held()
        if shared:
            l.sh += 1
        else:
            l.ex += 1
        if first:
            self.begin(l, shared)

    def release(self, m, shared, n):
        l = self.lock_of(m)
        if l is None:
            return
        self.trace.append(("unlock", m.label))
        ok = l.sh > 0 if shared else l.ex > 0
        self.e.prove("a lock is released by the one that holds it", z3.BoolVal(ok), n, "safety")
        if not ok:
            raise PathEnd()
        if shared:
            l.sh -= 1
        else:
            l.ex -= 1
        if not l.held():
            self.end(l, n)

    def read(self, c):
        if self.quiet or c.label not in self.guard:
            return
        k, cell = self.guard[c.label]
        if cell is not c:
            return
        self.e.prove("%s is read only while its lock is held" % c.name, z3.BoolVal(bool(self.locks[k].held())), None, "lock")
        if not self.locks[k].held():
            raise PathEnd()

    def write(self, c):
        if self.quiet or c.label not in self.guard:
            return
        k, cell = self.guard[c.label]
        if cell is not c:
            return
        self.e.prove("%s is written only while its lock is held exclusively" % c.name, z3.BoolVal(bool(self.locks[k].ex)),
                     None, "lock")
        if not self.locks[k].ex:
            raise PathEnd()

    # ---- loops: the part of the state of the monitor that is not in locations
    once = ()        # lists that the contract counts, which an iteration may therefore not extend unseen
    own = None
    frames = True    # whether a critical section inside an iteration may leave the guarded fields only as they were

    def loop_head(self, ctx):
        """an arbitrary iteration: a lock that a wait of the loop releases was taken again at any earlier moment"""
        e = self.e
        info = ctx.info
        for k in info.waits:
            l = self.locks[k]
            if not l.held():
                continue
            s = Section(l.cur.shared)
            s.lock = l
            s.pre = {}
            self.quiet = True
            for c in l.cells:
                if c.v is not None:
                    s.pre[c.label] = e.lib.havoc(c)
            self.quiet = False
            self.sections.remove(l.cur)
            l.cur = s
            self.sections.append(s)
        if info.waits and self.own is not None:
            self.own = e.fresh("own", z3.IntSort())
        ctx.mark = (len(self.sections), [s for s in self.sections if not s.done], {a: len(getattr(self, a)) for a in self.once},
                    {k: (l.ex, l.sh) for k, l in self.locks.items()})

    def loop_back(self, ctx):
        e = self.e
        nsec, there, lists, held = ctx.mark
        if held != {k: (l.ex, l.sh) for k, l in self.locks.items()}:
            raise Unsupported("an iteration leaves other locks held than it found", ctx.node)
        for a, k in lists.items():
            if len(getattr(self, a)) != k:
                raise Unsupported("what an iteration does is counted by the contract (%s)" % a, ctx.node)
        if not self.frames:
            return
        for s in there + self.sections[nsec:]:
            if not s.done:
                continue
            for c in s.lock.cells:
                if c.label in s.pre and c.label in s.post and s.pre[c.label] is not s.post[c.label] and not self.may_vary(c):
                    a, b = s.pre[c.label], s.post[c.label]
                    if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and e.holds(a == b)):
                        raise Unsupported("a critical section inside a loop changes %s" % (c.name or c.label), ctx.node)

    def may_vary(self, c):
        return False

    def closed(self, n=None):
        for k, l in self.locks.items():
            self.e.prove("no lock is left held", z3.BoolVal(not l.held()), n)


def hooks(e):
    """install the monitor hooks (setup of a unit)"""
    def mon():
        return e.path_state.get("mon")
    e.hooks["acquire"] = lambda m, shared=False, n=None: mon() and mon().acquire(m, shared, n)
    e.hooks["release"] = lambda m, shared=False, n=None: mon() and mon().release(m, shared, n)
    e.hooks["read"] = lambda c: mon() and mon().read(c)
    e.hooks["write"] = lambda c: mon() and mon().write(c)
    e.hooks["havoc_loop"] = lambda ctx: mon() is not None and hasattr(mon(), "loop_head") and mon().loop_head(ctx)

    def loops(ctx):
        m = mon()
        if m is None or not hasattr(m, "loop_back"):
            return ()
        if ctx.phase == "back":
            m.loop_back(ctx)
        return m.loop_inv(ctx) if hasattr(m, "loop_inv") else ()
    e.invariants.append(loops)


def method(e, rec, name, nparams=None, pred=None):
    """the one method of this (instantiated) class with this name"""
    c = e.prog.find("::".join(x for x in rec["_qual"] if x) + "::" + name,
                    lambda d: d.get("_rec") is not None and d["_rec"]["_T"].key() == rec["_T"].key() and
                    (nparams is None or len(params_of(d)) == nparams) and (pred is None or pred(d)))
    if len(c) != 1:
        raise Unsupported("%d definitions of %s::%s" % (len(c), rec.get("name"), name))
    return c[0]
