"""Path exploration by re-execution, obligations, and the solver portfolio.

A harness is an ordinary Python function; `Engine.branch` is the only source of forks.  Every
path is run from the start with the recorded prefix of decisions, so the interpreter can keep
its state in ordinary Python objects.
"""
import os, re, subprocess, sys, tempfile, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
from .frontend import Unsupported

z3.set_param("smt.random_seed", 1)
Z3BIN = next((p for p in ("/usr/bin/z3-new", "/usr/local/bin/z3-new", "z3-new") if os.path.exists(p)), "z3-new")
TIER = os.environ.get("VERIF_TIER", "quick")


class PathEnd(Exception):
    """This path needs no further exploration (back edge, or it is infeasible)."""


class Restart(Exception):
    """What is known about some loop changed: explore the harness again."""


class Obligation:
    __slots__ = ("name", "hyps", "goal", "loc", "status", "backend", "time", "model", "path", "witness", "kind")

    def __init__(self, name, hyps, goal, loc, path, witness, kind):
        self.name, self.hyps, self.goal, self.loc = name, hyps, goal, loc
        self.status, self.backend, self.time, self.model = None, None, 0.0, None
        self.path, self.witness, self.kind = path, witness, kind


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.And(*xs) if len(xs) > 1 else (xs[0] if xs else z3.BoolVal(True))


# ------------------------------------------------------------------ portfolio

_smt_cache = {}
_smt_lock = threading.Lock()
STATS = {"queries": 0, "z3": 0, "cvc5": 0, "solver_s": 0.0, "second_opinions": 0, "confirmed": 0}


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _cvc5_text(t):
    t = re.sub(r"\(set-info [^\n]*\n", "", t)
    t = t.replace("(check-sat)", "")
    t = re.sub(r"; benchmark.*\n", "", t)
    # z3 spellings cvc5 does not know
    t = t.replace("(str.to_code ", "(str.to_code ").replace("seq.len", "str.len")
    return "(set-logic ALL)\n(set-option :strings-exp true)\n" + t + "\n(check-sat)\n"


def z3cmd(timeout):
    return [Z3BIN, "-T:%d" % int(timeout + 1), "-smt2", "smt.random_seed=1"]


def cvc5cmd(timeout):
    return ["cvc5", "--tlimit=%d" % int(timeout * 1000), "--strings-exp", "--lang=smt2"]


def race(jobs, timeout):
    """jobs: (backend, command, text).  First sat/unsat wins."""
    procs = []
    try:
        for be, cmd, text in jobs:
            fd, path = tempfile.mkstemp(prefix="vp_q_", suffix=".smt2")
            with os.fdopen(fd, "w") as f:
                f.write(text)
            procs.append([be, subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                               text=True), path, False])
        end = time.time() + timeout + 3
        pause = 0.002
        while time.time() < end and not all(p[3] for p in procs):
            for p in procs:
                if not p[3] and p[1].poll() is not None:
                    p[3] = True
                    for l in p[1].stdout.read().splitlines():
                        if l.strip() in ("sat", "unsat"):
                            return l.strip(), p[0]
            time.sleep(pause)
            pause = min(pause * 1.3, 0.05)
        return "unknown", "-"
    finally:
        for be, p, path, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
            os.unlink(path)


def portfolio(text, timeout, order=("z3", "cvc5")):
    jobs = []
    stringy = "String" in text or "str." in text or "seq." in text
    cv = _cvc5_text(text)
    if len(order) == 1 or not stringy:
        for be in order:
            r = race([(be, z3cmd(min(timeout, 2)), text) if be == "z3" else (be, cvc5cmd(min(timeout, 2)), cv)],
                     min(timeout, 2))
            if r[0] != "unknown":
                return r
        if timeout <= 2:
            return "unknown", "-"
    return race([(be, z3cmd(timeout), text) if be == "z3" else (be, cvc5cmd(timeout), cv) for be in order], timeout)


def solve(hyps, goal, timeout=10, order=("z3", "cvc5")):
    """-> (status, backend, seconds): status in proved/refuted/unknown"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "simplifier", 0.0
    return solve_text(smt2(hyps, goal), timeout, order)


# ------------------------------------------------------------------ engine

class LoopInfo:
    def __init__(self):
        self.modified = set()     # labels of locations written by the body
        self.dropped = set()      # invariant candidates that did not survive
        self.kept = {}            # candidate name -> proved
        self.seen_iter = False
        self.waits = set()        # mutexes that a wait of the body releases


class Engine:
    FEAS_MS = 400

    def __init__(self, prog=None, name="", timeout=None):
        self.prog = prog
        self.name = name
        self.timeout = timeout or (20 if TIER == "quick" else 60)
        self.obls = []
        self.loops = {}
        self.npaths = 0
        self.covers = {}
        self.funcs_run = {}
        self.trusted = set()
        self.lemma_used = set()
        self.max_paths = 4000
        self.deadline = None
        self.post_loops = []

    # -- exploration
    def explore(self, fn, max_restarts=400):
        """Run fn on all paths.  Restarts while loop facts (modified sets, invariants) change."""
        for r in range(max_restarts):
            self.obls = []
            self.covers = {}
            self.npaths = 0
            try:
                self._explore_once(fn)
                return
            except Restart:
                continue
        raise Unsupported("loop analysis does not settle")

    def _explore_once(self, fn):
        work = [[]]
        while work:
            prefix = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("too many paths")
            self._begin(prefix)
            try:
                fn(self)
            except PathEnd:
                pass
            work.extend(self._alts)

    def _begin(self, prefix):
        self._prefix = prefix
        self._taken = []
        self._alts = []
        self._n = {}
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.solver.set("random_seed", 1)
        self.path_state = {}
        self.reset_path()

    def reset_path(self):
        pass

    # -- names
    def fresh_name(self, base):
        k = self._n.get(base, 0)
        self._n[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    # -- path condition
    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        s = z3.simplify(c)
        if z3.is_true(s):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(s):
            raise PathEnd()

    def feasible(self, c):
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._check(c) != z3.unsat

    def holds(self, c):
        """Cheap, sound entailment test (False = not known)."""
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def _check(self, c):
        self.solver.push()
        self.solver.add(c)
        try:
            r = self.solver.check()
        except z3.Z3Exception:
            # the in-process solver gave up in a bad state: start it afresh
            self.solver = z3.Solver()
            self.solver.set("timeout", self.FEAS_MS)
            self.solver.set("random_seed", 1)
            for x in self.pc:
                self.solver.add(x)
            return z3.unknown
        self.solver.pop()
        return r

    def branch(self, c, node=None):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self._taken)
        if i < len(self._prefix):
            d = self._prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("exploration budget used up")
            ft, ff = self.feasible(c), None
            if not ft:
                d = False
            else:
                ff = self.feasible(z3.Not(c))
                d = True
                if ff:
                    self._alts.append(self._taken + [False])
        self._taken.append(d)
        self.pc.append(c if d else z3.Not(c))
        self.solver.add(self.pc[-1])
        return d

    def choose(self, n, label="choice"):
        """Nondeterministic choice among n alternatives (all explored)."""
        for k in range(n - 1):
            b = z3.Bool(self.fresh_name("pick_" + label))
            if self.branch(b):
                return k
        return n - 1

    # -- obligations
    def prove(self, name, goal, node=None, kind="post", witness=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        loc = None
        if node is not None:
            from .frontend import where
            loc = where(node)
        self.obls.append(Obligation(name, list(self.pc), goal, loc, list(self._taken),
                                    witness if witness is not None else dict(self.path_state.get("witness", {})), kind))

    def cover(self, name):
        """The harness reached this point; it must be satisfiable (vacuity guard)."""
        self.covers.setdefault(name, []).append(list(self.pc))


def discharge(obls, timeout, workers=7, progress=None):
    """Solve all obligations; equal queries once."""
    def one(o):
        o.status, o.backend, o.time = solve(o.hyps, o.goal, timeout)
        return o
    with ThreadPoolExecutor(workers) as ex:
        # smt2 text is produced under the GIL by z3's global context: build serially
        jobs = []
        for o in obls:
            g = z3.simplify(o.goal)
            if z3.is_true(g):
                o.status, o.backend = "proved", "simplifier"
                continue
            jobs.append((o, smt2(o.hyps, o.goal)))
        groups = {}
        for o, t in jobs:
            groups.setdefault(hashlib.sha1(t.encode()).hexdigest(), (t, []))[1].append(o)
        futs = {ex.submit(solve_text, t, timeout): os_ for t, os_ in groups.values()}
        for f, os_ in futs.items():
            st, be, dt = f.result()
            for i, o in enumerate(os_):
                o.status, o.backend, o.time = st, be, dt if i == 0 else 0.0
        if TIER == "thorough":
            # the other back end is asked too; a disagreement leaves the obligation undecided
            futs = {ex.submit(solve_text, t, 15, ("cvc5",) if os_[0].backend == "z3" else ("z3",)): os_
                    for t, os_ in groups.values() if os_[0].status == "proved" and os_[0].backend in ("z3", "cvc5")}
            for f, os_ in futs.items():
                st, be, dt = f.result()
                STATS["second_opinions"] += 1
                STATS["confirmed"] += st == "proved"
                if st == "refuted":
                    for o in os_:
                        o.status, o.backend = "unknown", "z3 and cvc5 disagree"
    return obls


def solve_text(text, timeout, order=("z3", "cvc5")):
    key = hashlib.sha1((repr(order) + text).encode()).hexdigest()
    with _smt_lock:
        hit = _smt_cache.get(key)
        if hit and (hit[0] != "unknown" or hit[3] >= timeout):
            return hit[:3]
    t0 = time.time()
    res, be = portfolio(text, timeout, order)
    dt = time.time() - t0
    st = {"unsat": "proved", "sat": "refuted"}.get(res, "unknown")
    with _smt_lock:
        STATS["queries"] += 1
        STATS["solver_s"] += dt
        if be in STATS:
            STATS[be] += 1
        _smt_cache[key] = (st, be, dt, timeout)
    return st, be, dt


def model_of(o, timeout_ms=4000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for h in o.hyps:
        s.add(h)
    s.add(z3.Not(o.goal))
    if s.check() == z3.sat:
        return s.model()
    return None
