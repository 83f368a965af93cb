"""Lists of strings: an algebraic datatype, append by its two defining equations, and lemmas by induction.
LST(array, n) is the list of the first n elements of a vector; every push gives its defining equation."""
import z3
from vc.check import Unit
from vc.values import Vec
SS, I = z3.StringSort(), z3.IntSort()
_d = z3.Datatype("StrList")
_d.declare("nil")
_d.declare("cons", ("head", SS), ("tail", _d))
List = _d.create()
NIL, CONS = List.nil, List.cons
APP = z3.Function("APP", List, List, List)
LST = z3.Function("LST", z3.ArraySort(I, SS), I, List)


def single(x):
    return CONS(x, NIL)


def snoc(l, x):
    return APP(l, single(x))


def app_nil(m):
    return APP(NIL, m) == m


def app_cons(x, l, m):
    return APP(CONS(x, l), m) == CONS(x, APP(l, m))


def app_assoc(l, m, n):
    return APP(APP(l, m), n) == APP(l, APP(m, n))


def app_right_nil(l):
    return APP(l, NIL) == l


def move(l, x, m):
    """(l + [x]) + m == l + x:m"""
    return APP(snoc(l, x), m) == APP(l, CONS(x, m))


def lst(v):
    if v.items is not None:
        r = NIL
        for x in reversed(v.items):
            r = CONS(x, r)
        return r
    return LST(v.arr, v.n)


def track(e):
    """defining equations of LST at every push and append"""
    def push(base, v, x):
        w = v.push(x)
        if w.items is None:
            e.assume(LST(w.arr, w.n) == snoc(lst(v), x))

    def appended(v, src, w):
        e.assume(lst(w) == APP(lst(v), lst(src)))
    e.hooks["push_back"] = push
    e.hooks["appended"] = appended


def lemmas(e):
    """by structural induction on l"""
    l, m, n = z3.Consts("l m n", List)
    x, y = z3.Strings("x y")
    for f in (app_nil(m), app_nil(APP(m, n)), app_cons(y, l, m), app_cons(y, APP(l, m), n), app_cons(y, l, APP(m, n)),
              app_cons(y, l, NIL), app_nil(NIL), app_nil(n)):
        e.assume(f)
    e.prove("append is associative: nil", app_assoc(NIL, m, n))
    e.prove("append is associative: step", z3.Implies(app_assoc(l, m, n), app_assoc(CONS(y, l), m, n)))
    e.prove("nil is right neutral: nil", app_right_nil(NIL))
    e.prove("nil is right neutral: step", z3.Implies(app_right_nil(l), app_right_nil(CONS(y, l))))
    for f in (app_assoc(l, single(x), m), app_cons(x, NIL, m)):
        e.assume(f)
    e.prove("moving an element across", move(l, x, m))


def unit():
    return Unit("list lemmas", lemmas, prog=None)
