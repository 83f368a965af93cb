"""C06: ROS 2 type names."""
from .common import *
from .strlem import *
from . import strlem
from .c03 import R, defR, SS
from .c05 import PROGS, DRIVER as D5
from vc.frontend import REPO

DRIVER = dict(D5, src="c06.cpp")
ASSUMPTIONS = ["replace_all meets the contract proved in C03",
               "Fast DDS logging has no effect on the results (stand-in header in /verif/stub)"]
E0 = sv("")
DDS = sv("dds_::")


def replace_contract(e):
    def apply(e, d, this, args, node):
        st, a, b = args
        s0, av, bv = rvalue(st), rvalue(a), rvalue(b)
        e.prove("replace_all is given something to look for", L(av) > 0, node, "precondition")
        st.set(R(s0, av, bv))
        n = e.fresh("count", z3.IntSort())
        e.assume(z3.And(n >= 0, n < (1 << 32)))
        return n
    e.contracts[U + "replace_all"] = Contract(apply)
    e.hooks["unroll"] = lambda n: True


def colons(s):
    return R(s, sv("::"), sv("/"))


def slashes(s):
    return R(s, sv("/"), sv("::"))


def dem_type(t):
    p = ix(t, DDS)
    return z3.If(z3.And(z3.SuffixOf(sv("_"), t), p >= 0),
                 z3.Concat(colons(take(t, p)), z3.SubString(t, p + 6, L(t) - 1 - (p + 6))), t)


def man_type(t):
    p = ix(t, sv("/msg/"))
    return z3.If(z3.Or(p < 0, p + 5 == L(t)), t,
                 z3.Concat(slashes(take(t, p + 5)), DDS, drop(t, p + 5), sv("_")))


def dem_srv(t):
    p = ix(t, DDS)
    k = z3.If(z3.SuffixOf(sv("_Response_"), t), 10, z3.If(z3.SuffixOf(sv("_Request_"), t), 9, 0))
    return z3.If(z3.Or(p < 0, k == 0), E0, z3.Concat(colons(take(t, p)), z3.SubString(t, p + 6, L(t) - k - (p + 6))))


def man_srv(t):
    p = ix(t, sv("/srv/"))
    x = z3.Concat(take(t, p + 5), DDS, drop(t, p + 5))
    return z3.If(p < 0, E0, z3.If(z3.PrefixOf(sv("rq/"), t), slashes(z3.Concat(x, sv("_Request_"))), z3.If(
        z3.PrefixOf(sv("rr/"), t), slashes(z3.Concat(x, sv("_Response_"))), E0)))


def unit(name, spec):
    def h(e):
        t = e.sym(S, "s0")
        witness(e, s0=t)
        e.assume(L(t) < (1 << 61))
        for f in (split_at(t, ix(t, sv("/msg/")) + 5), prefix_index(t, sv("rq/")), prefix_index(t, sv("rr/"))):
            e.assume(f)
        r = rvalue(run(e, fn(e, name), [arg(e, S, t)]))
        e.cover(name)
        e.prove(name + " gives exactly the documented name", r == spec(t))
    return Unit(name, h, replace_contract)


def nothing_in(x, d):
    return z3.Not(z3.Contains(x, sv(d)))


def step(e, s, a, b, i):
    """one application of the definition of REPLACED, with the position of the occurrence"""
    e.prove("first %s" % a, ix(s, sv(a)) == i)
    e.assume(ix(s, sv(a)) == i)
    e.assume(defR(s, sv(a), sv(b)))


def roundtrip(e):
    """by the definitions above, for package names without ':' or '/' that do not end in 'dds_'"""
    a, n = z3.Strings("package name")
    t = z3.Concat(a, sv("/msg/"), n)
    witness(e, s0=t)
    for f in (nothing_in(a, ":"), nothing_in(a, "/"), z3.Not(z3.SuffixOf(sv("dds_"), a)), L(n) > 0):
        e.assume(f)
    la = L(a)
    ns = z3.Concat(a, sv("/msg/"))

    def known(nm, f):
        e.prove(nm, f)
        e.assume(f)
    known("position of /msg/", ix(t, sv("/msg/")) == la)
    known("namespace", take(t, la + 5) == ns)
    known("name", drop(t, la + 5) == n)
    # a/msg/ -> a::msg::
    step(e, ns, "/", "::", la)
    known("rest", drop(ns, la + 1) == sv("msg/"))
    known("head", take(ns, la) == a)
    step(e, sv("msg/"), "/", "::", 3)
    e.assume(defR(E0, sv("/"), sv("::")))
    dds = z3.Concat(a, sv("::msg::"))
    known("namespace of the DDS type", slashes(ns) == dds)
    m = z3.Concat(dds, DDS, n, sv("_"))
    known("mangled as documented", man_type(t) == m)
    known("position of dds_::", ix(m, DDS) == la + 7)
    known("namespace part", take(m, la + 7) == dds)
    known("name part", z3.SubString(m, la + 13, L(m) - 1 - (la + 13)) == n)
    step(e, dds, "::", "/", la)
    known("rest of the DDS namespace", drop(dds, la + 2) == sv("msg::"))
    known("head of the DDS namespace", take(dds, la) == a)
    step(e, sv("msg::"), "::", "/", 3)
    e.assume(defR(E0, sv("::"), sv("/")))
    known("namespace comes back", colons(dds) == ns)
    e.cover("round trip")
    e.prove("demangling a mangled message type gives it back", dem_type(man_type(t)) == t)


UNITS = [strlem.unit(),
         unit("demangle_if_ros_type", dem_type), unit("mangle_if_ros_type", man_type),
         unit("demangle_service_type_only", dem_srv), unit("mangle_service_type_only", man_srv),
         Unit("round trip of message types", roundtrip, prog=None)]
