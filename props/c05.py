"""C05: ROS 2 topic and service names: mangling and demangling are exact and inverse."""
from .common import *
from vc.frontend import REPO

PROGS = {"main": '#include "%s/cpp_utils/src/cpp/ros2_mangling.cpp"\n' % REPO}
DRIVER = {"src": "c05.cpp", "repo": ["cpp_utils/src/cpp/ros2_mangling.cpp", "cpp_utils/src/cpp/utils.cpp",
                                     "cpp_utils/src/cpp/Formatter.cpp", "cpp_utils/src/cpp/exception/Exception.cpp",
                                     "cpp_utils/src/cpp/math/math_extension.cpp"]}
ASSUMPTIONS = ["Fast DDS logging has no effect on the results (stand-in header in /verif/stub)"]
E0 = sv("")


def starts(p, t):
    return z3.PrefixOf(p if isinstance(p, z3.ExprRef) else sv(p), t)


def drop(t, n):
    return z3.SubString(t, n, z3.Length(t) - n)


def call(e, name, *args, n=None):
    return rvalue(run(e, fn(e, name, n if n is not None else len(args)), [arg(e, S, a) for a in args]))


def unit(name, spec, nargs=1, n=None, **kw):
    def h(e):
        xs = [e.sym(S, "s%d" % i) for i in range(nargs)]
        witness(e, **{"s%d" % i: x for i, x in enumerate(xs)})
        r = call(e, name, *xs, n=n)
        e.cover(name)
        for nm, g in spec(r, *xs):
            e.prove(nm, g)
    return Unit(name, h, **kw)


def ros_prefix(t):
    return z3.If(starts("rt/", t), sv("rt"), z3.If(starts("rq/", t), sv("rq"), z3.If(starts("rr/", t), sv("rr"), E0)))


def demangled(t):
    return z3.If(z3.Or(starts("rt/", t), starts("rq/", t), starts("rr/", t)), drop(t, 2), t)


def mangled(t):
    return z3.If(starts("/", t), z3.Concat(sv("rt"), t), t)


def svc_mangled(t, p, s):
    return z3.If(starts("/", t), z3.Concat(sv(p), t, sv(s)), E0)


def svc_demangled(t, p, s):
    ok = z3.And(starts(p + "/", t), z3.SuffixOf(sv(s), t))
    return z3.If(ok, z3.SubString(t, 2, z3.Length(t) - 2 - len(s)), E0)


def eq(nm, f):
    return lambda r, *xs: [(nm, r == f(*xs))]


def roundtrip(name, mangle, demangle, both):
    """demangle(mangle(t)) == t through the two functions' bodies."""
    def h(e):
        t = e.sym(S, "s0")
        witness(e, s0=t)
        e.assume(starts("/", t))
        m = call(e, mangle, t)
        for d in ([demangle] if isinstance(demangle, str) else demangle):
            e.prove("%s(%s(t)) == t" % (d, mangle), call(e, d, m, n=1) == t)
        e.cover(name)
    return Unit(name, h)


RQ, RR = ("rq", "Request"), ("rr", "Reply")
UNITS = [
    unit("remove_prefix", lambda r, n, p: [("strips exactly prefix when followed by '/'", r == z3.If(
        starts(z3.Concat(p, sv("/")), n), drop(n, z3.Length(p)), E0))], 2),
    unit("add_prefix", lambda r, n, p: [("prefix + name", r == z3.Concat(p, n))], 2),
    unit("add_suffix", lambda r, n, p: [("name + suffix", r == z3.Concat(n, p))], 2),
    unit("get_ros_prefix_if_exists", eq("the ROS prefix, or empty", ros_prefix)),
    unit("remove_ros_prefix_if_exists", eq("without the ROS prefix", demangled)),
    unit("demangle_if_ros_topic", eq("without the ROS prefix", demangled)),
    unit("mangle_if_ros_topic", eq("rt added exactly when it starts with '/'", mangled)),
    unit("add_ros_topic_prefix", eq("rt + name", lambda t: z3.Concat(sv("rt"), t))),
    unit("add_ros_service_requester_prefix", eq("rq + name", lambda t: z3.Concat(sv("rq"), t))),
    unit("add_ros_service_response_prefix", eq("rr + name", lambda t: z3.Concat(sv("rr"), t))),
    unit("demangle_ros_topic_prefix_from_topic", eq("without rt, or empty", lambda t: z3.If(
        starts("rt/", t), drop(t, 2), E0))),
    unit("mangle_ros_service_request_prefix_in_topic", eq("rq + name + Request", lambda t: svc_mangled(t, *RQ))),
    unit("mangle_ros_service_reply_prefix_in_topic", eq("rr + name + Reply", lambda t: svc_mangled(t, *RR))),
    unit("demangle_ros_service_request_prefix_from_topic", eq("inverse form", lambda t: svc_demangled(t, *RQ))),
    unit("demangle_ros_service_reply_prefix_from_topic", eq("inverse form", lambda t: svc_demangled(t, *RR))),
    unit("demangle_ros_service_prefix_from_topic", eq("reply or request", lambda t: z3.If(
        svc_demangled(t, *RR) != E0, svc_demangled(t, *RR), svc_demangled(t, *RQ))), n=1),
    roundtrip("round trip of topics", "mangle_if_ros_topic",
              ["demangle_if_ros_topic", "demangle_ros_topic_prefix_from_topic"], True),
    roundtrip("round trip of service requests", "mangle_ros_service_request_prefix_in_topic",
              ["demangle_ros_service_request_prefix_from_topic", "demangle_ros_service_prefix_from_topic"], True),
    roundtrip("round trip of service replies", "mangle_ros_service_reply_prefix_in_topic",
              ["demangle_ros_service_reply_prefix_from_topic", "demangle_ros_service_prefix_from_topic"], True),
]
