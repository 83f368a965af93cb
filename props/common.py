"""Helpers shared by the contracts of the properties."""
import z3
from vc.frontend import T, Unsupported, parse_type, typeof, params_of, qualtype
from vc.values import *
from vc.interp import Interp, CppThrow, ReturnX
from vc.check import Unit
from vc.engine import PathEnd

U = "eprosima::utils::"
S = T("std::string")
UINT = T("unsigned int")


def sv(s):
    return z3.StringVal(s)


def fn(e, name, nparams=None, pred=None):
    """The one definition in /repo with this qualified name."""
    c = e.prog.find(name if name.startswith("eprosima") else U + name,
                    lambda d: (nparams is None or len(params_of(d)) == nparams) and (pred is None or pred(d)))
    if len(c) != 1:
        raise Unsupported("%d definitions of %s" % (len(c), name))
    return c[0]


def arg(e, t, v, name="arg"):
    return Cell(e, t, v, "arg/" + name, name=name)


def run(e, f, args, this=None, throws=False):
    """Execute the body of f (its own contract is not used for the outermost call)."""
    try:
        return e.call_function(f, this, args, nocontract=True)
    except CppThrow as x:
        if throws:
            raise
        e.prove("no exception leaves %s" % f.get("name"), False, x.node if hasattr(x, "node") else f, "safety")
        raise PathEnd()


def rvalue(v):
    return v.get() if isinstance(v, LV) else v


def witness(e, **kw):
    e.path_state.setdefault("witness", {}).update(kw)


class Contract:
    """Contract used at call sites: `pre` proved, result fresh, `post` assumed."""
    active = True

    def __init__(self, apply, matches=None, name=""):
        self._apply, self._matches, self.name = apply, matches, name

    def matches(self, e, d, this, args):
        return self._matches is None or self._matches(e, d, this, args)

    def apply(self, e, d, this, args, node):
        return self._apply(e, d, this, args, node)
