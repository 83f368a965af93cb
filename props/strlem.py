"""Facts about sequences: each is proved once, in isolation, for all strings (unit `string lemmas`);
contracts assume instances of them."""
import z3
from vc.check import Unit

L = z3.Length


def drop(s, k):
    return z3.SubString(s, k, L(s) - k)


def take(s, k):
    return z3.SubString(s, 0, k)


def ix(s, a):
    return z3.IndexOf(s, a, 0)


def prefix_index(s, a):
    return z3.Implies(z3.PrefixOf(a, s), ix(s, a) == 0)


def sub_index(s, a):
    return z3.Implies(take(s, L(a)) == a, ix(s, a) == 0)


def index_concat(x, y, a):
    j = ix(y, a)
    return z3.IndexOf(z3.Concat(x, y), a, L(x)) == z3.If(j < 0, -1, L(x) + j)


def index_from(s, a, k):
    j = ix(drop(s, k), a)
    return z3.Implies(z3.And(k >= 0, k <= L(s)), z3.IndexOf(s, a, k) == z3.If(j < 0, -1, k + j))


def index_at(s, a):
    return z3.Implies(ix(s, a) >= 0, z3.And(ix(drop(s, ix(s, a)), a) == 0, z3.PrefixOf(a, drop(s, ix(s, a))),
                                            ix(s, a) + L(a) <= L(s)))


def index_split(s, a):
    i = ix(s, a)
    return z3.Implies(i >= 0, s == z3.Concat(take(s, i), a, drop(s, i + L(a))))


def index_none(s, a):
    return (ix(s, a) < 0) == z3.Not(z3.Contains(s, a))


def split_at(s, k):
    return z3.Implies(z3.And(k >= 0, k <= L(s)), s == z3.Concat(take(s, k), drop(s, k)))


def drop_concat(x, y, k):
    return z3.Implies(k >= 0, drop(z3.Concat(x, y), L(x) + k) == drop(y, k))


def take_concat(x, y, k):
    return z3.Implies(k >= 0, take(z3.Concat(x, y), L(x) + k) == z3.Concat(x, take(y, k)))


def drop_drop(s, j, k):
    return z3.Implies(z3.And(j >= 0, k >= 0, j <= L(s)), drop(drop(s, j), k) == drop(s, j + k))


def sub_drop(s, j, k, m):
    return z3.Implies(z3.And(j >= 0, k >= 0, m >= 0, j + k <= L(s)),
                      z3.SubString(drop(s, j), k, m) == z3.SubString(s, j + k, m))


def take_sub(s, j, k):
    """take(s, k) == take(s, j) + s[j:k]"""
    return z3.Implies(z3.And(j >= 0, k >= j, k <= L(s)), take(s, k) == z3.Concat(take(s, j), z3.SubString(s, j, k - j)))


def occ_at(s, k, a):
    return z3.Implies(z3.And(k >= 0, k <= L(s)), z3.PrefixOf(a, drop(s, k)) == (z3.SubString(s, k, L(a)) == a))


def replace_step(st, p, k, b, a):
    """n: st with the k characters at p replaced by b; where the next a after b is, and what surrounds it"""
    tail = drop(st, p + k)
    n = z3.Concat(take(st, p), b, tail)
    i = ix(tail, a)
    q = z3.IndexOf(n, a, p + L(b))
    return z3.Implies(z3.And(p >= 0, k >= 0, p + k <= L(st)), z3.And(
        q == z3.If(i < 0, -1, p + L(b) + i), L(n) == L(st) - k + L(b), drop(n, p + L(b)) == tail,
        z3.Implies(i >= 0, z3.And(drop(n, q) == drop(tail, i), take(n, q) == z3.Concat(take(st, p), b, take(tail, i)),
                                  q + L(a) <= L(n), z3.SubString(n, q, L(a)) == a))))


def replaced_before(st, p, k, b):
    """n as above: what there is up to the end of b"""
    x = z3.Concat(take(st, p), b)
    n = z3.Concat(take(st, p), b, drop(st, p + k))
    return z3.Implies(z3.And(p >= 0, k >= 0, p + k <= L(st)), z3.And(take(n, p + L(b)) == x, L(n) == L(st) - k + L(b)))


def replaced_before_hyps(st, p, k, b):
    return [take_concat(z3.Concat(take(st, p), b), drop(st, p + k), z3.IntVal(0))]


def replace_step_hyps(st, p, k, b, a):
    x, tail = z3.Concat(take(st, p), b), drop(st, p + k)
    i = ix(tail, a)
    n = z3.Concat(x, tail)
    return [index_concat(x, tail, a), drop_concat(x, tail, i), take_concat(x, tail, i), index_at(tail, a),
            occ_at(n, p + L(b) + i, a), drop_concat(x, tail, z3.IntVal(0))]


def scan_step(s, p, a):
    """the next a in s from p on"""
    t = drop(s, p)
    i, q = ix(t, a), z3.IndexOf(s, a, p)
    return z3.Implies(z3.And(p >= 0, p <= L(s)), z3.And(
        q == z3.If(i < 0, -1, p + i),
        z3.Implies(i >= 0, z3.And(q + L(a) <= L(s), z3.SubString(s, q, L(a)) == a, z3.SubString(s, p, i) == take(t, i),
                                  drop(s, q) == drop(t, i), drop(s, q + L(a)) == drop(t, i + L(a)),
                                  take(s, q) == z3.Concat(take(s, p), take(t, i))))))


def scan_step_hyps(s, p, a):
    t = drop(s, p)
    i = ix(t, a)
    return [index_from(s, a, p), index_at(t, a), sub_drop(s, p, z3.IntVal(0), i), drop_drop(s, p, i),
            drop_drop(s, p, i + L(a)), take_sub(s, p, p + i), occ_at(s, p + i, a)]


_s, _a, _x, _y = z3.Strings("s a x y")
_j, _k, _m = z3.Ints("j k m")
LEMMAS = {
    "prefix_index": prefix_index(_s, _a), "sub_index": sub_index(_s, _a), "index_concat": index_concat(_x, _y, _a),
    "index_from": index_from(_s, _a, _k), "index_at": index_at(_s, _a), "index_split": index_split(_s, _a),
    "index_none": index_none(_s, _a), "split_at": split_at(_s, _k), "drop_concat": drop_concat(_x, _y, _k),
    "take_concat": take_concat(_x, _y, _k), "drop_drop": drop_drop(_s, _j, _k), "sub_drop": sub_drop(_s, _j, _k, _m),
    "take_sub": take_sub(_s, _j, _k), "occ_at": occ_at(_s, _k, _a),
}
DERIVED = {"replace_step": (replace_step(_s, _j, _k, _x, _a), replace_step_hyps(_s, _j, _k, _x, _a)),
           "replaced_before": (replaced_before(_s, _j, _k, _x), replaced_before_hyps(_s, _j, _k, _x)),
           "scan_step": (scan_step(_s, _j, _a), scan_step_hyps(_s, _j, _a))}


def _prove(e):
    for n, g in LEMMAS.items():
        e.prove("lemma " + n, g)
    base = list(e.pc)
    for n, (g, hs) in DERIVED.items():
        e.pc = base + hs
        pre, post = g.arg(0), g.arg(1)
        for i in range(post.num_args()):
            e.prove("lemma %s (%d)" % (n, i), z3.Implies(pre, post.arg(i)))


def unit():
    return Unit("string lemmas", _prove, prog=None)
