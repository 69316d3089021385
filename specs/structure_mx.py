"""Structures of expressions: the latest assignment counts."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def plain(a, b):
    return struct_MX([entry('a', expr=a), entry('b', expr=b)])


def told(s):
    return [s['a'], s['b'], s.cat]


def glued(n, a, b):
    """Elements of a 2-by-3 matrix, column by column, and of a column."""
    return CSMAT(n + 8, 1, lambda i, j: a[i % 2, i // 2] if i < 6 else b[i - 6])


def parts(n, a, b):
    return [CSMAT(2, 3, lambda i, j: a[i, j]), CSMAT(n + 2, 1, lambda i, j: b[i]), glued(n, a, b)]


# ------------------------------------------------------------------ expressions given at the definition
@holds('C05', 'told(plain(a, b))', structures='real', raises='any')
@holds('C05', 'told(struct_MX([entry("b", expr=b), entry("a", expr=a)], order=["a", "b"]))', structures='real', raises='any')
@holds('C05', '(lambda s: (s.cat, told(s))[1])(plain(a, b))', structures='real', raises='any')
@holds('C05', 'told(struct_MX_mutable([entry("a", expr=a), entry("b", expr=b)]))', structures='real', raises='any')
def defined(n: 'nat', a: 'MX[2,3]', b: 'MX[n+2,1]'):
    return parts(n, a, b)


@holds('C05', 'told(struct_SX([entry("a", expr=a), entry("b", expr=b)]))', structures='real', raises='any')
def defined_sx(n: 'nat', a: 'SX[2,3]', b: 'SX[n+2,1]'):
    return parts(n, a, b)


@holds('C05', '(lambda s: [s["a"], s["a", 1], s["b"], s.cat])(struct_MX([entry("a", expr=[a, c]), entry("b", expr=b)]))', structures='real',
       raises='any')
def defined_list(n: 'nat', a: 'MX[n+1,1]', c: 'MX[n+1,1]', b: 'MX[n+2,1]'):
    same = lambda v: CSMAT(n + 1, 1, lambda i, j: v[i])
    return [[same(a), same(c)], same(c), CSMAT(n + 2, 1, lambda i, j: b[i]),
            CSMAT(3 * n + 4, 1, lambda i, j: a[i] if i < n + 1 else c[i - n - 1] if i < 2 * n + 2 else b[i - 2 * n - 2])]


@holds('C05', '(lambda s: [s["a", 0, 1], s["a", 1, 0], s.cat])(struct_MX([entry("a", expr=[[u, v], [w, x]])]))', structures='real', raises='any')
def defined_lists(u: 'MX[1,1]', v: 'MX[1,1]', w: 'MX[1,1]', x: 'MX[1,1]'):
    one = lambda t: CSMAT(1, 1, lambda i, j: t[0])
    return [one(v), one(w), CSMAT(4, 1, lambda i, j: [u[0], v[0], w[0], x[0]][i])]


@holds('C05', '(lambda s: [s["g"], s["b"], s["g", "x"], s["g", "y", 1], s.cat])'
              '(struct_MX([entry("b", expr=b), entry("g", expr=g, struct=struct([entry("x", shape=n + 1), entry("y", repeat=2)]))]))',
       structures='real', raises='any')
def defined_nested(n: 'nat', b: 'MX[2,1]', g: 'MX[n+3,1]'):
    return [CSMAT(n + 3, 1, lambda i, j: g[i]), CSMAT(2, 1, lambda i, j: b[i]), CSMAT(n + 1, 1, lambda i, j: g[i]),
            CSMAT(1, 1, lambda i, j: g[n + 2]), CSMAT(n + 5, 1, lambda i, j: b[i] if i < 2 else g[i - 2])]


@holds('C05', '[s.keys() for s in [plain(a, b), struct_MX([("b", "a") and (entry("b", expr=b), entry("a", expr=a))])]]', structures='real', raises='any')
def key_order(a: 'MX[2,3]', b: 'MX[2,1]'):
    return [['a', 'b'], ['b', 'a']]


# ------------------------------------------------------------------ assignments
@holds('C05', '((s := plain(a, b)).__setitem__("a", c), told(s))[1]', structures='real', raises='any')
@holds('C05', '((s := plain(c, b)).__setitem__("a", a), s.cat, s.__setitem__("a", c), told(s))[3]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).cat, s.__setitem__("a", c), told(s))[2]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).cat, s["a"], s.__setitem__("a", c), s["b"], told(s))[4]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).__setitem__("a", a), s.cat, s.__setitem__("a", c), told(s))[3]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).cat, s.__setitem__("a", c), s.cat, s.__setitem__("b", b), told(s))[4]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).__setitem__(("a",), c), told(s))[1]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).__setitem__(["a"], [c]), told(s))[1]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).__setitem__(..., [c, b]), told(s))[1]', structures='real', raises='any')
@holds('C05', '((s := plain(a, b)).__setitem__({}, {"b": b, "a": c}), told(s))[1]', structures='real', raises='any')
def replaced(n: 'nat', a: 'MX[2,3]', b: 'MX[n+2,1]', c: 'MX[2,3]'):
    return parts(n, c, b)


@holds('C05', '((s := struct_MX_mutable([entry("a", expr=a), entry("b", expr=b)])).__setitem__("a", c), s["a"], s["b"])[1:]',
       structures='real', raises='any')
@holds('C05', '((s := struct_MX_mutable([entry("a", expr=c), entry("b", expr=b)])).__setitem__("a", a), s["a"], s.__setitem__("a", c), s["a"], s["b"])[3:]',
       structures='real', raises='any')
@holds('C05', '((s := struct_MX_mutable(struct([entry("a", shape=(2, 3)), entry("b", shape=n + 2)]), data=d)).__setitem__("a", c), '
              's.__setitem__("b", b), s["a"], s["b"])[2:]', structures='real', raises='any')
def replaced_mutable(n: 'nat', a: 'MX[2,3]', b: 'MX[n+2,1]', c: 'MX[2,3]', d: 'MX[n+8,1]'):
    return (CSMAT(2, 3, lambda i, j: c[i, j]), CSMAT(n + 2, 1, lambda i, j: b[i]))


@holds('C05', '((s := struct_SX([entry("a", expr=a), entry("b", expr=b)])).__setitem__("a", c), s["a"], s["b"])[1:]',
       structures='real', raises='any')
def replaced_sx(n: 'nat', a: 'SX[2,3]', b: 'SX[n+2,1]', c: 'SX[2,3]'):
    return (CSMAT(2, 3, lambda i, j: c[i, j]), CSMAT(n + 2, 1, lambda i, j: b[i]))


@holds('C05', '((s := struct_MX([entry("a", expr=[a, b]), entry("p", expr=p)])).__setitem__(("a", 1), c), s["a"], s.cat)[1:]', structures='real', raises='any')
@holds('C05', '((s := struct_MX([entry("a", expr=[a, b]), entry("p", expr=p)])).cat, s.__setitem__(("a", -1), c), s["a"], s.cat)[2:]', structures='real', raises='any')
@holds('C05', '((s := struct_MX([entry("a", expr=[b, b]), entry("p", expr=p)])).__setitem__("a", [a, c]), s["a"], s.cat)[1:]', structures='real', raises='any')
@holds('C05', '((s := struct_MX([entry("a", expr=[b, b]), entry("p", expr=p)])).cat, s.__setitem__(("a", slice(None)), [a, c]), s["a"], s.cat)[2:]',
       structures='real', raises='any')
def replaced_in_list(n: 'nat', a: 'MX[n+1,1]', b: 'MX[n+1,1]', c: 'MX[n+1,1]', p: 'MX[1,1]'):
    same = lambda v: CSMAT(n + 1, 1, lambda i, j: v[i])
    return ([same(a), same(c)], CSMAT(2 * n + 3, 1, lambda i, j: a[i] if i < n + 1 else c[i - n - 1] if i < 2 * n + 2 else p[0]))


# ------------------------------------------------------------------ rejected assignments
def kept(s, key, value):
    """Contents after an assignment that may be rejected, and whether it was."""
    try:
        s[key] = value
    except Exception:
        return told(s), True
    return told(s), False


@holds('C05', 'kept(plain(a, b), "c", b)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), "a", b)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), "b", a)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), ("a", 0), b)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), ("a", 0, 0), u)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), ("b", slice(None)), b)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), ("a", "b"), b)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), "b", b.T)', structures='real', raises='any')
@holds('C05', 'kept(plain(a, b), "a", u)', structures='real', raises='any')
def rejected(n: 'nat', a: 'MX[2,3]', b: 'MX[n+2,1]', u: 'MX[1,1]'):
    return parts(n, a, b), True


@holds('C05', 'kept(plain(a, b), "b", c)', structures='real', raises='any')
def other_size(n: 'nat', r: 'nat', c: 'MX[r,1]', a: 'MX[2,3]', b: 'MX[n+2,1]'):
    if r == n + 2:
        return parts(n, a, c), False
    return parts(n, a, b), True


def refused(s, key, value):
    try:
        s[key] = value
    except Exception:
        return True
    return False


def lower(v):
    return cs.MX(cs.Sparsity.lower(3), v)


@holds('C05', 'refused(struct_MX([entry("a", expr=lower(v)), entry("b", expr=b)]), "a", a)', structures='real', raises='any')
@holds('C05', 'refused(struct_MX([entry("a", expr=lower(v)), entry("b", expr=b)]), "a", cs.MX(cs.Sparsity.upper(3), v))', structures='real', raises='any')
@holds('C05', 'refused(struct_MX([entry("a", expr=a), entry("b", expr=b)]), "a", lower(v))', structures='real', raises='any')
@holds('C05', 'refused(struct_MX([entry("a", expr=[a, a]), entry("b", expr=b)]), ("a", 1), lower(v))', structures='real', raises='any')
@holds('C05', 'refused(struct_MX([entry("a", expr=[a, a]), entry("b", expr=b)]), "a", [a, lower(v)])', structures='real', raises='any')
@holds('C05', 'not refused(struct_MX([entry("a", expr=lower(v)), entry("b", expr=b)]), "a", lower(w))', structures='real', raises='any')
def other_pattern(n: 'nat', a: 'MX[3,3]', v: 'MX[6,1]', w: 'MX[6,1]', b: 'MX[n+2,1]'):
    return True


@holds('C05', 'struct_MX([entry("a", expr=lower(v)), entry("b", expr=b)]).cat', structures='real', raises='any')
@holds('C05', '((s := struct_MX([entry("a", expr=lower(w)), entry("b", expr=b)])).__setitem__("a", lower(v)), s.cat)[1]', structures='real', raises='any')
def sparse_parts(n: 'nat', v: 'MX[6,1]', w: 'MX[6,1]', b: 'MX[n+2,1]'):
    return CSMAT(n + 8, 1, lambda i, j: v[i] if i < 6 else b[i - 6])


@holds('C05', 'struct_MX([entry("a", expr=[a, b])])', structures='real', raises='any')
def unequal_list(n: 'nat', a: 'MX[n+1,1]', b: 'MX[n+2,1]'):
    raise Exception()


@holds('C05', 'struct_MX(struct([entry("a", shape=n)])).cat', structures='real', raises='any')
@holds('C05', 'struct_MX(struct([entry("a", shape=n)]))["a"]', structures='real', raises='any')
@holds('C05', '((s := struct_MX(struct([entry("a", shape=n), entry("b")]))).__setitem__("a", v), s.cat)', structures='real', raises='any')
@holds('C05', '((s := struct_MX(struct([entry("a", shape=n), entry("b", repeat=2)]))).__setitem__("a", v), s.__setitem__(("b", 1), u), s.cat)',
       structures='real', raises='any')
@holds('C05', '((s := struct_MX(struct([entry("a", shape=n), entry("b", repeat=2)]))).__setitem__("b", [u, u]), s.cat)', structures='real', raises='any')
def missing(n: 'nat', v: 'MX[n,1]', u: 'MX[1,1]'):
    raise Exception()


@holds('C05', '((s := struct_MX(struct([entry("a", shape=n + 2), entry("b", repeat=2)]))).__setitem__("a", v), s.__setitem__(("b", 1), u), '
              's.__setitem__(("b", 0), w), s["a"], s["b"], s.cat)[3:]', structures='real', raises='any')
@holds('C05', '((s := struct_MX(struct([entry("a", shape=n + 2), entry("b", repeat=2)]))).__setitem__("b", [w, w]), s.__setitem__("a", v), '
              's.__setitem__(("b", 1), u), s["a"], s["b"], s.cat)[3:]', structures='real', raises='any')
def filled(n: 'nat', v: 'MX[n+2,1]', u: 'MX[1,1]', w: 'MX[1,1]'):
    one = lambda t: CSMAT(1, 1, lambda i, j: t[0])
    return (CSMAT(n + 2, 1, lambda i, j: v[i]), [one(w), one(u)], CSMAT(n + 4, 1, lambda i, j: v[i] if i < n + 2 else w[0] if i == n + 2 else u[0]))


@holds('C05', '(lambda s: [s.numel(), s.is_column(), s.is_dense(), s.shape, s.size])(plain(a, b))', structures='real', raises='any')
def sizes(n: 'nat', a: 'MX[2,3]', b: 'MX[n+2,1]'):
    return [n + 8, True, True, (n + 8, 1), n + 8]
