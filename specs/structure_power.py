"""Power indices: selecting several elements of a structure at once and distributing values over them."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def cut(d, start, r, c):
    """Elements of a column from a position on, filled column by column."""
    return CSMAT(r, c, lambda i, j: d[start + i + r * j])


def rep(n):
    return struct([entry('h', shape=2), entry('q', shape=n + 2, repeat=3), entry('t', repeat=[2, 3])])


@holds('C03', '(lambda s: [s["q", 0], s["q", 1], s["q", 2], s["q", -1], s["q", -3]])(rep(n)(d))', structures='real', raises='any')
def one_repetition(n: 'nat', d: 'DM[3*n+14,1]'):
    q = [cut(d, 2 + k * (n + 2), n + 2, 1) for k in range(3)]
    return [q[0], q[1], q[2], q[2], q[0]]


@holds('C03', '(lambda s: [s["q"], s["q", :], s["q", 1:], s["q", :-1], s["q", ::2], s["q", [2, 0]], s["q", [-1]], s["q", []], s["q", -2:]])(rep(n)(d))',
       structures='real', raises='any')
def several_repetitions(n: 'nat', d: 'DM[3*n+14,1]'):
    q = [cut(d, 2 + k * (n + 2), n + 2, 1) for k in range(3)]
    return [q, q, q[1:], q[:2], [q[0], q[2]], [q[2], q[0]], [q[2]], [], q[1:]]


@holds('C03', '(lambda s: [s["t"], s["t", :, :], s["t", 1], s["t", :, 1], s["t", -1, -1], s["t", [1, 0], 1:], s["t", 0, 2], s["t", ::-1, 0]])(rep(n)(d))',
       structures='real', raises='any')
def two_repetitions(n: 'nat', d: 'DM[3*n+14,1]'):
    a = 2 + 3 * (n + 2)
    t = [[cut(d, a + 3 * i + j, 1, 1) for j in range(3)] for i in range(2)]
    return [t, t, t[1], [t[0][1], t[1][1]], t[1][2], [t[1][1:], t[0][1:]], t[0][2], [t[1][0], t[0][0]]]


@holds('C03', '(lambda s: [s["q", :, 0], s["q", 1, 1:], s["q", [0, 2], -1]])(rep(n)(d))', structures='real', raises='any')
def elements_of_repetitions(n: 'nat', d: 'DM[3*n+14,1]'):
    k = n + 2
    return [[cut(d, 2, 1, 1), cut(d, 2 + k, 1, 1), cut(d, 2 + 2 * k, 1, 1)], cut(d, 2 + k + 1, n + 1, 1),
            [cut(d, 2 + k - 1, 1, 1), cut(d, 2 + 3 * k - 1, 1, 1)]]


@holds('C03', '(rep(n).i["q", -1], rep(n).i["t", :, 1], rep(n).f["t", :, 1], rep(n).f["t", -1], rep(n).f["q", [2, 0], 0])', structures='real', raises='any')
def positions_of_repetitions(n: 'nat'):
    a = 2 + 3 * (n + 2)
    at = lambda p: CSMAT(1, 1, lambda i, j: p)
    return (CSMAT(n + 2, 1, lambda i, j: 2 + 2 * (n + 2) + i), [at(a + 1), at(a + 4)], [a + 1, a + 4], [a + 3, a + 4, a + 5],
            [2 + 2 * (n + 2), 2])


def tree(n):
    return struct([entry('a', shape=2), entry('g', struct=struct([entry('x', shape=n + 2), entry('y', repeat=2)])), entry('b', shape=(2, 3))])


@holds('C03', 'tree(n)(d)[...]', structures='real', raises='any')
@holds('C03', 'tree(n)(d)[["a", "g", "b"]]', structures='real', raises='any')
def every_entry(n: 'nat', d: 'DM[n+12,1]'):
    return [cut(d, 0, 2, 1), cut(d, 2, n + 4, 1), cut(d, n + 6, 2, 3)]


@holds('C03', '(lambda s: [s["g", ...], s[["b", "a"]], s["g", ["x"]]])(tree(n)(d))', structures='real', raises='any')
def some_entries(n: 'nat', d: 'DM[n+12,1]'):
    return [[cut(d, 2, n + 2, 1), [cut(d, n + 4, 1, 1), cut(d, n + 5, 1, 1)]], [cut(d, n + 6, 2, 3), cut(d, 0, 2, 1)], [cut(d, 2, n + 2, 1)]]


@holds('C03', '(struct([entry("a"), entry("b", shape=n + 2)], order=["b", "a"])(d)[...], struct([entry("a"), entry("b", shape=n + 2)], '
       'order=["b", "a"]).f[...])', structures='real', raises='any')
def every_entry_in_order(n: 'nat', d: 'DM[n+3,1]'):
    return ([cut(d, 0, n + 2, 1), cut(d, n + 2, 1, 1)], [i for i in range(n + 3)])


@holds('C03', 'tree(n)(d)[{}]', structures='real', raises='any')
@holds('C03', '(lambda r: {k: r[k] for k in ("a", "g", "b") if len(r) == 3})(tree(n)(d)[{"a", "g", "b"}])', structures='real', raises='any')
def named_entries(n: 'nat', d: 'DM[n+12,1]'):
    return {'a': cut(d, 0, 2, 1), 'g': cut(d, 2, n + 4, 1), 'b': cut(d, n + 6, 2, 3)}


@holds('C03', '(lambda s: [s["g", {}], (lambda r: {k: r[k] for k in ("a", "b") if len(r) == 2})(s[{"b", "a"}]), s["g", {"x"}], s["g", {"y"}]])(tree(n)(d))', structures='real', raises='any')
def some_named_entries(n: 'nat', d: 'DM[n+12,1]'):
    y = [cut(d, n + 4, 1, 1), cut(d, n + 5, 1, 1)]
    return [{'x': cut(d, 2, n + 2, 1), 'y': y}, {'a': cut(d, 0, 2, 1), 'b': cut(d, n + 6, 2, 3)}, {'x': cut(d, 2, n + 2, 1)}, {'y': y}]


@holds('C03', 'tree(n)(d)[nesteddict]', structures='real', raises='any')
def all_levels(n: 'nat', d: 'DM[n+12,1]'):
    return {'a': cut(d, 0, 2, 1), 'g': {'x': cut(d, 2, n + 2, 1), 'y': [cut(d, n + 4, 1, 1), cut(d, n + 5, 1, 1)]}, 'b': cut(d, n + 6, 2, 3)}


def grove(n):
    return struct([entry('g', struct=struct([entry('x', shape=n + 2), entry('y')]), repeat=2)])


@holds('C03', '(lambda s: [s[nesteddict], s["g", nesteddict], s["g", 1, nesteddict], s["g", :, {}], s["g", :, "y"], s["g", -1, ...]])(grove(n)(d))',
       structures='real', raises='any')
def repeated_levels(n: 'nat', d: 'DM[2*n+6,1]'):
    k = n + 3
    x = [cut(d, i * k, n + 2, 1) for i in range(2)]
    y = [cut(d, i * k + n + 2, 1, 1) for i in range(2)]
    g = [{'x': x[i], 'y': y[i]} for i in range(2)]
    return [{'g': g}, g, g[1], g, y, [x[1], y[1]]]


def last(v):
    return v[-1]


@holds('C03', '(lambda s: [s["q", last], s[last, "q"], s["q", last, 1:], s["t", last, :, 0], s["t", 1, last], s["q", 0, cs.transpose]])(rep(n)(d))',
       structures='real', raises='any')
def applied(n: 'nat', d: 'DM[3*n+14,1]'):
    a = 2 + 3 * (n + 2)
    q2 = cut(d, 2 + 2 * (n + 2), n + 2, 1)
    return [q2, q2, q2, cut(d, a + 3, 1, 1), cut(d, a + 5, 1, 1), CSMAT(1, n + 2, lambda i, j: d[2 + j])]


@holds('C03', 'rep(n)(d)["q", {}]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", {"x"}]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", "x"]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", None]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", 3]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", [3]]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["q", -4]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)[0]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)[:]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["h":"t"]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)[None]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)["z"]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)[{"z"}]', structures='real', raises='any')
@holds('C03', 'rep(n)(d)[["h", "z"]]', structures='real', raises='any')
@holds('C03', 'rep(n).i["z"]', structures='real', raises='any')
@holds('C03', 'rep(n).i[0]', structures='real', raises='any')
@holds('C03', 'rep(n).f["q", 3]', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__(("q", {}), 1)', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__("z", 1)', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__(0, 1)', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__({}, {"z": 1})', structures='real', raises='any')
def senseless(n: 'nat', d: 'DM[3*n+14,1]'):
    raise Exception()


# ------------------------------------------------------------------ assigning
def put(d, N, start, n, v):
    """The column d of N elements with n elements from start on replaced."""
    return CSMAT(N, 1, lambda p, q: v(p - start) if start <= p and p < start + n else d[p])


@holds('C03', '((s := rep(n)(d)).__setitem__("q", [u, v, w]), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("q", slice(None)), [u, v, w]), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("q", [2, 1, 0]), [u, v, w]), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__("q", (u, v, w)), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
def distributed(n: 'nat', d: 'DM[3*n+14,1]', u: 'DM[n+2,1]', v: 'DM[n+2,1]', w: 'DM[n+2,1]'):
    a = 2 + 3 * (n + 2)
    return (cut(d, 0, 2, 1), [u, v, w], [[cut(d, a + 3 * i + j, 1, 1) for j in range(3)] for i in range(2)])


@holds('C03', '((s := rep(n)(d)).__setitem__("q", repeated(u)), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("q", slice(None)), repeated(u)), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__("q", u), (s["h"], s["q"], s["t"]))[1]', structures='real', raises='any')
def same_for_all(n: 'nat', d: 'DM[3*n+14,1]', u: 'DM[n+2,1]'):
    a = 2 + 3 * (n + 2)
    return (cut(d, 0, 2, 1), [u, u, u], [[cut(d, a + 3 * i + j, 1, 1) for j in range(3)] for i in range(2)])


@holds('C03', '((s := rep(n)(d)).__setitem__("q", u), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__("q", repeated(u)), s.cat)[1]', structures='real', raises='any')
def number_for_all(n: 'nat', d: 'DM[3*n+14,1]', u: 'num'):
    return put(d, 3 * n + 14, 2, 3 * (n + 2), lambda k: u)


@holds('C03', '((s := rep(n)(d)).__setitem__("t", [[a, b, c], [e, f, g]]), s["t"])[1]', structures='real', raises='any')
def distributed_twice(n: 'nat', d: 'DM[3*n+14,1]', a: 'num', b: 'num', c: 'num', e: 'num', f: 'num', g: 'num'):
    return [[CSMAT(1, 1, lambda i, j: v) for v in r] for r in [[a, b, c], [e, f, g]]]


@holds('C03', '((s := rep(n)(d)).__setitem__("t", [repeated(a), [b, c, e]]), s["t"])[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__("t", [a, [b, c, e]]), s["t"])[1]', structures='real', raises='any')
def distributed_mixed(n: 'nat', d: 'DM[3*n+14,1]', a: 'num', b: 'num', c: 'num', e: 'num'):
    return [[CSMAT(1, 1, lambda i, j: v) for v in r] for r in [[a, a, a], [b, c, e]]]


@holds('C03', '((s := rep(n)(d)).__setitem__(("t", slice(None), 1), [a, b]), s["t"])[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("t", [0, 1], -2), [a, b]), s["t"])[1]', structures='real', raises='any')
def distributed_column(n: 'nat', d: 'DM[3*n+14,1]', a: 'num', b: 'num'):
    o = 2 + 3 * (n + 2)
    return [[cut(d, o, 1, 1), CSMAT(1, 1, lambda i, j: a), cut(d, o + 2, 1, 1)], [cut(d, o + 3, 1, 1), CSMAT(1, 1, lambda i, j: b), cut(d, o + 5, 1, 1)]]


@holds('C03', '((s := rep(n)(d)).__setitem__(("q", -1), u), (s["h"], s["q"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("q", 2), u), (s["h"], s["q"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__(("q", [2]), u), (s["h"], s["q"]))[1]', structures='real', raises='any')
def last_repetition(n: 'nat', d: 'DM[3*n+14,1]', u: 'DM[n+2,1]'):
    return (cut(d, 0, 2, 1), [cut(d, 2, n + 2, 1), cut(d, 2 + n + 2, n + 2, 1), u])


@holds('C03', 'rep(n)(d).__setitem__("q", [u, u])', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__("t", [[1, 2, 3]])', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__("t", [[1, 2], [3, 4]])', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__(..., [1, 2])', structures='real', raises='any')
@holds('C03', 'rep(n)(d).__setitem__((["h", "q"], ), [1])', structures='real', raises='any')
def too_short(n: 'nat', d: 'DM[3*n+14,1]', u: 'DM[n+2,1]'):
    raise Exception()


@holds('C03', '((s := tree(n)(d)).__setitem__(..., [u, v, w]), (s["a"], s["g"], s["b"]))[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({}, {"a": u, "g": v, "b": w}), (s["a"], s["g"], s["b"]))[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({}, {"b": w, "g": v, "a": u}), (s["a"], s["g"], s["b"]))[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({"a", "b", "g"}, {"b": w, "g": v, "a": u}), (s["a"], s["g"], s["b"]))[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__((["b", "g", "a"], ), [w, v, u]), (s["a"], s["g"], s["b"]))[1]', structures='real', raises='any')
def by_entry(n: 'nat', d: 'DM[n+12,1]', u: 'DM[2,1]', v: 'DM[n+4,1]', w: 'DM[2,3]'):
    return (u, v, w)


@holds('C03', '((s := tree(n)(d)).__setitem__({}, {"a": u}), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({"a"}, {"a": u}), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({"a"}, {"a": u, "b": 3}), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({"a"}, u), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__(nesteddict, {"a": u}), s.cat)[1]', structures='real', raises='any')
def only_named(n: 'nat', d: 'DM[n+12,1]', u: 'DM[2,1]'):
    return put(d, n + 12, 0, 2, lambda k: u[k])


@holds('C03', '((s := tree(n)(d)).__setitem__(nesteddict, {"a": u, "g": {"x": v, "y": [1, 2]}, "b": w}), (s["a"], s["g", "x"], s["g", "y"], s["b"]))[1]',
       structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__(("g", {}), {"x": v, "y": [1, 2]}), s.__setitem__("a", u), s.__setitem__("b", w), '
       '(s["a"], s["g", "x"], s["g", "y"], s["b"]))[3]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__(("g", ...), [v, [1, 2]]), s.__setitem__("a", u), s.__setitem__("b", w), '
       '(s["a"], s["g", "x"], s["g", "y"], s["b"]))[3]', structures='real', raises='any')
def by_level(n: 'nat', d: 'DM[n+12,1]', u: 'DM[2,1]', v: 'DM[n+2,1]', w: 'DM[2,3]'):
    return (u, v, [CSMAT(1, 1, lambda i, j: 1), CSMAT(1, 1, lambda i, j: 2)], w)


@holds('C03', '((s := tree(n)(d)).__setitem__(..., u), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__({}, u), s.cat)[1]', structures='real', raises='any')
@holds('C03', '((s := tree(n)(d)).__setitem__(nesteddict, u), s.cat)[1]', structures='real', raises='any')
def everything(n: 'nat', d: 'DM[n+12,1]', u: 'num'):
    return CSMAT(n + 12, 1, lambda i, j: u)


@holds('C03', '((s := rep(n)(d)).__setitem__(("q", last), u), (s["h"], s["q"]))[1]', structures='real', raises='any')
@holds('C03', '((s := rep(n)(d)).__setitem__((last, "q"), u), (s["h"], s["q"]))[1]', structures='real', raises='any')
def assigned_through(n: 'nat', d: 'DM[3*n+14,1]', u: 'DM[n+2,1]'):
    return (cut(d, 0, 2, 1), [cut(d, 2, n + 2, 1), cut(d, 2 + n + 2, n + 2, 1), u])


@holds('C03', '((s := tree(n)(d)).__setitem__(("b", cs.transpose), u), s["b"])[1]', structures='real', raises='any')
def assigned_turned(n: 'nat', d: 'DM[n+12,1]', u: 'DM[3,2]'):
    return CSMAT(2, 3, lambda i, j: u[j, i])
