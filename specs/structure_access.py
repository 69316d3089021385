"""Reading and writing paths of structured objects."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def cut(d, start, r, c):
    """Elements of a column from a position on, filled column by column."""
    return CSMAT(r, c, lambda i, j: d[start + i + r * j])


def plain(m, n):
    return struct([entry('a', shape=(2, m + 2)), entry('b'), entry('c', shape=n + 2)])


@holds('C02', '[plain(m, n)(d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
@holds('C02', '[DMStruct(plain(m, n), data=d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
@holds('C02', '[plain(m, n)(d).prefix[k]() for k in ["a", "b", "c"]]', structures='real', raises='any')
def read_plain(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]'):
    a = 2 * (m + 2)
    return [cut(d, 0, 2, m + 2), cut(d, a, 1, 1), cut(d, a + 1, n + 2, 1)]


@holds('C02', '[plain(m, n)(d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
@holds('C02', '[struct_MX_mutable(plain(m, n), data=d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
def read_plain_mx(m: 'nat', n: 'nat', d: 'MX[2*m+n+7,1]'):
    a = 2 * (m + 2)
    return [cut(d, 0, 2, m + 2), cut(d, a, 1, 1), cut(d, a + 1, n + 2, 1)]


@holds('C02', '[plain(m, n)(d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
@holds('C02', '[struct_SX(plain(m, n), data=d)[k] for k in ["a", "b", "c"]]', structures='real', raises='any')
def read_plain_sx(m: 'nat', n: 'nat', d: 'SX[2*m+n+7,1]'):
    a = 2 * (m + 2)
    return [cut(d, 0, 2, m + 2), cut(d, a, 1, 1), cut(d, a + 1, n + 2, 1)]


@holds('C02', '(lambda s: [s["a", 1, 2], s["a", 1, :], s["a", :, 1], s["a", :, 1:], s["a", 0, -1]])(plain(m, n)(d))', structures='real',
       raises='any')
def read_block(m: 'pos', n: 'nat', d: 'DM[2*m+n+7,1]'):
    return [cut(d, 5, 1, 1), CSMAT(1, m + 2, lambda i, j: d[1 + 2 * j]), cut(d, 2, 2, 1), cut(d, 2, 2, m + 1),
            cut(d, 2 * (m + 2) - 2, 1, 1)]


@holds('C02', '(lambda s: [s["c", 0], s["c", 1:], s["c", -1], s["c", [0, 1]], s["a", 3]])(plain(m, n)(d))', structures='real', raises='any')
def read_elements(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]'):
    c = 2 * (m + 2) + 1
    return [cut(d, c, 1, 1), cut(d, c + 1, n + 1, 1), cut(d, c + n + 1, 1, 1), cut(d, c, 2, 1), cut(d, 3, 1, 1)]


@holds('C02', 'plain(m, n)(d)["a", cs.transpose, :, :]', structures='real', raises='any')
@holds('C02', 'plain(m, n)(d)["a", cs.transpose]', structures='real', raises='any')
def read_turned(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]'):
    return CSMAT(m + 2, 2, lambda i, j: d[j + 2 * i])


@holds('C02', 'plain(m, n)(d)["a", 0, 0, 0]', structures='real', raises='any')
@holds('C02', 'plain(m, n)(d)["x"]', structures='real', raises='any')
@holds('C02', 'plain(m, n)(d)["a", "x"]', structures='real', raises='any')
@holds('C02', '(s := plain(m, n)(d)).__setitem__(("a", 0, 0, 0), 1)', structures='real', raises='any')
@holds('C02', '(s := plain(m, n)(d)).__setitem__("x", 1)', structures='real', raises='any')
@holds('C02', '(s := plain(m, n)(d)).__setitem__(("a", "x"), 1)', structures='real', raises='any')
@holds('C02', 'plain(m, n).i["x"]', structures='real', raises='any')
@holds('C02', 'plain(m, n).f["x"]', structures='real', raises='any')
@holds('C02', 'plain(m, n).f["a", 0, 0, 0]', structures='real', raises='any')
def no_such_path(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]'):
    raise Exception()


def put(d, N, start, n, v):
    """The column d of N elements with n elements from start on replaced."""
    return CSMAT(N, 1, lambda p, q: v(p - start) if start <= p and p < start + n else d[p])


@holds('C02', '((s := plain(m, n)(d)).__setitem__("a", v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := DMStruct(plain(m, n), data=d)).__setitem__(("a", ), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := plain(m, n)(d)).__setitem__(("a", slice(None), slice(None)), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := plain(m, n)(d)).prefix["a"].__setitem__((slice(None), slice(None)), v), s.cat)[1]', structures='real', raises='any')
def write_matrix(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[2,m+2]'):
    return put(d, 2 * m + n + 7, 0, 2 * (m + 2), lambda k: v[k % 2, k // 2])


@holds('C02', '((s := plain(m, n)(d)).__setitem__("c", v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := plain(m, n)(d)).prefix["c"].__setitem__(slice(None), v), s.cat)[1]', structures='real', raises='any')
def write_column(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[n+2,1]'):
    return put(d, 2 * m + n + 7, 2 * m + 5, n + 2, lambda k: v[k])


@holds('C02', '((s := plain(m, n)(d)).__setitem__("c", v), s.cat)[1]', structures='real', raises='any')
def write_scalar(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'num'):
    return put(d, 2 * m + n + 7, 2 * m + 5, n + 2, lambda k: v)


@holds('C02', '((s := plain(m, n)(d)).__setitem__(("a", 1, 2), v), s.cat)[1]', structures='real', raises='any')
def write_cell(m: 'pos', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'num'):
    return CSMAT(2 * m + n + 7, 1, lambda p, q: v if p == 5 else d[p])


@holds('C02', '((s := plain(m, n)(d)).__setitem__(("a", slice(None), 1), v), s.cat)[1]', structures='real', raises='any')
def write_matrix_column(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[2,1]'):
    return put(d, 2 * m + n + 7, 2, 2, lambda k: v[k])


@holds('C02', '((s := plain(m, n)(d)).__setitem__(("a", slice(None), slice(1, None)), v), s.cat)[1]', structures='real', raises='any')
def write_matrix_tail(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[2,m+1]'):
    return put(d, 2 * m + n + 7, 2, 2 * m + 2, lambda k: v[k % 2, k // 2])


@holds('C02', '((s := plain(m, n)(d)).__setitem__(("a", 1, slice(None)), v), (s["a", 0, :], s["a", 1, :], s["b"], s["c"]))[1]', structures='real',
       raises='any')
def write_matrix_row(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[1,m+2]'):
    a = 2 * (m + 2)
    return (CSMAT(1, m + 2, lambda i, j: d[2 * j]), v, cut(d, a, 1, 1), cut(d, a + 1, n + 2, 1))


@holds('C02', '((s := plain(m, n)(d)).__setitem__("c", v), s.cat)[1]', structures='real', raises='any')
def write_wrong_size(m: 'nat', n: 'nat', d: 'DM[2*m+n+7,1]', v: 'DM[n+3,2]'):
    raise Exception()


def nested(n):
    return struct([entry('p', shape=2), entry('s', struct=struct([entry('x', shape=n + 2), entry('y', shape=(2, 3))]), repeat=2), entry('q')])


@holds('C02', '(lambda s: (s["s", 0, "x"], s["s", 1, "y"], s["s", 1], s["q"], s["s", 1, "y", 1, 2]))(nested(n)(d))', structures='real',
       raises='any')
@holds('C02', '(lambda s: (s["s", 0, "x"], s["s", 1, "y"], s["s", 1], s["q"], s["s", 1, "y", 1, 2]))(DMStruct(nested(n), data=d))',
       structures='real', raises='any')
@holds('C02', '(lambda s: (s.prefix["s", 0]["x"], s.prefix["s"][1, "y"], s.prefix["s", 1](), s.prefix["q"](), s.prefix["s", 1, "y"][1, 2]))'
       '(nested(n)(d))', structures='real', raises='any')
def read_nested(n: 'nat', d: 'DM[2*n+19,1]'):
    k = n + 8
    return (cut(d, 2, n + 2, 1), cut(d, 2 + k + n + 2, 2, 3), cut(d, 2 + k, k, 1), cut(d, 2 + 2 * k, 1, 1), cut(d, 2 + k + n + 2 + 5, 1, 1))


@holds('C02', '((s := nested(n)(d)).__setitem__(("s", 1, "x"), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := nested(n)(d)).prefix["s", 1].__setitem__("x", v), s.cat)[1]', structures='real', raises='any')
def write_nested(n: 'nat', d: 'DM[2*n+19,1]', v: 'DM[n+2,1]'):
    return put(d, 2 * n + 19, n + 10, n + 2, lambda k: v[k])


@holds('C02', '((s := nested(n)(d)).__setitem__(("s", 0), v), s.cat)[1]', structures='real', raises='any')
def write_substructure(n: 'nat', d: 'DM[2*n+19,1]', v: 'DM[n+8,1]'):
    return put(d, 2 * n + 19, 2, n + 8, lambda k: v[k])


@holds('C02', '(lambda s: (s["s", 0, "x"], s["s", 1, "y"], s["s", 1], s["q"]))(nested(n)(d))', structures='real', raises='any')
def read_nested_mx(n: 'nat', d: 'MX[2*n+19,1]'):
    k = n + 8
    return (cut(d, 2, n + 2, 1), cut(d, 2 + k + n + 2, 2, 3), cut(d, 2 + k, k, 1), cut(d, 2 + 2 * k, 1, 1))


@holds('C02', '((s := nested(n)(d)).__setitem__(("s", 1, "x"), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := struct_MX_mutable(nested(n), data=d)).__setitem__(("s", 1, "x"), v), s.cat)[1]', structures='real', raises='any')
def write_nested_mx(n: 'nat', d: 'MX[2*n+19,1]', v: 'MX[n+2,1]'):
    return put(d, 2 * n + 19, n + 10, n + 2, lambda k: v[k])


@holds('C02', '((s := nested(n)(d)).__setitem__(("s", 1, "x"), v), (s["p"], s["s", 0], s["s", 1, "x"], s["s", 1, "y"], s["q"]))[1]',
       structures='real', raises='any')
def reread_nested_mx(n: 'nat', d: 'MX[2*n+19,1]', v: 'MX[n+2,1]'):
    k = n + 8
    return (cut(d, 0, 2, 1), cut(d, 2, k, 1), v, cut(d, 2 + k + n + 2, 2, 3), cut(d, 2 + 2 * k, 1, 1))


@holds('C02', '((s := nested(n)(d)).__setitem__(("s", 1, "x"), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := struct_SX(nested(n), data=d)).__setitem__(("s", 1, "x"), v), s.cat)[1]', structures='real', raises='any')
def write_nested_sx(n: 'nat', d: 'SX[2*n+19,1]', v: 'SX[n+2,1]'):
    return put(d, 2 * n + 19, n + 10, n + 2, lambda k: v[k])


@holds('C02', 'nested(n)(d)["s", 2, "x"]', structures='real', raises='any')
@holds('C02', 'nested(n)(d)["s", 0, "z"]', structures='real', raises='any')
@holds('C02', 'nested(n)(d)["s", 0, 0]', structures='real', raises='any')
@holds('C02', 'nested(n)(d).__setitem__(("s", 2, "x"), 1)', structures='real', raises='any')
@holds('C02', 'nested(n)(d).__setitem__(("s", 0, "z"), 1)', structures='real', raises='any')
@holds('C02', 'nested(n)(d).prefix["s", 0]["z"]', structures='real', raises='any')
@holds('C02', 'nested(n)(d).prefix["s", 0].__setitem__("z", 1)', structures='real', raises='any')
@holds('C02', 'nested(n).i["s", 2, "x"]', structures='real', raises='any')
def no_such_nested_path(n: 'nat', d: 'DM[2*n+19,1]'):
    raise Exception()


def inner(n):
    return struct([entry('x', shape=n + 2), entry('y', repeat=2)])


def shaped(n):
    return struct([entry('h'), entry('P', shapestruct=(inner(n), inner(n))), entry('r', shapestruct=inner(n)),
                   entry('W', shapestruct=(2, inner(n)))])


@holds('C02', '(lambda s: (s["P"].shape, s["r"].shape, s["W"].shape))(shaped(n)(d))', structures='real', raises='any')
def shaped_shapes(n: 'nat', d: 'DM[1+(n+4)*(n+4)+(n+4)+2*(n+4),1]'):
    return ((n + 4, n + 4), (n + 4, 1), (2, n + 4))


@holds('C02', '(lambda s: (s["P", "y", "x"], s["P", index["x"], index["y", 1]], s["r", "y"], s["r", index["x"]], s["W", 1, "x"]))(shaped(n)(d))',
       structures='real', raises='any')
@holds('C02', '(lambda s: (s["P", indexf["y"], ["x"]], s["P", indexf["x"], indexf["y", 1]], s["r", indexf["y"]], s["r", "x"], s["W", 1, index["x"]]))'
       '(shaped(n)(d))', structures='real', raises='any')
def read_shaped(n: 'nat', d: 'DM[1+(n+4)*(n+4)+(n+4)+2*(n+4),1]'):
    k = n + 4
    r = 1 + k * k
    w = r + k
    return (CSMAT(2, n + 2, lambda i, j: d[1 + n + 2 + i + k * j]), CSMAT(n + 2, 1, lambda i, j: d[1 + i + k * (n + 3)]),
            CSMAT(2, 1, lambda i, j: d[r + n + 2 + i]), CSMAT(n + 2, 1, lambda i, j: d[r + i]), CSMAT(1, n + 2, lambda i, j: d[w + 1 + 2 * j]))


@holds('C02', '((s := shaped(n)(d)).__setitem__(("P", "x", index["y", 1]), v), (s["h"], s["P", "x", index["y", 1]], s["P", "x", "x"], '
       's["P", "y", index["y", 1]], s["r"]))[1]', structures='real', raises='any')
def write_shaped(n: 'nat', d: 'DM[1+(n+4)*(n+4)+(n+4)+2*(n+4),1]', v: 'DM[n+2,1]'):
    k = n + 4
    return (cut(d, 0, 1, 1), v, CSMAT(n + 2, n + 2, lambda i, j: d[1 + i + k * j]), CSMAT(2, 1, lambda i, j: d[1 + n + 2 + i + k * (n + 3)]),
            CSMAT(k, 1, lambda i, j: d[1 + k * k + i]))


@holds('C02', '((s := shaped(n)(d)).__setitem__(("r", "y"), v), s.cat)[1]', structures='real', raises='any')
@holds('C02', '((s := shaped(n)(d)).__setitem__(("r", indexf["y"]), v), s.cat)[1]', structures='real', raises='any')
def write_shaped_column(n: 'nat', d: 'DM[1+(n+4)*(n+4)+(n+4)+2*(n+4),1]', v: 'DM[2,1]'):
    k = n + 4
    return put(d, 1 + k * k + 3 * k, 1 + k * k + n + 2, 2, lambda q: v[q])


@holds('C02', 'shaped(n)(d)["P", "z", "x"]', structures='real', raises='any')
@holds('C02', 'shaped(n)(d)["W", "x", "x"]', structures='real', raises='any')
@holds('C02', 'shaped(n)(d)["h", "x"]', structures='real', raises='any')
@holds('C02', 'shaped(n)(d)["h", index["x"]]', structures='real', raises='any')
@holds('C02', 'shaped(n)(d)["r", "x", "x"]', structures='real', raises='any')
@holds('C02', 'shaped(n)(d).__setitem__(("W", "x", "x"), 1)', structures='real', raises='any')
def not_shaped(n: 'nat', d: 'DM[1+(n+4)*(n+4)+(n+4)+2*(n+4),1]'):
    raise Exception()


def mirrored(n):
    return struct([entry('a', shape=n + 2), entry('S', shape=(3, 3), type='symm'), entry('b')])


def triangle(d, at):
    """The symmetric matrix whose upper triangle is stored column by column."""
    return [[d[at + (j if i < j else i) * ((j if i < j else i) + 1) // 2 + (i if i < j else j)] for j in range(3)] for i in range(3)]


def all_cells(M):
    return [[M[i, j] for j in range(3)] for i in range(3)]


@holds('C02', 'all_cells(mirrored(n)(d)["S"])', structures='real', raises='any')
@holds('C02', 'all_cells(DMStruct(mirrored(n), data=d)["S"])', structures='real', raises='any')
def read_symmetric(n: 'nat', d: 'DM[n+9,1]'):
    return triangle(d, n + 2)


@holds('C02', 'all_cells(mirrored(n)(d)["S"])', structures='real', raises='any')
def read_symmetric_mx(n: 'nat', d: 'MX[n+9,1]'):
    return triangle(d, n + 2)


@holds('C02', '[mirrored(n)(d)["S", i, j] for i in range(3) for j in range(3) if i <= j]', structures='real', raises='any')
def read_symmetric_cells(n: 'nat', d: 'DM[n+9,1]'):
    t = triangle(d, n + 2)
    return [t[i][j] for i in range(3) for j in range(3) if i <= j]


@holds('C02', '((s := mirrored(n)(d)).__setitem__("S", v), (all_cells(s["S"]), s["a"], s["b"]))[1]', structures='real', raises='any')
def write_symmetric(n: 'nat', d: 'DM[n+9,1]', v: 'DM[3,3]'):
    return ([[v[i, j] if i < j else v[j, i] for j in range(3)] for i in range(3)], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__("S", v), (all_cells(s["S"]), s["a"], s["b"]))[1]', structures='real', raises='any')
def write_symmetric_scalar(n: 'nat', d: 'DM[n+9,1]', v: 'num'):
    return ([[CSMAT(1, 1, lambda i, j: v)] * 3] * 3, cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", 0, 2), v), (all_cells(s["S"]), s["a"], s["b"]))[1]', structures='real', raises='any')
@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", 2, 0), v), (all_cells(s["S"]), s["a"], s["b"]))[1]', structures='real', raises='any')
def write_symmetric_cell(n: 'nat', d: 'DM[n+9,1]', v: 'num'):
    t = triangle(d, n + 2)
    w = CSMAT(1, 1, lambda i, j: v)
    return ([[w if i + j == 2 and i != j else t[i][j] for j in range(3)] for i in range(3)], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(0, 2), slice(0, 2)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_block(n: 'nat', d: 'DM[n+9,1]', v: 'DM[2,2]'):
    t = triangle(d, n + 2)
    return ([[v[0, 0], v[0, 1], t[0][2]], [v[0, 1], v[1, 1], t[1][2]], t[2]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", 0, slice(None)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_row(n: 'nat', d: 'DM[n+9,1]', v: 'DM[1,3]'):
    t = triangle(d, n + 2)
    return ([[v[0], v[1], v[2]], [v[1], t[1][1], t[1][2]], [v[2], t[2][1], t[2][2]]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', 'mirrored(n)(d).__setitem__("S", v)', structures='real', raises='any')
@holds('C02', 'mirrored(n)(d).__setitem__(("S", slice(0, 2), slice(0, 2)), v)', structures='real', raises='any')
def symmetric_mismatch(n: 'nat', d: 'DM[n+9,1]', v: 'DM[3,2]'):
    raise Exception()


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(1, 3), slice(0, 2)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_below(n: 'nat', d: 'DM[n+9,1]', v: 'DM[2,2]'):
    t = triangle(d, n + 2)
    return ([[t[0][0], v[0, 0], v[1, 0]], [v[0, 0], v[0, 1], v[1, 1]], [v[1, 0], v[1, 1], t[2][2]]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(0, 2), slice(1, 3)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_above(n: 'nat', d: 'DM[n+9,1]', v: 'DM[2,2]'):
    t = triangle(d, n + 2)
    return ([[t[0][0], v[0, 0], v[0, 1]], [v[0, 0], v[1, 0], v[1, 1]], [v[0, 1], v[1, 1], t[2][2]]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", 2, slice(None)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(None), 2), v.T), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_last(n: 'nat', d: 'DM[n+9,1]', v: 'DM[1,3]'):
    t = triangle(d, n + 2)
    return ([[t[0][0], t[0][1], v[0]], [t[1][0], t[1][1], v[1]], [v[0], v[1], v[2]]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(1, 3), slice(0, 1)), v), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
@holds('C02', '((s := mirrored(n)(d)).__setitem__(("S", slice(0, 1), slice(1, 3)), v.T), (all_cells(s["S"]), s["a"], s["b"]))[1]',
       structures='real', raises='any')
def write_symmetric_part(n: 'nat', d: 'DM[n+9,1]', v: 'DM[2,1]'):
    t = triangle(d, n + 2)
    return ([[t[0][0], v[0], v[1]], [v[0], t[1][1], t[1][2]], [v[1], t[2][1], t[2][2]]], cut(d, 0, n + 2, 1), cut(d, n + 8, 1, 1))


@holds('C02', 'mirrored(n)(d).__setitem__("S", cs.DM(cs.Sparsity.upper(3), v))', structures='real', raises='any')
@holds('C02', 'mirrored(n)(d).__setitem__("S", cs.DM(cs.Sparsity.lower(3), v))', structures='real', raises='any')
def symmetric_other_pattern(n: 'nat', d: 'DM[n+9,1]', v: 'DM[6,1]'):
    raise Exception()


# ------------------------------------------------------------------ symbolic structures
def symbols(n):
    return [entry("x", shape=n + 3), entry("y", shape=(2, n + 2)), entry("z", shape=2, repeat=2), entry("t", struct=struct([entry("u", shape=2)]))]


@holds('C02', '(lambda s: (s.cat, [s["x", 0], s["x", -1], s["y", 0, :], s["y", 1, n], s["x", :2], s["z", 1, 0], s["t", "u", 1]]))(struct_symMX(symbols(n)))',
       structures='real', raises='any')
def symbolic_cells(n: 'nat'):
    c = cs.MX.sym('V', 3 * n + 13)
    return (c, [cut(c, 0, 1, 1), cut(c, n + 2, 1, 1), CSMAT(1, n + 2, lambda i, j: c[n + 3 + 2 * j]), cut(c, n + 4 + 2 * n, 1, 1), cut(c, 0, 2, 1),
                cut(c, 3 * n + 9, 1, 1), cut(c, 3 * n + 12, 1, 1)])


@holds('C02', '(lambda s: (s.cat, [s["x"], s["y"], s["z", 1], s["t", "u"]]))(struct_symMX(symbols(n)))', structures='real', raises='any')
def symbolic_entries(n: 'nat'):
    c = cs.MX.sym('V', 3 * n + 13)
    return (c, [cut(c, 0, n + 3, 1), cut(c, n + 3, 2, n + 2), cut(c, 3 * n + 9, 2, 1), cut(c, 3 * n + 11, 2, 1)])
