"""Calling a structure with data."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def cut(d, start, r, c):
    """Elements of a column from a position on, filled column by column."""
    return CSMAT(r, c, lambda i, j: d[start + i + r * j])


def plain(n):
    return struct([entry('a', shape=(2, 3)), entry('b', shape=n + 2)])


def told(s):
    """Kind and contents of a structured object."""
    return [type(s).__name__, s.keys(), s.cat, s['a'], s['b']]


def parts(kind, n, d):
    return [kind, ['a', 'b'], cut(d, 0, n + 8, 1), cut(d, 0, 2, 3), cut(d, 6, n + 2, 1)]


# ------------------------------------------------------------------ data of the right size
@holds('C07', 'told(plain(n)(d))', structures='real', raises='any')
@holds('C07', 'told(plain(n).struct(d))', structures='real', raises='any')
@holds('C07', 'told(plain(n)(0)(d))', structures='real', raises='any')
@holds('C07', 'told(DMStruct(plain(n), data=d))', structures='real', raises='any')
@holds('C07', 'told(struct_symMX(plain(n))(d))', structures='real', raises='any')
@holds('C07', 'told(struct_symSX(plain(n))(d))', structures='real', raises='any')
def numeric(n: 'nat', d: 'DM[n+8,1]'):
    return parts('DMStruct', n, d)


@holds('C07', 'told(plain(n)(d))', structures='real', raises='any')
@holds('C07', 'told(struct_MX_mutable(plain(n), data=d))', structures='real', raises='any')
@holds('C07', 'told(struct_symMX(plain(n))(d))', structures='real', raises='any')
def symbolic_mx(n: 'nat', d: 'MX[n+8,1]'):
    return parts('MXStruct', n, d)


@holds('C07', 'told(plain(n)(d))', structures='real', raises='any')
@holds('C07', 'told(struct_SX(plain(n), data=d))', structures='real', raises='any')
@holds('C07', 'told(struct_symSX(plain(n))(d))', structures='real', raises='any')
def symbolic_sx(n: 'nat', d: 'SX[n+8,1]'):
    return parts('SXStruct', n, d)


@holds('C07', 'told(plain(n)(d))', structures='real', raises='any')
@holds('C07', 'told(plain(n)(cs.DM(d)))', structures='real', raises='any')
def from_array(n: 'nat', d: 'np1[n+8]'):
    return parts('DMStruct', n, d)


@holds('C07', 'told(struct([entry("a"), entry("b", repeat=2)])([u, v, w]))', structures='real', raises='any')
def from_list(u: 'num', v: 'num', w: 'num'):
    return ['DMStruct', ['a', 'b'], CSMAT(3, 1, lambda i, j: [u, v, w][i]), CSMAT(1, 1, lambda i, j: u),
            [CSMAT(1, 1, lambda i, j: v), CSMAT(1, 1, lambda i, j: w)]]


@holds('C07', 'plain(n)(d)', structures='real', raises='any')
@holds('C07', 'DMStruct(plain(n), data=d)', structures='real', raises='any')
def other_rows(n: 'nat', m: 'nat', d: 'DM[n+m+9,1]'):
    raise Exception()


@holds('C07', 'plain(n)(d)', structures='real', raises='any')
@holds('C07', 'DMStruct(plain(n), data=d)', structures='real', raises='any')
def other_columns(n: 'nat', m: 'nat', d: 'DM[n+8,m+2]'):
    raise Exception()


@holds('C07', 'plain(n)(d)', structures='real', raises='any')
@holds('C07', 'plain(n)(d.T)', structures='real', raises='any')
@holds('C07', 'struct_MX_mutable(plain(n), data=d)', structures='real', raises='any')
def other_columns_mx(n: 'nat', m: 'nat', d: 'MX[n+8,m+2]'):
    raise Exception()


@holds('C07', 'plain(n)(d).size', structures='real', raises='any')
@holds('C07', 'struct_SX(plain(n), data=d).size', structures='real', raises='any')
def any_size_sx(n: 'nat', r: 'nat', c: 'nat', d: 'SX[r,c]'):
    if r != n + 8 or c != 1:
        raise Exception()
    return n + 8


@holds('C07', 'plain(n)(d).size', structures='real', raises='any')
@holds('C07', 'struct_MX_mutable(plain(n), data=d).size', structures='real', raises='any')
def any_size_mx(n: 'nat', r: 'nat', c: 'nat', d: 'MX[r,c]'):
    if r != n + 8 or c != 1:
        raise Exception()
    return n + 8


@holds('C07', 'plain(n)(d).size', structures='real', raises='any')
def any_size_dm(n: 'nat', r: 'nat', c: 'nat', d: 'DM[r,c]'):
    if (r != n + 8 or c != 1) and (r != 1 or c != 1):
        raise Exception()
    return n + 8


@holds('C07', 'plain(n)(d)', structures='real', raises='any')
def smaller_data(n: 'nat', d: 'DM[n+2,1]'):
    raise Exception()


@holds('C07', 'plain(n)("a")', structures='real', raises='any')
@holds('C07', 'plain(n)(None)', structures='real', raises='any')
@holds('C07', 'plain(n)(["a", "b"])', structures='real', raises='any')
def not_data(n: 'nat'):
    raise Exception()


# ------------------------------------------------------------------ a single number
@holds('C07', 'told(plain(n)(u))', structures='real', raises='any')
@holds('C07', 'told(plain(n)(cs.DM(u)))', structures='real', raises='any')
@holds('C07', 'told(plain(n).struct(u))', structures='real', raises='any')
@holds('C07', 'told(plain(n)([u]))', structures='real', raises='any')
def number_for_all(n: 'nat', u: 'num'):
    d = CSMAT(n + 8, 1, lambda i, j: u)
    return parts('DMStruct', n, d)


@holds('C07', 'told(plain(n)())', structures='real', raises='any')
@holds('C07', 'told(plain(n)(0))', structures='real', raises='any')
def zero_by_default(n: 'nat'):
    d = CSMAT(n + 8, 1, lambda i, j: 0)
    return parts('DMStruct', n, d)


@holds('C07', '(lambda s: [s.cat, s["a"]])(struct(["a"])(u))', structures='real', raises='any')
def single_element(u: 'num'):
    return [CSMAT(1, 1, lambda i, j: u), CSMAT(1, 1, lambda i, j: u)]


@holds('C07', 'struct(["a", "b"])(d)', structures='real', raises='any')
def symbol_not_broadcast(d: 'MX[1,1]'):
    raise Exception()


@holds('C07', 'struct(["a", "b"])(d)', structures='real', raises='any')
def symbol_not_broadcast_sx(d: 'SX[1,1]'):
    raise Exception()


# ------------------------------------------------------------------ dicts
@holds('C07', 'told(plain(n)({"a": a, "b": b}))', structures='real', raises='any')
@holds('C07', 'told(plain(n)({"b": b, "a": a}))', structures='real', raises='any')
@holds('C07', 'told(plain(n)(dict(b=b, a=a)))', structures='real', raises='any')
@holds('C07', 'told(struct_symMX(plain(n))({"b": b, "a": a}))', structures='real', raises='any')
def from_dict(n: 'nat', a: 'DM[2,3]', b: 'DM[n+2,1]'):
    d = [a[0, 0], a[1, 0], a[0, 1], a[1, 1], a[0, 2], a[1, 2]]
    return ['DMStruct', ['a', 'b'], CSMAT(n + 8, 1, lambda i, j: d[i] if i < 6 else b[i - 6]), cut(a, 0, 2, 3), cut(b, 0, n + 2, 1)]


@holds('C07', 'told(plain(n)({"a": a, "b": u}))[3:]', structures='real', raises='any')
def numbers_in_dict(n: 'nat', a: 'DM[2,3]', u: 'num'):
    return [cut(a, 0, 2, 3), CSMAT(n + 2, 1, lambda i, j: u)]


@holds('C07', '(lambda s: [s["p"], s["q"]])(struct([entry("p", repeat=2), entry("q", struct=plain(n))])({"q": d, "p": [u, v]}))',
       structures='real', raises='any')
def dict_of_parts(n: 'nat', d: 'DM[n+8,1]', u: 'num', v: 'num'):
    return [[CSMAT(1, 1, lambda i, j: u), CSMAT(1, 1, lambda i, j: v)], cut(d, 0, n + 8, 1)]


@holds('C07', 'plain(n)({})', structures='real', raises='any')
@holds('C07', 'plain(n)({"a": a})', structures='real', raises='any')
@holds('C07', 'plain(n)({"b": b})', structures='real', raises='any')
@holds('C07', 'plain(n)({"a": a, "b": b, "c": b})', structures='real', raises='any')
@holds('C07', 'plain(n)({"a": a, "c": b})', structures='real', raises='any')
@holds('C07', 'plain(n)({"a": b, "b": a})', structures='real', raises='any')
def other_names(n: 'nat', a: 'DM[2,3]', b: 'DM[n+2,1]'):
    raise Exception()


# ------------------------------------------------------------------ data matrices
@holds('C07', 'plain(n).parseMatrix(d)', structures='real', raises='any')
@holds('C07', 'plain(n).struct.parseMatrix(d)', structures='real', raises='any')
def split_columns(n: 'nat', d: 'np2[n+8,3]'):
    return {'a': CSMAT(2, 9, lambda i, j: d[i + 2 * (j % 3), j // 3]), 'b': CSMAT(n + 2, 3, lambda i, j: d[6 + i, j])}


@holds('C07', '(lambda s: s.parseMatrix(d))(struct([entry("x", shape=n), entry("y"), entry("z", shape=m)]))', structures='real', raises='any')
def split_vectors(n: 'nat', m: 'nat', k: 'pos', d: 'np2[n+m+1,k+1]'):
    return {'x': CSMAT(n, k + 1, lambda i, j: d[i, j]), 'y': CSMAT(1, k + 1, lambda i, j: d[n, j]),
            'z': CSMAT(m, k + 1, lambda i, j: d[n + 1 + i, j])}


@holds('C07', 'plain(n).parseMatrix(d)', structures='real', raises='any')
def split_other_rows(n: 'nat', d: 'np2[n+9,2]'):
    raise Exception()
