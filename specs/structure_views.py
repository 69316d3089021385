"""Views of matrices whose rows and columns are described by structures."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def part(d, r0, r, c0, c):
    """Block of a matrix."""
    return CSMAT(r, c, lambda i, j: d[r0 + i, c0 + j])


def patched(d, R, C, r0, r, c0, c, f):
    """Matrix with the elements of a block replaced by f(row, column) of the block."""
    return CSMAT(R, C, lambda i, j: f(i - r0, j - c0) if r0 <= i and i < r0 + r and c0 <= j and j < c0 + c else d[i, j])


def rows(n):
    return struct([entry('p', shape=n + 1), entry('q', shape=2), entry('r')])


def cols(m):
    return struct([entry('u', shape=2), entry('v', shape=m + 1)])


# ------------------------------------------------------------------ columns
@holds('C08', '(lambda s: [s[0], s[1, "p"], s[2, "q"], s[-1, "r"], s[:, "r"], s[[2, 0], "q"], s[1, "q", 1]])(rows(n).repeated(d))', structures='real',
       raises='any')
def read_repeated(n: 'nat', d: 'DM[n+4,3]'):
    return [part(d, 0, n + 4, 0, 1), part(d, 0, n + 1, 1, 1), part(d, n + 1, 2, 2, 1), part(d, n + 3, 1, 2, 1),
            [part(d, n + 3, 1, k, 1) for k in range(3)], [part(d, n + 1, 2, 2, 1), part(d, n + 1, 2, 0, 1)], part(d, n + 2, 1, 1, 1)]


@holds('C08', '(lambda s: [s[1, "p"], s[0, "q"], s.cast(), s[2]])(rows(n).repeated(d))', structures='real', raises='any')
def read_repeated_mx(n: 'nat', d: 'MX[n+4,3]'):
    return [part(d, 0, n + 1, 1, 1), part(d, n + 1, 2, 0, 1), CSMAT(n + 4, 3, lambda i, j: d[i, j]),
            part(d, 0, n + 4, 2, 1)]


@holds('C08', '(lambda s: [s[1, "p"], s[0, "q"], s[1]])(rows(n).repeated(d))', structures='real', raises='any')
def read_repeated_sx(n: 'nat', d: 'SX[n+4,2]'):
    return [part(d, 0, n + 1, 1, 1), part(d, n + 1, 2, 0, 1), part(d, 0, n + 4, 1, 1)]


@holds('C08', '((s := rows(n).repeated(d)).__setitem__((0, "q"), w), s.cast())[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).repeated(d)).__setitem__((0, "q"), w), d)[1]', structures='real', raises='any')
def write_first(n: 'nat', d: 'DM[n+4,2]', w: 'DM[2,1]'):
    return patched(d, n + 4, 2, n + 1, 2, 0, 1, lambda i, j: w[i])


@holds('C08', '((s := rows(n).repeated(d)).__setitem__((1, "p"), w), s.cast())[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).repeated(d)).__setitem__((1, "p"), w), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).repeated(d)).__setitem__((-1, "p"), w), d)[1]', structures='real', raises='any')
def write_second(n: 'nat', d: 'DM[n+4,2]', w: 'DM[n+1,1]'):
    return patched(d, n + 4, 2, 0, n + 1, 1, 1, lambda i, j: w[i])


@holds('C08', '((s := rows(n).repeated(d)).__setitem__((slice(None), "r"), [v, w]), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).repeated(d)).__setitem__((0, "r"), v), s.__setitem__((1, "r"), w), d)[2]', structures='real', raises='any')
def write_both(n: 'nat', d: 'DM[n+4,2]', v: 'num', w: 'num'):
    return CSMAT(n + 4, 2, lambda i, j: (v if j == 0 else w) if i == n + 3 else d[i, j])


@holds('C08', '((s := rows(n).repeated(d)).__setitem__((1, "q"), w), s[0, "q"], s[1, "q"], s[1, "p"], s[1, "r"])[1:]', structures='real', raises='any')
def write_then_read(n: 'nat', d: 'DM[n+4,2]', w: 'DM[2,1]'):
    return (part(d, n + 1, 2, 0, 1), CSMAT(2, 1, lambda i, j: w[i]), part(d, 0, n + 1, 1, 1), part(d, n + 3, 1, 1, 1))


@holds('C08', 'rows(n).repeated(d)', structures='real', raises='any')
def wrong_rows(n: 'nat', m: 'nat', d: 'DM[n+m+5,3]'):
    raise Exception()


@holds('C08', 'rows(n).repeated(d)', structures='real', raises='any')
@holds('C08', 'rows(n).repeated(0)', structures='real', raises='any')
@holds('C08', 'rows(n).repeated("a")', structures='real', raises='any')
def wrong_repeated(n: 'nat', d: 'MX[3,n+4]'):
    raise Exception()


# ------------------------------------------------------------------ square blocks
@holds('C08', '(lambda s: [s["p", "q"], s["q", "p"], s["q", "r"], s["r", :], s[:, "q"], s["p", "p"]])(rows(n).squared(d))',
       structures='real', raises='any')
@holds('C08', '(lambda s: [s[index["p"], index["q"]], s[index["q"], index["p"]], s[indexf["q"], indexf["r"]], s["r", :], s[:, "q"], s["p", index["p"]]])'
              '(rows(n).squared(d))', structures='real', raises='any')
def read_squared(n: 'nat', d: 'DM[n+4,n+4]'):
    return [part(d, 0, n + 1, n + 1, 2), part(d, n + 1, 2, 0, n + 1), part(d, n + 1, 2, n + 3, 1), part(d, n + 3, 1, 0, n + 4),
            part(d, 0, n + 4, n + 1, 2), part(d, 0, n + 1, 0, n + 1)]


@holds('C08', '(lambda s: [s["p", "q"], s["q", "p"], s(), s.cast()])(rows(n).squared(d))', structures='real', raises='any')
def read_squared_mx(n: 'nat', d: 'MX[n+4,n+4]'):
    return [part(d, 0, n + 1, n + 1, 2), part(d, n + 1, 2, 0, n + 1), CSMAT(n + 4, n + 4, lambda i, j: d[i, j]),
            CSMAT(n + 4, n + 4, lambda i, j: d[i, j])]


@holds('C08', '(lambda s: [s["p", "q"], s["q", "p"]])(rows(n).squared(d))', structures='real', raises='any')
def read_squared_sx(n: 'nat', d: 'SX[n+4,n+4]'):
    return [part(d, 0, n + 1, n + 1, 2), part(d, n + 1, 2, 0, n + 1)]


@holds('C08', '((s := rows(n).squared(d)).__setitem__(("p", "q"), w), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).squared(d)).__setitem__(("p", "q"), w), s.cast())[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).squared(d)).__setitem__((index["p"], index["q"]), w), d)[1]', structures='real', raises='any')
def write_squared(n: 'nat', d: 'DM[n+4,n+4]', w: 'DM[n+1,2]'):
    return patched(d, n + 4, n + 4, 0, n + 1, n + 1, 2, lambda i, j: w[i, j])


@holds('C08', '((s := rows(n).squared(d)).__setitem__(("q", "p"), w), d)[1]', structures='real', raises='any')
def write_squared_below(n: 'nat', d: 'DM[n+4,n+4]', w: 'DM[2,n+1]'):
    return patched(d, n + 4, n + 4, n + 1, 2, 0, n + 1, lambda i, j: w[i, j])


@holds('C08', '((s := rows(n).squared(d)).__setitem__(("r", "r"), w), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).squared(d)).__setitem__((n + 3, n + 3), w), d)[1]', structures='real', raises='any')
def write_corner(n: 'nat', d: 'DM[n+4,n+4]', w: 'num'):
    return patched(d, n + 4, n + 4, n + 3, 1, n + 3, 1, lambda i, j: w)


@holds('C08', 'rows(n).squared(w)["p", "q"]', structures='real', raises='any')
def squared_number(n: 'nat', w: 'num'):
    return CSMAT(n + 1, 2, lambda i, j: w)


@holds('C08', 'rows(n).squared()["p", "q"]', structures='real', raises='any')
def squared_default(n: 'nat'):
    return CSMAT(n + 1, 2, lambda i, j: 0)


@holds('C08', 'rows(0).squared(d).cast().shape', structures='real', raises='any')
def squared_rows(r: 'nat', d: 'DM[r,4]'):
    if r != 4:
        raise Exception()
    return (4, 4)


@holds('C08', 'rows(0).squared(d).cast().shape', structures='real', raises='any')
def squared_columns(c: 'nat', d: 'DM[4,c]'):
    if c != 4:
        raise Exception()
    return (4, 4)


@holds('C08', 'rows(0).squared(d).cast().shape', structures='real', raises='any')
def squared_vector(c: 'nat', d: 'DM[1,c]'):
    if c != 1:
        raise Exception()
    return (4, 4)


# ------------------------------------------------------------------ rows and columns with different structures
@holds('C08', '(lambda s: [s["p", "u"], s["q", "v"], s["r", "v"], s["r", :], s[:, "v"], s["p", "v"]])(rows(n).product(cols(m), d))',
       structures='real', raises='any')
@holds('C08', '(lambda s: [s[index["p"], index["u"]], s[index["q"], index["v"]], s["r", indexf["v"]], s["r", :], s[:, index["v"]], s["p", "v"]])'
              '(rows(n).product(cols(m), d))', structures='real', raises='any')
def read_product(n: 'nat', m: 'nat', d: 'DM[n+4,m+3]'):
    return [part(d, 0, n + 1, 0, 2), part(d, n + 1, 2, 2, m + 1), part(d, n + 3, 1, 2, m + 1), part(d, n + 3, 1, 0, m + 3),
            part(d, 0, n + 4, 2, m + 1), part(d, 0, n + 1, 2, m + 1)]


@holds('C08', '(lambda s: [s["p", "u"], s["q", "v"], s.cast()])(rows(n).product(cols(m), d))', structures='real', raises='any')
def read_product_mx(n: 'nat', m: 'nat', d: 'MX[n+4,m+3]'):
    return [part(d, 0, n + 1, 0, 2), part(d, n + 1, 2, 2, m + 1), CSMAT(n + 4, m + 3, lambda i, j: d[i, j])]


@holds('C08', '((s := rows(n).product(cols(m), d)).__setitem__(("p", "v"), w), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(n).product(cols(m), d)).__setitem__(("p", "v"), w), s.cast())[1]', structures='real', raises='any')
def write_product(n: 'nat', m: 'nat', d: 'DM[n+4,m+3]', w: 'DM[n+1,m+1]'):
    return patched(d, n + 4, m + 3, 0, n + 1, 2, m + 1, lambda i, j: w[i, j])


@holds('C08', '((s := rows(n).product(cols(m), d)).__setitem__(("q", "u"), w), d)[1]', structures='real', raises='any')
def write_product_number(n: 'nat', m: 'nat', d: 'DM[n+4,m+3]', w: 'num'):
    return patched(d, n + 4, m + 3, n + 1, 2, 0, 2, lambda i, j: w)


@holds('C08', 'rows(0).product(cols(0), d).cast().shape', structures='real', raises='any')
def product_rows(r: 'nat', d: 'DM[r,3]'):
    if r != 4:
        raise Exception()
    return (4, 3)


@holds('C08', 'rows(0).product(cols(0), d).cast().shape', structures='real', raises='any')
def product_columns(c: 'nat', d: 'DM[4,c]'):
    if c != 3:
        raise Exception()
    return (4, 3)


@holds('C08', 'rows(0).product(cols(0), d).cast().shape', structures='real', raises='any')
def product_vector(c: 'nat', d: 'DM[1,c]'):
    if c != 1:
        raise Exception()
    return (4, 3)


@holds('C08', '[rows(n).product(cols(m), w)["q", "v"], rows(n).product(cols(m), w).cast().shape]', structures='real', raises='any')
def product_number(n: 'nat', m: 'nat', w: 'num'):
    return [CSMAT(2, m + 1, lambda i, j: w), (n + 4, m + 3)]


# ------------------------------------------------------------------ repeated square blocks
@holds('C08', '(lambda s: [s[0, "p", "q"], s[1, "q", "p"], s[1, "r", "p"], s[0], s[1], s[:, "q", "q"], s[-1, "q", :]])(rows(1).squared_repeated(d))',
       structures='real', raises='any')
def read_squared_repeated(d: 'DM[5,10]'):
    return [part(d, 0, 2, 2, 2), part(d, 2, 2, 5, 2), part(d, 4, 1, 5, 2), part(d, 0, 5, 0, 5), part(d, 0, 5, 5, 5),
            [part(d, 2, 2, 2, 2), part(d, 2, 2, 7, 2)], part(d, 2, 2, 5, 5)]


@holds('C08', '(lambda s: [s[0, "p", "q"], s[1, "q", "p"], s[1], s.cast()])(rows(1).squared_repeated(d))', structures='real', raises='any')
def read_squared_repeated_mx(d: 'MX[5,10]'):
    return [part(d, 0, 2, 2, 2), part(d, 2, 2, 5, 2), part(d, 0, 5, 5, 5), CSMAT(5, 10, lambda i, j: d[i, j])]


@holds('C08', '((s := rows(1).squared_repeated(d)).__setitem__((1, "q", "p"), w), d)[1]', structures='real', raises='any')
@holds('C08', '((s := rows(1).squared_repeated(d)).__setitem__((1, "q", "p"), w), s.cast())[1]', structures='real', raises='any')
def write_squared_repeated(d: 'DM[5,10]', w: 'DM[2,2]'):
    return patched(d, 5, 10, 2, 2, 5, 2, lambda i, j: w[i, j])


@holds('C08', 'rows(n).squared_repeated(d)', structures='real', raises='any')
def wrong_squared_repeated(n: 'nat', d: 'DM[n+3,n+4]'):
    raise Exception()


@holds('C08', 'rows(1).squared_repeated(d)', structures='real', raises='any')
@holds('C08', 'rows(1).repeated(d)', structures='real', raises='any')
@holds('C08', 'rows(1).squared(d)', structures='real', raises='any')
@holds('C08', 'rows(1).product(cols(1), d)', structures='real', raises='any')
def wrong_columns(d: 'DM[4,9]'):
    raise Exception()
