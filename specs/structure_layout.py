"""Flat layout of structures: which position every scalar of every entry gets."""
import casadi as cs
from verif import *
from casadi_extras.structure3 import *


def span(start, r, c):
    """Consecutive positions filled column by column."""
    return CSMAT(r, c, lambda i, j: start + i + r * j)


def numbers(start, n):
    return [start + i for i in range(n)]


def plain(m, n):
    return [entry('a', shape=(2, m + 2)), entry('b'), entry('c', shape=n + 2), entry('d', shape=(3, 2))]


@holds('C01', 'struct(plain(m, n)).size', structures='real', raises='any')
@holds('C01', 'struct(plain(m, n)).struct.size', structures='real', raises='any')
@holds('C01', 'struct(plain(m, n)).shape[0]', structures='real', raises='any')
def plain_size(m: 'nat', n: 'nat'):
    return 2 * (m + 2) + 1 + (n + 2) + 6


@holds('C01', '[struct(plain(m, n)).i[k] for k in ["a", "b", "c", "d"]]', structures='real', raises='any')
def plain_positions(m: 'nat', n: 'nat'):
    a = 2 * (m + 2)
    return [span(0, 2, m + 2), span(a, 1, 1), span(a + 1, n + 2, 1), span(a + 1 + n + 2, 3, 2)]


@holds('C01', '[struct(plain(m, n)).f[k] for k in ["a", "b", "c", "d"]]', structures='real', raises='any')
def plain_flat(m: 'nat', n: 'nat'):
    a = 2 * (m + 2)
    return [numbers(0, a), numbers(a, 1), numbers(a + 1, n + 2), numbers(a + 1 + n + 2, 6)]


def inner(n):
    return struct([entry('x', shape=n + 2), entry('u', repeat=2)])


def nested(m, n):
    return [entry('p', shape=m + 2), entry('s', struct=inner(n)), entry('q', shape=2), entry('r', struct=inner(n), repeat=2)]


@holds('C01', 'struct(nested(m, n)).size', structures='real', raises='any')
def nested_size(m: 'nat', n: 'nat'):
    return (m + 2) + (n + 4) + 2 + 2 * (n + 4)


@holds('C01', '(struct(nested(m, n)).i["s", "x"], struct(nested(m, n)).i["s", "u", 0], struct(nested(m, n)).i["s", "u", 1], '
       'struct(nested(m, n)).i["q"], struct(nested(m, n)).i["r", 0, "x"], struct(nested(m, n)).i["r", 1, "x"], '
       'struct(nested(m, n)).i["r", 1, "u", 0])', structures='real', raises='any')
def nested_positions(m: 'nat', n: 'nat'):
    s = m + 2
    q = s + n + 4
    r = q + 2
    return (span(s, n + 2, 1), span(s + n + 2, 1, 1), span(s + n + 3, 1, 1), span(q, 2, 1), span(r, n + 2, 1),
            span(r + n + 4, n + 2, 1), span(r + n + 4 + n + 2, 1, 1))


@holds('C01', '(struct(nested(m, n)).i["s"], struct(nested(m, n)).i["r", 0], struct(nested(m, n)).i["r", 1], '
       'struct(nested(m, n)).i["r"])', structures='real', raises='any')
def nested_enclosing(m: 'nat', n: 'nat'):
    s = m + 2
    r = s + n + 4 + 2
    return (span(s, n + 4, 1), span(r, n + 4, 1), span(r + n + 4, n + 4, 1), [span(r, n + 4, 1), span(r + n + 4, n + 4, 1)])


@holds('C01', '(struct(nested(m, n)).f["s"], struct(nested(m, n)).f["r"], struct(nested(m, n)).f["r", 1], '
       'struct(nested(m, n)).f["r", :, "u"])', structures='real', raises='any')
def nested_flat(m: 'nat', n: 'nat'):
    s = m + 2
    r = s + n + 4 + 2
    u = r + n + 2
    return (numbers(s, n + 4), numbers(r, 2 * (n + 4)), numbers(r + n + 4, n + 4),
            [u, u + 1, u + n + 4, u + n + 5])


def deep(n):
    return [entry('h'), entry('a', struct=struct([entry('b', struct=struct([entry('c', shape=n + 2), entry('d')]), repeat=2), entry('e')]),
                             repeat=2)]


@holds('C01', '[struct(deep(n)).i["a", i, "b", j, "c"] for i in range(2) for j in range(2)]', structures='real', raises='any')
def deep_positions(n: 'nat'):
    c = n + 3
    a = 2 * c + 1
    return [span(1, n + 2, 1), span(1 + c, n + 2, 1), span(1 + a, n + 2, 1), span(1 + a + c, n + 2, 1)]


@holds('C01', '([struct(deep(n)).i["a", i] for i in range(2)], [struct(deep(n)).i["a", i, "b"] for i in range(2)], '
       'struct(deep(n)).i["a", 1, "e"], struct(deep(n)).size)', structures='real', raises='any')
def deep_enclosing(n: 'nat'):
    c = n + 3
    a = 2 * c + 1
    return ([span(1, a, 1), span(1 + a, a, 1)], [[span(1, c, 1), span(1 + c, c, 1)], [span(1 + a, c, 1), span(1 + a + c, c, 1)]],
            span(2 * a, 1, 1), 1 + 2 * a)


def chain(n):
    a = struct([entry('x', shape=n + 2), entry('y')])
    b = struct([entry('v'), entry('a', struct=a)])
    c = struct([entry('b', struct=b), entry('k', shape=2)])
    return [entry('w'), entry('c', struct=c), entry('z')]


@holds('C01', '(lambda s: [s.i["c"], s.i["c", "b"], s.i["c", "b", "a"], s.i["c", "b", "a", "y"], s.i["c", "k"], s.i["z"], s.size])(struct(chain(n)))',
       structures='real', raises='any')
def chain_positions(n: 'nat'):
    return [span(1, n + 6, 1), span(1, n + 4, 1), span(2, n + 3, 1), span(n + 4, 1, 1), span(n + 5, 2, 1), span(n + 7, 1, 1), n + 8]


@holds('C01', '(lambda s: [s.f["c"], s.f["c", "b"], s.f["c", "b", "a"], s.f["c", "b", "a", "x"], s.f[...], s.f["c", ...]])(struct(chain(n)))',
       structures='real', raises='any')
def chain_flat(n: 'nat'):
    return [numbers(1, n + 6), numbers(1, n + 4), numbers(2, n + 3), numbers(2, n + 2), numbers(0, n + 8), numbers(1, n + 6)]


@holds('C01', 'struct(chain(0)).canonicalIndices(0)', structures='real', raises='any')
def chain_names():
    x = ('c', 'b', 'a', 'x')
    return [('w',), ('c', 'b', 'v'), x, x, ('c', 'b', 'a', 'y'), ('c', 'k'), ('c', 'k'), ('z',)]


def branching(n):
    a = struct([entry('x', shape=n + 2), entry('S', shape=(2, 2), type='symm')])
    b = struct([entry('a', struct=a, repeat=[2, 2])])
    return [entry('b', struct=b, repeat=2), entry('g', shape=cs.Sparsity.lower(2)), entry('e', struct=a)]


@holds('C01', '(lambda s: [s.i["b"], s.i["b", 1, "a", 0, 1], s.i["b", 1, "a", 1, 0, "x"], s.i["b", 0, "a", 1, 1, "S"].nz[:], s.i["g"].nz[:], s.i["e"], s.size])'
              '(struct(branching(n)))', structures='real', raises='any')
def branching_positions(n: 'nat'):
    a = n + 5
    return [[span(0, 4 * a, 1), span(4 * a, 4 * a, 1)], span(5 * a, a, 1), span(6 * a, n + 2, 1), span(3 * a + n + 2, 3, 1), span(8 * a, 3, 1),
            span(8 * a + 3, a, 1), 9 * a + 3]


@holds('C01', 'struct(branching(0)).struct.lookuptable[-14:-5]', structures='real', raises='any')
def branching_lookup():
    x, s = ('b', 1, 'a', 1, 1, 'x'), ('b', 1, 'a', 1, 1, 'S')
    return [(('b', 1, 'a', 1, 0, 'S'), 2, (1, 1)), (x, 0, (0, 0)), (x, 1, (1, 0)), (s, 0, (0, 0)), (s, 1, (0, 1)), (s, 2, (1, 1)),
            (('g',), 0, (0, 0)), (('g',), 1, (1, 0)), (('g',), 2, (1, 1))]


def table(m, n):
    return [entry('z'), entry('q', shape=(2, n + 2), repeat=[2, 3]), entry('w', shape=m + 2, repeat=2), entry('v')]


@holds('C01', '[[struct(table(m, n)).i["q", i, j] for j in range(3)] for i in range(2)]', structures='real', raises='any')
@holds('C01', 'struct(table(m, n)).i["q"]', structures='real', raises='any')
def rows_first(m: 'nat', n: 'nat'):
    k = 2 * (n + 2)
    return [[span(1 + (3 * i + j) * k, 2, n + 2) for j in range(3)] for i in range(2)]


@holds('C01', '(struct(table(m, n)).i["w"], struct(table(m, n)).i["v"], struct(table(m, n)).size)', structures='real', raises='any')
def after_table(m: 'nat', n: 'nat'):
    k = 1 + 12 * (n + 2)
    return ([span(k, m + 2, 1), span(k + m + 2, m + 2, 1)], span(k + 2 * (m + 2), 1, 1), k + 2 * (m + 2) + 1)


@holds('C01', '(struct(table(m, n)).f["w"], struct(table(m, n)).f["q", 1], struct(table(m, n)).f["q", :, 1])', structures='real', raises='any')
def flat_table(m: 'nat', n: 'nat'):
    k = 2 * (n + 2)
    return (numbers(1 + 6 * k, 2 * (m + 2)), numbers(1 + 3 * k, 3 * k), numbers(1 + k, k) + numbers(1 + 4 * k, k))


def groups(m, n):
    return [entry('h', shape=2), (entry('p', shape=m + 2, repeat=3), entry('q', shape=(2, n + 2), repeat=2), entry('t')), entry('w')]


@holds('C01', '(struct(groups(m, n)).i["p"], struct(groups(m, n)).i["q"], struct(groups(m, n)).i["t"], struct(groups(m, n)).i["w"])',
       structures='real', raises='any')
def interleaved(m: 'nat', n: 'nat'):
    p = m + 2
    q = 2 * (n + 2)
    p1 = 2 + p + q + 1
    p2 = p1 + p + q
    return ([span(2, p, 1), span(p1, p, 1), span(p2, p, 1)], [span(2 + p, 2, n + 2), span(p1 + p, 2, n + 2)],
            span(2 + p + q, 1, 1), span(p2 + p, 1, 1))


@holds('C01', '(struct(groups(m, n)).size, struct(groups(m, n)).keys())', structures='real', raises='any')
def interleaved_size(m: 'nat', n: 'nat'):
    return (2 + 3 * (m + 2) + 4 * (n + 2) + 2, ['h', 'p', 'q', 't', 'w'])


@holds('C01', '(struct(pair(n)).i["s"], struct(pair(n)).i["q"], struct(pair(n)).i["s", :, "x"])', structures='real', raises='any')
def interleaved_nested(n: 'nat'):
    s = n + 4
    d = s + 2
    return ([span(0, s, 1), span(d, s, 1)], [[span(s, 1, 1), span(s + 1, 1, 1)], [span(s + d, 1, 1), span(s + d + 1, 1, 1)]],
            [span(0, n + 2, 1), span(d, n + 2, 1)])


def ragged(n):
    return [(entry('a'), entry('p', shape=n + 1, repeat=3), entry('q', repeat=1), entry('r', shape=2, repeat=2))]


@holds('C01', '(lambda s: [s.i["a"], s.i["p"], s.i["q"], s.i["r"], s.size])(struct(ragged(n)))', structures='real', raises='any')
def interleaved_ragged(n: 'nat'):
    p = n + 1
    return [span(0, 1, 1), [span(1, p, 1), span(p + 4, p, 1), span(2 * p + 6, p, 1)], [span(p + 1, 1, 1)], [span(p + 2, 2, 1), span(2 * p + 4, 2, 1)], 3 * p + 6]


def pair(n):
    return [(entry('s', struct=inner(n), repeat=2), entry('q', repeat=[2, 2]))]


@holds('C01', '(struct(plain(m, n), order=["d", "b", "a", "c"]).i["a"], struct(plain(m, n), order=["d", "b", "a", "c"]).i["b"], '
       'struct(plain(m, n), order=["d", "b", "a", "c"]).i["c"], struct(plain(m, n), order=["d", "b", "a", "c"]).i["d"], '
       'struct(plain(m, n), order=["d", "b", "a", "c"]).keys(), struct(plain(m, n), order=["d", "b", "a", "c"]).size)',
       structures='real', raises='any')
def ordered(m: 'nat', n: 'nat'):
    a = 2 * (m + 2)
    return (span(7, 2, m + 2), span(6, 1, 1), span(7 + a, n + 2, 1), span(0, 3, 2), ['d', 'b', 'a', 'c'], 7 + a + n + 2)


def symmetric(n):
    return [entry('a', shape=n + 2), entry('S', shape=(3, 3), type='symm'), entry('b', shape=2)]


@holds('C01', '(struct(symmetric(n)).size, struct(symmetric(n)).i["b"], struct(symmetric(n)).i["S"].nz[:])', structures='real', raises='any')
def upper_triangle(n: 'nat'):
    return (n + 10, span(n + 8, 2, 1), span(n + 2, 6, 1))


@holds('C01', '[struct(symmetric(n)).i["S"][i, j] for j in range(3) for i in range(j + 1)]', structures='real', raises='any')
def upper_cells(n: 'nat'):
    return [span(n + 2 + k, 1, 1) for k in range(6)]


def small():
    return [entry('a', shape=(2, 2)), (entry('p', repeat=2), entry('q', shape=2, repeat=2)),
            entry('s', struct=struct([entry('x', shape=2), entry('y')]), repeat=2), entry('S', shape=(2, 2), type='symm')]


@holds('C01', 'struct(small()).canonicalIndices(0)', structures='real', raises='any')
@holds('C01', '[struct(small()).getCanonicalIndex(i, 0) for i in range(19)]', structures='real', raises='any')
def small_names():
    return [('a',)] * 4 + [('p', 0), ('q', 0), ('q', 0), ('p', 1), ('q', 1), ('q', 1), ('s', 0, 'x'), ('s', 0, 'x'), ('s', 0, 'y'),
                           ('s', 1, 'x'), ('s', 1, 'x'), ('s', 1, 'y')] + [('S',)] * 3


@holds('C01', 'struct(small()).canonicalIndices()', structures='real', raises='any')
@holds('C01', '[struct(small()).getCanonicalIndex(i) for i in range(19)]', structures='real', raises='any')
@holds('C01', '[struct(small()).struct.getCanonicalIndex(i, 1) for i in range(19)]', structures='real', raises='any')
def small_running():
    return [('a', 0), ('a', 1), ('a', 2), ('a', 3), ('p', 0, 0), ('q', 0, 0), ('q', 0, 1), ('p', 1, 0), ('q', 1, 0), ('q', 1, 1),
            ('s', 0, 'x', 0), ('s', 0, 'x', 1), ('s', 0, 'y', 0), ('s', 1, 'x', 0), ('s', 1, 'x', 1), ('s', 1, 'y', 0), ('S', 0), ('S', 1),
            ('S', 2)]


@holds('C01', 'struct(small()).canonicalIndices(2)', structures='real', raises='any')
@holds('C01', '[struct(small()).getCanonicalIndex(i, extraMode=2) for i in range(19)]', structures='real', raises='any')
def small_pairs():
    return [('a', 0, 0), ('a', 1, 0), ('a', 0, 1), ('a', 1, 1), ('p', 0, 0, 0), ('q', 0, 0, 0), ('q', 0, 1, 0), ('p', 1, 0, 0),
            ('q', 1, 0, 0), ('q', 1, 1, 0), ('s', 0, 'x', 0, 0), ('s', 0, 'x', 1, 0), ('s', 0, 'y', 0, 0), ('s', 1, 'x', 0, 0),
            ('s', 1, 'x', 1, 0), ('s', 1, 'y', 0, 0), ('S', 0, 0), ('S', 0, 1), ('S', 1, 1)]


@holds('C01', 'struct(small()).labels()', structures='real', raises='any')
@holds('C01', '[struct(small()).getLabel(i) for i in range(19)]', structures='real', raises='any')
def small_labels():
    return ['[a,0]', '[a,1]', '[a,2]', '[a,3]', '[p,0,0]', '[q,0,0]', '[q,0,1]', '[p,1,0]', '[q,1,0]', '[q,1,1]', '[s,0,x,0]', '[s,0,x,1]',
            '[s,0,y,0]', '[s,1,x,0]', '[s,1,x,1]', '[s,1,y,0]', '[S,0]', '[S,1]', '[S,2]']


@holds('C01', 'struct(small()).labels(2)', structures='real', raises='any')
@holds('C01', '[struct(small()).getLabel(i, 2) for i in range(19)]', structures='real', raises='any')
def small_pair_labels():
    return ['[a,0,0]', '[a,1,0]', '[a,0,1]', '[a,1,1]', '[p,0,0,0]', '[q,0,0,0]', '[q,0,1,0]', '[p,1,0,0]', '[q,1,0,0]', '[q,1,1,0]', '[s,0,x,0,0]',
            '[s,0,x,1,0]', '[s,0,y,0,0]', '[s,1,x,0,0]', '[s,1,x,1,0]', '[s,1,y,0,0]', '[S,0,0]', '[S,0,1]', '[S,1,1]']


@holds('C01', 'struct(small()).labels(0)', structures='real', raises='any')
def small_bare_labels():
    return ['[a]'] * 4 + ['[p,0]', '[q,0]', '[q,0]', '[p,1]', '[q,1]', '[q,1]', '[s,0,x]', '[s,0,x]', '[s,0,y]', '[s,1,x]', '[s,1,x]',
                          '[s,1,y]', '[S]', '[S]', '[S]']


def run(n):
    return [entry('a', shape=(2, n + 2)), entry('b', shape=(3, n + 1))]


@holds('C01', 'struct(run(n)).getCanonicalIndex(i)', structures='real', raises='any')
@holds('C01', 'struct(run(n)).struct.getCanonicalIndex(i, 1)', structures='real', raises='any')
def looked_up(n: 'nat', i: 'int'):
    if i < 0 or i >= 2 * (n + 2) + 3 * (n + 1):
        raise Exception()
    if i < 2 * (n + 2):
        return ('a', i)
    return ('b', i - 2 * (n + 2))


@holds('C01', 'struct(run(n)).getCanonicalIndex(i, 0)', structures='real', raises='any')
def looked_up_name(n: 'nat', i: 'int'):
    if i < 0 or i >= 2 * (n + 2) + 3 * (n + 1):
        raise Exception()
    if i < 2 * (n + 2):
        return ('a',)
    return ('b',)


@holds('C01', 'struct(run(n)).getCanonicalIndex(i, 2)', structures='real', raises='any')
def looked_up_cell(n: 'nat', i: 'int'):
    if i < 0 or i >= 2 * (n + 2) + 3 * (n + 1):
        raise Exception()
    if i < 2 * (n + 2):
        return ('a', i % 2, i // 2)
    return ('b', (i - 2 * (n + 2)) % 3, (i - 2 * (n + 2)) // 3)


@holds('C01', '(struct(run(n)).getLabel(i), True)[1]', structures='real', raises='any')
def label_range(n: 'nat', i: 'int'):
    if i < 0 or i >= 2 * (n + 2) + 3 * (n + 1):
        raise Exception()
    return True
