"""Definition of entries and structures."""
import casadi as cs
import numpy as np
from verif import *
from casadi_extras.structure3 import *


def told(e):
    """What an entry says about itself: name, repetitions, shape of the stored pattern, number of stored elements, symmetry, primitive."""
    return [e.name, list(e.dims), e.sparsity.shape, e.sparsity.nnz(), e.type, e.isPrimitive(), e.expr is None, e.sym is None]


def plain(name, dims, r, c):
    return [name, dims, (r, c), r * c, None, True, True, True]


# ------------------------------------------------------------------ shape and repeat
@holds('C04', 'told(entry("a"))', structures='real', raises='any')
def default_entry():
    return plain('a', [], 1, 1)


@holds('C04', 'told(entry("a", shape=n))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=(n,)))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=[n]))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=(n, 1)))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=cs.Sparsity.dense(n, 1)))', structures='real', raises='any')
@holds('C04', 'told(entry(entry("a", shape=n)))', structures='real', raises='any')
def column_entry(n: 'nat'):
    return plain('a', [], n, 1)


@holds('C04', 'told(entry("a", shape=(n, m)))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=[n, m]))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=cs.Sparsity.dense(n, m)))', structures='real', raises='any')
def matrix_entry(n: 'nat', m: 'nat'):
    return plain('a', [], n, m)


@holds('C04', 'told(entry("a", shape=(n, m), repeat=2))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=(n, m), repeat=[2]))', structures='real', raises='any')
def repeated_entry(n: 'nat', m: 'nat'):
    return plain('a', [2], n, m)


@holds('C04', 'told(entry("a", shape=n, repeat=k))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=n, repeat=[k]))', structures='real', raises='any')
def any_repetition(n: 'nat', k: 'nat'):
    return plain('a', [k], n, 1)


@holds('C04', 'told(entry("a", repeat=[2, k, 3]))', structures='real', raises='any')
def several_repetitions(k: 'nat'):
    return plain('a', [2, k, 3], 1, 1)


@holds('C04', 'told(entry("a", shape=cs.Sparsity.upper(3), repeat=2))', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=cs.Sparsity.lower(3), repeat=2))', structures='real', raises='any')
def sparse_entry():
    return ['a', [2], (3, 3), 6, None, True, True, True]


@holds('C04', '(lambda e: [told(e), e.sparsity == cs.Sparsity.upper(3), e.originalsparsity.nnz()])(entry("a", shape=(3, 3), type="symm"))',
       structures='real', raises='any')
def symmetric_entry():
    return [['a', [], (3, 3), 6, 'symm', True, True, True], True, 9]


@holds('C04', '(lambda e: [told(e), e.sparsity == cs.Sparsity.diag(3), e.originalsparsity.nnz()])'
              '(entry("a", shape=cs.Sparsity.lower(3), type="symm", repeat=4))', structures='real', raises='any')
def symmetric_lower():
    return [['a', [4], (3, 3), 3, 'symm', True, True, True], True, 6]


# ------------------------------------------------------------------ nested and row/column structures
def inner(n):
    return struct([entry('x', shape=n + 2), entry('y', repeat=2)])


@holds('C04', '(lambda s: (lambda e: [e.name, e.dims, e.struct is s.struct, e.isPrimitive(), e.shapestruct])(entry("g", struct=s)))(inner(n))',
       structures='real', raises='any')
@holds('C04', '(lambda s: (lambda e: [e.name, e.dims, e.struct is s.struct, e.isPrimitive(), e.shapestruct])(entry("g", struct=s.struct)))'
              '(inner(n))', structures='real', raises='any')
def nested_entry(n: 'nat'):
    return ['g', [], True, False, None]


@holds('C04', '(lambda s: (lambda e: [told(e), e.struct, len(e.shapestruct), e.shapestruct[0] is s.struct, e.shapestruct[1]])'
              '(entry("g", shapestruct=s)))(inner(n))', structures='real', raises='any')
@holds('C04', '(lambda s: (lambda e: [told(e), e.struct, len(e.shapestruct), e.shapestruct[0] is s.struct, e.shapestruct[1]])'
              '(entry("g", shapestruct=(s, 1))))(inner(n))', structures='real', raises='any')
def row_structure(n: 'nat'):
    return [plain('g', [], n + 4, 1), None, 2, True, 1]


@holds('C04', '(lambda s, q: (lambda e: [told(e), e.struct, len(e.shapestruct), e.shapestruct[0] is s.struct, e.shapestruct[1] is q.struct])'
              '(entry("g", shapestruct=(s, q), repeat=3)))(inner(n), inner(m + 1))', structures='real', raises='any')
def two_structures(n: 'nat', m: 'nat'):
    return [plain('g', [3], n + 4, m + 5), None, 2, True, True]


@holds('C04', '(lambda s: (lambda e: [told(e), e.struct, len(e.shapestruct), e.shapestruct[0], e.shapestruct[1] is s.struct])'
              '(entry("g", shapestruct=(m, s))))(inner(n))', structures='real', raises='any')
def number_of_rows(n: 'nat', m: 'nat'):
    return [plain('g', [], m, n + 4), None, 2, m, True]


@holds('C04', '(lambda s: (lambda e: [told(e), e.shapestruct[0] is s.struct])(entry("g", shapestruct=(s, s), shape=cs.Sparsity.diag(6))))(inner(2))',
       structures='real', raises='any')
def pattern_with_structures():
    return [['g', [], (6, 6), 6, None, True, True, True], True]


# ------------------------------------------------------------------ expressions
@holds('C04', '(lambda e: [told(e), e.expr is v])(entry("a", expr=v))', structures='real', raises='any')
def expression_entry(n: 'nat', m: 'nat', v: 'MX[n,m]'):
    return [['a', [], (n, m), n * m, None, True, False, True], True]


@holds('C04', 'told(entry("a", expr=[v, w, v]))', structures='real', raises='any')
def expression_list(n: 'nat', m: 'nat', v: 'MX[n,m]', w: 'MX[n,m]'):
    return ['a', [3], (n, m), n * m, None, True, False, True]


@holds('C04', 'told(entry("a", expr=[[v, w, v], [w, w, v]]))', structures='real', raises='any')
def expression_lists(n: 'nat', m: 'nat', v: 'MX[n,m]', w: 'MX[n,m]'):
    return ['a', [2, 3], (n, m), n * m, None, True, False, True]


@holds('C04', 'told(entry("a", expr=[]))', structures='real', raises='any')
def no_expressions():
    return ['a', [0], (0, 0), 0, None, True, False, True]


@holds('C04', '(lambda s: (lambda e: [e.name, e.dims, e.struct is s.struct, e.expr is v])(entry("g", struct=s, expr=v)))(inner(n))',
       structures='real', raises='any')
def nested_expression(n: 'nat', v: 'MX[n+4,1]'):
    return ['g', [], True, True]


@holds('C04', '(lambda e: [told(e), e.sym is v])(entry("a", sym=v))', structures='real', raises='any')
def symbol_entry(n: 'nat', m: 'nat', v: 'SX[n,m]'):
    if not v.is_valid_input():
        raise Exception()
    return [['a', [], (n, m), n * m, None, True, True, False], True]


# ------------------------------------------------------------------ rejected definitions
@holds('C04', 'entry()', structures='real', raises='any')
@holds('C04', 'entry("a", 3)', structures='real', raises='any')
@holds('C04', 'entry("a", size=n)', structures='real', raises='any')
@holds('C04', 'entry("a", shape=n, name="b")', structures='real', raises='any')
@holds('C04', 'entry("a", shape=n, struct=inner(n))', structures='real', raises='any')
@holds('C04', 'entry("a", struct=inner(n), shapestruct=inner(n))', structures='real', raises='any')
@holds('C04', 'entry("a", sym=w, shape=n)', structures='real', raises='any')
@holds('C04', 'entry("a", sym=w, repeat=2)', structures='real', raises='any')
@holds('C04', 'entry("a", sym=w, expr=v)', structures='real', raises='any')
@holds('C04', 'entry("a", expr=v, shape=n)', structures='real', raises='any')
@holds('C04', 'entry("a", expr=v, repeat=2)', structures='real', raises='any')
@holds('C04', 'entry("a", repeat="b")', structures='real', raises='any')
@holds('C04', 'entry("a", repeat=2.5)', structures='real', raises='any')
@holds('C04', 'entry("a", repeat=[2, "b"])', structures='real', raises='any')
@holds('C04', 'entry("a", repeat=None)', structures='real', raises='any')
@holds('C04', 'entry("a", shape=())', structures='real', raises='any')
@holds('C04', 'entry("a", shape=[])', structures='real', raises='any')
@holds('C04', 'entry("a", shape=(n, n, n))', structures='real', raises='any')
@holds('C04', 'entry("a", shape="b")', structures='real', raises='any')
@holds('C04', 'entry("a", shape=None)', structures='real', raises='any')
@holds('C04', 'entry("a", shapestruct=3)', structures='real', raises='any')
@holds('C04', 'entry("a", shapestruct=[inner(n)])', structures='real', raises='any')
@holds('C04', 'entry("a", shapestruct=())', structures='real', raises='any')
@holds('C04', 'entry("a", shapestruct=(inner(n), "b"))', structures='real', raises='any')
@holds('C04', 'entry("a", shapestruct=(inner(n), 2, 2))', structures='real', raises='any')
@holds('C04', 'entry("a", sym=v)', structures='real', raises='any')
@holds('C04', 'entry("a", sym=d)', structures='real', raises='any')
@holds('C04', 'entry("a", sym="b")', structures='real', raises='any')
@holds('C04', 'entry("a", expr="b")', structures='real', raises='any')
@holds('C04', 'entry("a", expr=[["b"]])', structures='real', raises='any')
@holds('C04', 'entry("a", type="full")', structures='real', raises='any')
@holds('C04', 'entry("a", type=None)', structures='real', raises='any')
def rejected(n: 'nat', v: 'MX[n,1]', w: 'SX[n,1]', d: 'DM[n,1]'):
    raise Exception()


@holds('C04', 'told(entry("a", shape=(n, m), type="symm"))[:1]', structures='real', raises='any')
@holds('C04', 'told(entry("a", shape=(n, m), type="symm", repeat=2))[:1]', structures='real', raises='any')
def square_only(n: 'nat', m: 'nat'):
    if n != m:
        raise Exception()
    return ['a']


# ------------------------------------------------------------------ entry lists
def order_of(s):
    return [list(s.keys()), list(s.struct.keys()), s.size, [s.getCanonicalIndex(i, 0) for i in range(s.size)]]


@holds('C04', 'order_of(struct([entry("a"), entry("b", repeat=2), entry("c")]))', structures='real', raises='any')
@holds('C04', 'order_of(struct(["a", entry("b", repeat=2), "c"]))', structures='real', raises='any')
@holds('C04', 'order_of(struct([entry("c"), entry("b", repeat=2), entry("a")], order=["a", "b", "c"]))', structures='real', raises='any')
@holds('C04', 'order_of(struct([entry("c"), entry("a"), entry("b", repeat=2)], order=["a", "b", "c"]))', structures='real', raises='any')
def declared_order():
    return [['a', 'b', 'c'], ['a', 'b', 'c'], 4, [('a',), ('b', 0), ('b', 1), ('c',)]]


@holds('C04', 'order_of(struct([entry("a", repeat=2), (entry("b", repeat=2), entry("c", repeat=2))]))', structures='real', raises='any')
@holds('C04', 'order_of(struct([entry("c", repeat=2), entry("b", repeat=2), entry("a", repeat=2)], order=["a", ("b", "c")]))', structures='real',
       raises='any')
def grouped_order():
    return [['a', 'b', 'c'], ['a', 'b', 'c'], 6, [('a', 0), ('a', 1), ('b', 0), ('c', 0), ('b', 1), ('c', 1)]]


@holds('C04', 'struct([entry("a"), entry("a")])', structures='real', raises='any')
@holds('C04', 'struct(["a", "b", "a"])', structures='real', raises='any')
@holds('C04', 'struct([entry("a"), (entry("b"), entry("a"))])', structures='real', raises='any')
@holds('C04', 'struct([(entry("b"), entry("b"))])', structures='real', raises='any')
@holds('C04', 'struct([entry("a"), entry("a")], order=["a", "a"])', structures='real', raises='any')
@holds('C04', 'struct([entry("b"), entry("a"), entry("a", shape=n)], order=["a", "b"])', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("b"), entry("a"), entry("a", shape=n)], order=["a", "b"])', structures='real', raises='any')
@holds('C04', 'struct([entry("a"), entry("b")], order=["a", "c"])', structures='real', raises='any')
@holds('C04', 'struct([entry("a"), entry("b")], order=["a", ("b", "c")])', structures='real', raises='any')
@holds('C04', 'struct([entry("a"), (entry("b"), entry("c"))], order=["a", "b", "c"])', structures='real', raises='any')
@holds('C04', 'struct(entry("a"))', structures='real', raises='any')
@holds('C04', 'struct("a")', structures='real', raises='any')
@holds('C04', 'struct((entry("a"), entry("b")))', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("a"), entry("a")])', structures='real', raises='any')
@holds('C04', 'struct_symSX([entry("a"), entry("a")])', structures='real', raises='any')
@holds('C04', 'struct_MX([entry("a", expr=v), entry("a", expr=v)])', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("a"), entry("b")], order=["a", "c"])', structures='real', raises='any')
@holds('C04', 'struct_symSX([entry("a"), entry("b")], order=["a", "c"])', structures='real', raises='any')
@holds('C04', 'struct_MX([entry("a", expr=v), entry("b", expr=v)], order=["a", "c"])', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("a", expr=v)])', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("b"), entry("a", expr=v)])', structures='real', raises='any')
@holds('C04', 'struct_symMX([entry("b"), entry("a", sym=w)])', structures='real', raises='any')
@holds('C04', 'struct_symSX([entry("b"), entry("a", expr=w)])', structures='real', raises='any')
@holds('C04', 'struct_MX([entry("a", expr=v), entry("b", shape=n)])', structures='real', raises='any')
@holds('C04', 'struct_MX([entry("a")])', structures='real', raises='any')
@holds('C04', 'struct_SX([entry("a", expr=w), entry("b")])', structures='real', raises='any')
@holds('C04', 'struct_MX_mutable([entry("a", expr=v), entry("b")])', structures='real', raises='any')
@holds('C04', 'DMStruct([entry("a")])', structures='real', raises='any')
def rejected_lists(n: 'nat', v: 'MX[n,1]', w: 'SX[n,1]'):
    raise Exception()


@holds('C04', '(lambda s: [s.keys(), s.size, s.shape, s.sparsity().nnz(), s.master.shape])(struct_symSX([entry("a", shape=(2, n + 1)), entry("b", repeat=2)]))',
       structures='real', raises='any')
@holds('C04', '(lambda s: [s.keys(), s.size, s.shape, s.sparsity().nnz(), s.master.shape])(struct_symMX([entry("a", shape=(2, n + 1)), entry("b", repeat=2)]))',
       structures='real', raises='any')
def symbolic_sizes(n: 'nat'):
    return [['a', 'b'], 2 * n + 4, (2 * n + 4, 1), 2 * n + 4, (2 * n + 4, 1)]


@holds('C04', '(lambda q: (lambda s: s.getStruct("g") is q.struct)(struct([entry("g", struct=q), entry("x")])))(inner(n))', structures='real', raises='any')
def nested_structure(n: 'nat'):
    return True
