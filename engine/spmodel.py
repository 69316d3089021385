"""Sparsity patterns and matrices as mutable cells, as far as the structure code uses them.

A pattern is sp(rows, cols) (dense), spc(rows, cols, cells) (known cells, in storage order), spupper(n), spmul(a, b) or an
opaque symbol; a matrix with a pattern that is not
dense is spmat(pattern, column of its stored elements).  The stored elements of a dense matrix are numbered column by
column.  Reading and writing through a matrix of positions follows casadi: the result has the shape of the positions,
except that a row of positions on a column gives a column; a store accepts a scalar, the shape of the positions, or a
transposed vector.
"""
from terms import *
import terms as tm
import arrays as ar
import seqs
from arrays import mk, elem, dim, as_arr, is_arr

KINDS = ('DM', 'MX', 'SX')


# ------------------------------------------------------------------ patterns
def is_sp(t):
    return t.op in ('sp', 'spc', 'spupper', 'spmul', 'spv') or t.op == 'sym' and t.args[1] == 'sparsity' \
        or t.op == 'ite' and is_sp(t.args[1]) and is_sp(t.args[2])


def rows(s):
    if s.op in ('sp', 'spc', 'spupper'):
        return s.args[0]
    if s.op == 'spmul':
        return rows(s.args[0])
    if s.op == 'spv':
        return add(*[rows(x) for x in s.args[0]])
    return raw('meth', 'size1', s)


def cols(s):
    if s.op in ('sp', 'spc'):
        return s.args[1]
    if s.op == 'spupper':
        return s.args[0]
    if s.op == 'spmul':
        return cols(s.args[0])
    if s.op == 'spv':
        return ONE
    return raw('meth', 'size2', s)


def nnz(s):
    if s.op == 'sp':
        return mul(*s.args)
    if s.op == 'spc':
        return num(len(s.args[2]))
    if s.op == 'spupper':
        n = s.args[0]
        return tm.idiv(mul(n, add(n, ONE)), num(2)) if n.op == 'num' else raw('meth', 'nnz', s)
    if s.op == 'spv':
        return add(*[nnz(x) for x in s.args[0]])
    return raw('meth', 'nnz', s)


def dense(r, c):
    return raw('sp', r, c)


def cells(s):
    """(row, column) pairs of the stored elements in storage order, if they are known."""
    if s.op == 'spc':
        return list(s.args[2])
    if s.op == 'sp' and all(x.op == 'num' for x in s.args) and s.args[0].args[0] * s.args[1].args[0] <= 64:
        r, c = (int(x.args[0]) for x in s.args)
        return [(i, j) for j in range(c) for i in range(r)]
    return None


def of_cells(r, c, xs):
    xs = sorted(set(xs), key=lambda x: (x[1], x[0]))
    if len(xs) == r * c:
        return dense(num(r), num(c))
    return raw('spc', num(r), num(c), tuple(xs))


def size(s):
    return int(rows(s).args[0]), int(cols(s).args[0])


def upper(n):
    if n.op == 'num' and n.args[0] <= 8:
        n = int(n.args[0])
        return of_cells(n, n, [(i, j) for j in range(n) for i in range(j + 1)])
    return raw('spupper', n)


def product(a, b):
    """Intersection of two patterns."""
    if cells(a) is not None and cells(b) is not None and size(a) == size(b):
        return of_cells(*size(a), set(cells(a)) & set(cells(b)))
    if b.op == 'sp' and a.op == 'spupper':
        a, b = b, a
    if a.op == 'sp' and b.op == 'spupper' and a.args[0] is b.args[0] and a.args[1] is b.args[0]:
        return b
    if a.op == 'sp' and b is a:
        return a
    return raw('spmul', *sorted((a, b), key=key))


def equal(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        return lift(equal, a, b)
    if cells(a) is not None and cells(b) is not None:
        return FALSE
    if 'spc' in (a.op, b.op) and 'sp' in (a.op, b.op):
        return FALSE
    if a.op == 'sp' and b.op == 'sp':
        return and_(tm.eq(a.args[0], b.args[0]), tm.eq(a.args[1], b.args[1]))
    return raw('eq', *sorted((a, b), key=key))


# ------------------------------------------------------------------ matrices
def is_matrix(v):
    return v.op == 'spmat' or is_arr(v) and ar.lib_of(v) == 'cs' or v.op == 'ite' and all(is_matrix(x) for x in leaves(v))


def column(n, f):
    return mk('cs', (n, ONE), lambda i, j: f(i))


def column_of(xs):
    """Column with the given elements."""
    if not xs:
        return column(ZERO, lambda i: ZERO)
    st = seqs.step(xs)

    def f(i):
        if i.op == 'num':
            return xs[int(i.args[0])]
        if st is not None:
            return add(xs[0], mul(st, i))
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = ite(tm.eq(i, num(k)), xs[k], r)
        return r
    return column(num(len(xs)), f)


def listed(m):
    """{(row, column): element} of a matrix whose stored cells are known."""
    s = pattern(m)
    cs_ = cells(s)
    if cs_ is None:
        return None
    if m.op == 'spmat':
        col = as_arr(m.args[1])
        return {c: elem(col, (num(k), ZERO)) for k, c in enumerate(cs_)}
    a = as_arr(m)
    return {c: elem(a, (num(c[0]), num(c[1]))) for c in cs_}


def of_listed(r, c, d):
    s = of_cells(r, c, list(d))
    return with_pattern(s, column_of([d[x] for x in cells(s)]))


def project(m, s):
    """The matrix on another pattern; cells that m does not store become zero."""
    d = listed(m)
    if d is None or cells(s) is None or size(pattern(m)) != size(s):
        return None
    return with_pattern(s, column_of([d.get(c, ZERO) for c in cells(s)]))


def transpose(m):
    if m.op != 'spmat':
        return ar.transpose(as_arr(m))
    d = listed(m)
    if d is None:
        return None
    r, c = size(pattern(m))
    return of_listed(c, r, {(j, i): v for (i, j), v in d.items()})


def symmetric(m):
    """triu2symm"""
    d = listed(m)
    if d is None:
        return None
    r, c = size(pattern(m))
    if r != c or any(i > j for i, j in d):
        return None
    return of_listed(r, c, {**d, **{(j, i): v for (i, j), v in d.items()}})


def picks(sel, n):
    """Concrete positions selected along a direction of n elements, or None."""
    k = lambda x: int(x.args[0])
    if sel[0] == 'i' and sel[1].op == 'num':
        return [k(sel[1]) % n] if -n <= k(sel[1]) < n else None
    if sel[0] == 's' and all(x is None or x.op == 'num' for x in sel[1:]):
        return list(range(n))[slice(*[None if x is None else k(x) for x in sel[1:]])]
    if sel[0] == 'a' and dim(sel[1], 0).op == 'num':
        xs = [elem(as_arr(sel[1]), (num(q),)) for q in range(k(dim(sel[1], 0)))]
        return [k(x) % n for x in xs] if all(x.op == 'num' and -n <= k(x) < n for x in xs) else None
    return None


def block(m, sels):
    """Rows and columns of a matrix whose stored cells are known."""
    d = listed(m)
    if d is None:
        return None
    r, c = size(pattern(m))
    ri, ci = picks(sels[0], r), picks(sels[1], c)
    if ri is None or ci is None:
        return None
    return of_listed(len(ri), len(ci), {(a, b): d[i, j] for a, i in enumerate(ri) for b, j in enumerate(ci) if (i, j) in d})


def stored(m):
    """Column of the stored elements of a matrix."""
    if m.op == 'spmat':
        return m.args[1]
    a = as_arr(m)
    r, c = a.args[1]
    if c is ONE:
        return m
    return column(mul(r, c), lambda e: elem(a, (tm.imod(e, r), tm.idiv(e, r))))


def pattern(m):
    if m.op == 'spmat':
        return m.args[0]
    return dense(dim(m, 0), dim(m, 1))


def with_pattern(s, v):
    """Matrix with the pattern s and the stored elements v (a column)."""
    if v.op == 'unknown':
        return v
    if s.op == 'ite':
        return lift(lambda x: with_pattern(x, v), s)
    if s.op == 'sp':
        r, c = s.args
        if c is ONE and dim(v, 0) is r:
            return v
        a = as_arr(v)
        return mk('cs', (r, c), lambda i, j: elem(a, (add(i, mul(j, r)), ZERO)))
    return raw('spmat', s, v)


def positions(flow, s, what):
    """Row or column numbers of the stored elements, in storage order, as a list."""
    if s.op == 'spc':
        return flow.new_list(seqs.mk_list([num(x[0 if what == 'row' else 1]) for x in s.args[2]]))
    n = nnz(s)
    b = fresh_bv(n)
    if s.op == 'sp':
        e = tm.imod(b, s.args[0]) if what == 'row' else tm.idiv(b, s.args[0])
    else:
        e = raw('numof', raw('item', raw('meth', what, s), b))
    return flow.new_list(seqs.mk_seq(n, lam((b,), e)))


def sparsity_method(flow, s, name, args):
    if args:
        return raw('meth', name, s, *[flow.frozen(a) for a in args])
    if name == 'nnz':
        return nnz(s)
    if name == 'size1':
        return rows(s)
    if name == 'size2':
        return cols(s)
    if name in ('row', 'get_col'):
        return positions(flow, s, 'row' if name == 'row' else 'col')
    if name == 'numel':
        return mul(rows(s), cols(s))
    if name == 'is_dense':
        return TRUE if s.op == 'sp' else FALSE if s.op == 'spc' else raw('meth', 'is_dense', s)
    if name == 'dim':
        return string('') if False else raw('meth', 'dim', s)
    if name == 'find' and s.op == 'spc':
        r, c = size(s)
        return flow.new_list(seqs.mk_list([num(i + r * j) for i, j in s.args[2]]))
    if name == 'T' and cells(s) is not None:
        return of_cells(*size(s)[::-1], [(j, i) for i, j in cells(s)])
    if name == 'find' and s.op == 'sp':
        n = nnz(s)
        b = fresh_bv(n)
        return flow.new_list(seqs.mk_seq(n, lam((b,), b)))
    if name in REGIONS and s.op in ('sp', 'spc'):
        if cells(s) is not None:
            return num(sum(1 for i, j in cells(s) if REGIONS[name](i, j)))
        r, c = s.args[:2]
        if c is ONE:
            return r if name == 'nnz_lower' else tm.ite(tm.lt(ZERO, r), ONE, ZERO)
        if r is c:
            return r if name == 'nnz_diag' else tm.idiv(mul(r, add(r, ONE)), num(2))
    r = shape_test(name, rows(s), cols(s))
    if r is not None:
        return r
    if name == 'shape':
        return None
    return raw('meth', name, s)


def shape_test(name, r, c):
    """Predicates of casadi that depend on the shape alone; None if not one of these."""
    if name == 'is_scalar':
        return and_(tm.eq(r, ONE), tm.eq(c, ONE))
    if name == 'is_column':
        return tm.eq(c, ONE)
    if name == 'is_row':
        return tm.eq(r, ONE)
    if name == 'is_vector':
        return tm.or_(tm.eq(r, ONE), tm.eq(c, ONE))
    if name == 'is_square':
        return tm.eq(r, c)
    if name == 'is_empty':
        return tm.or_(tm.eq(r, ZERO), tm.eq(c, ZERO))
    return None


REGIONS = {'nnz_upper': lambda i, j: i <= j, 'nnz_lower': lambda i, j: i >= j, 'nnz_diag': lambda i, j: i == j}


def method(flow, recv, name, args, kw):
    """Methods of patterns, matrix cells and slices; None if not one of these."""
    if recv.op == 'slice':
        return slice_indices(flow, recv, args[0]) if name == 'indices' and len(args) == 1 else None
    if is_sp(recv):
        return lift(lambda s: sparsity_method(flow, s, name, args), recv)
    v = flow.unbox(recv)
    if v.op == 'ite' and not is_arr(v):
        return None
    if name == '__getitem__' and len(args) == 1:
        return flow.getitem(recv, args[0])
    if name == '__setitem__' and len(args) == 2 and flow.is_box(recv):
        flow.setitem(recv, args[0], args[1])
        return NONE
    if not is_matrix(v):
        return None
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else raw('tuple', *args)
        return flow.box(reshape(flow, v, sh), flow.mat_kind(recv))
    if kw or args:
        return None
    if name == 'sparsity':
        return lift(pattern, v)
    if name == 'is_dense':
        return TRUE if v.op != 'spmat' else sparsity_method(flow, v.args[0], name, args)
    if name == 'nonzeros':
        return flow.new_list(flow.seq_of(flat1(v)))
    if name in ('nnz', 'dim', 'size1', 'size2', 'numel'):
        return sparsity_method(flow, pattern(v), name, args)
    if v.op == 'ite':
        return None
    return shape_test(name, rows(pattern(v)), cols(pattern(v)))


def attr(flow, recv, name):
    if is_sp(recv):
        if name == 'shape':
            return lift(lambda s: raw('tuple', rows(s), cols(s)), recv)
        return raw('matm', name, recv)
    v = flow.unbox(recv)
    if name == 'nz':
        return raw('nzview', recv)
    if name == 'shape':
        return lift(lambda m: raw('tuple', rows(pattern(m)), cols(pattern(m))), v)
    if name == 'T':
        return flow.box(lift(lambda m: transpose(m) or flow.unk('transpose of a sparse matrix'), v), flow.mat_kind(recv))
    return raw('matm', name, recv)


ATTRS = {'sparsity', 'shape', 'T', 'nz', 'size1', 'size2', 'nnz', 'numel', 'dim', 'is_dense', 'is_scalar', 'is_column', 'is_row', 'is_vector', 'is_square', 'is_empty', 'reshape',
         '__add__', '__getitem__', '__setitem__', 'is_empty', 'is_square', 'is_valid_input', 'size'}


def flat1(v):
    s = stored(v)
    a = as_arr(s)
    return mk('np', (dim(s, 0),), lambda i: elem(a, (i, ZERO)))


def slice_indices(flow, s, n):
    lo, hi, st = s.args
    if st is NONE or st is ONE:
        b = ar.slice_bounds(lo, hi, st, n)
        return raw('tuple', b[0], add(b[0], b[1]), ONE)
    if st.op == 'num':
        if n.op == 'num' and all(x is NONE or x.op == 'num' for x in s.args):
            r = slice(*[None if x is NONE else int(x.args[0]) for x in s.args]).indices(int(n.args[0]))
            return raw('tuple', *[num(x) for x in r])
        if st is MINUS_ONE and lo is NONE and hi is NONE:
            return raw('tuple', sub(n, ONE), MINUS_ONE, MINUS_ONE)
    return flow.unk('slice with a step')


def reshape(flow, v, shape):
    c = list(shape.args) if shape.op == 'tuple' else seqs.concrete(flow.content(shape))
    if c is None or len(c) != 2:
        return flow.unk('reshape')

    def f(m):
        if m.op == 'spmat':
            s = m.args[0]
            return m if rows(s) is c[0] and cols(s) is c[1] else flow.unk('reshape of a sparse matrix')
        if dim(m, 0) is c[0] and dim(m, 1) is c[1]:
            return m
        flow.raise_(not_(tm.eq(mul(dim(m, 0), dim(m, 1)), mul(*c))), string('RuntimeError'))
        return with_pattern(dense(*c), stored(m))
    return flow.on_value(v, f)


# ------------------------------------------------------------------ reading and writing elements
def selector(flow, i):
    """('i', term), ('s', lo, hi, step), ('a', array of positions), ('x', matrix of positions), or None."""
    if flow.is_box(i) or is_matrix(i):
        return ('x', flow.unbox(i))
    if i.op == 'slice':
        return ('s',) + tuple(None if x is NONE else x for x in i.args)
    c = flow.content(i)
    if seqs.is_seq(c) or c.op == 'tuple':
        a = flow.lib.to_array(flow, i)
        if is_arr(a) and a.op == 'arr' and ar.ndim(a) == 1 and not is_boolish(a.args[2].args[1]):
            return ('a', a)
        return None
    if is_arr(i):
        return ('a', as_arr(i)) if ar.ndim(i) == 1 else None
    if is_numeric(i):
        return ('i', i)
    return None


def gather(m, idx):
    """Elements of a column m at a matrix of positions."""
    a = as_arr(m)
    if idx.op == 'spmat':
        x = as_arr(idx.args[1])
        return raw('spmat', idx.args[0], column(dim(idx.args[1], 0), lambda e: elem(a, (elem(x, (e, ZERO)), ZERO))))
    x = as_arr(idx)
    r, c = x.args[1]
    if r is ONE and c is not ONE:
        return column(c, lambda e: elem(a, (elem(x, (ZERO, e)), ZERO)))
    full = mk('cs', (r, c), lambda i, j: elem(a, (elem(x, (i, j)), ZERO)))
    if c is ONE or tm.eq(r, ONE) is FALSE:
        return full
    return ite(tm.eq(r, ONE), column(c, lambda e: elem(a, (elem(x, (ZERO, e)), ZERO))), full)


def getitem(flow, v, i):
    if v.op == 'nzview':
        base = v.args[0]
        kind = flow.mat_kind(base)
        return flow.box(lift(lambda m: m if m.op == 'unknown' else linear(flow, stored(m), selector(flow, i)), flow.unbox(base)), kind)
    kind = flow.mat_kind(v)

    def f(m):
        if m.op == 'unknown':
            return m
        if i.op == 'tuple' and len(i.args) == 2:
            sels = [selector(flow, x) for x in i.args]
            if any(s is None for s in sels):
                return flow.unk('matrix index')
            if m.op == 'spmat':
                return block(m, sels) or flow.unk('element of a sparse matrix')
            return ar.index(m, [('a', flow.lib.ravel(s[1])) if s[0] == 'x' else s for s in sels])
        j = i.args[0] if i.op == 'tuple' and len(i.args) == 1 else i
        if is_sp(j):
            if m.op != 'spmat' and equal(pattern(m), j) is TRUE:
                return m
            p = project(m, j)
            if p is not None:
                return p
            return raw('typed', 'cs2', raw('project', m, j), (rows(j), cols(j)))
        if m.op == 'spmat':
            return flow.unk('element of a sparse matrix')
        s = selector(flow, j)
        return linear(flow, stored(m), s) if dim(m, 0) is not ONE or s is None or s[0] == 'x' else ar.index(m, [s])
    return flow.box(lift(lambda m: one(f(m)), flow.unbox(v)), kind)


def one(t):
    """A single element is a 1-by-1 matrix."""
    if t.op == 'ite':
        return lift(one, t)
    return mk('cs', (ONE, ONE), lambda i, j: t) if is_numeric(t) and not is_arr(t) else t


def linear(flow, col, s):
    if s is None:
        return flow.unk('matrix index')
    if s[0] == 'x':
        return gather(col, s[1])
    return one(ar.index(col, [s]))


def affine(x, vs):
    """(constant, coefficients of vs) of a term that is affine in the index variables vs, or None."""
    p = to_poly(x)
    const, co = {}, {v: {} for v in vs}
    for m, c in p.items():
        hit = [(a, e) for a, e in m if not fv(a).isdisjoint(vs)]
        if not hit:
            const[m] = c
        elif len(hit) == 1 and hit[0][0] in co and hit[0][1] == 1:
            co[hit[0][0]][tuple(q for q in m if q is not hit[0] and q[0] is not hit[0][0])] = c
        else:
            return None
    return from_poly(const), [from_poly(co[v]) for v in vs]


def scatter(flow, col, idx, val):
    """The column col with the elements at a matrix of positions replaced by val."""
    if idx.op == 'spmat':
        xs = idx.args[1]
        shape = (rows(idx.args[0]), cols(idx.args[0]))
    else:
        xs = as_arr(idx)
        shape = xs.args[1]
    if val.op == 'unknown':
        return val
    if idx.op == 'spmat' or val.op == 'spmat':
        r = scatter_cells(flow, col, idx, val)
        if r is not None:
            return r
    if not is_matrix(val):
        if not is_numeric(val):
            return flow.unk('stored value')
        get = lambda e: val
        get2 = None
    else:
        vs = pattern(val)
        vr, vc = rows(vs), cols(vs)
        r, c = shape
        scal = and_(tm.eq(vr, ONE), tm.eq(vc, ONE))
        same = and_(tm.eq(vr, r), tm.eq(vc, c))
        turned = and_(tm.eq(vr, c), tm.eq(vc, r), or_(tm.eq(vr, ONE), tm.eq(vc, ONE)))
        if scal.op != 'unknown':
            flow.raise_(not_(or_(scal, same, turned)), string('RuntimeError'))
        if idx.op == 'spmat' or val.op == 'spmat':
            if scal is not TRUE and not (idx.op == 'spmat' and val.op == 'spmat' and idx.args[0] is val.args[0]):
                return raw('typed', 'cs2', raw('scatter', col, idx, val), (dim(col, 0), ONE))
        sv = as_arr(stored(val))
        at = lambda e: elem(sv, (e, ZERO))
        get2 = (lambda i, j: elem(as_arr(val), (i, j))) if same is TRUE and val.op != 'spmat' else None
        get = at if same is TRUE else (lambda e: at(ZERO)) if scal is TRUE else (lambda e: ite(scal, at(ZERO), at(e)))
    a = as_arr(col)
    N = dim(a, 0)
    r, c = dim(xs, 0), dim(xs, 1)
    i, j = fresh_bv(r), fresh_bv(c)
    f = affine(elem(as_arr(xs), (i, j)), (i, j))
    if f is None:
        cells_ = scatter_cells(flow, col, idx, val)
        if cells_ is not None:
            return cells_
        return raw('typed', 'cs2', raw('scatter', col, idx, val), (N, ONE))
    c0, (k1, k2) = f
    if c is ONE or sub(k2, mul(k1, r)) is ZERO:
        n, k = mul(r, c), k1
    elif r is ONE:
        n, k = c, k2
    elif k1 is ONE and tm._nonneg(sub(k2, r)):
        # a block of the columns of a matrix stored with k2 elements per column
        def body(p):
            off = sub(p, c0)
            u, w = tm.imod(off, k2), tm.idiv(off, k2)
            return ite(and_(not_(tm.lt(off, ZERO)), tm.lt(u, r), tm.lt(w, c)), get2(u, w) if get2 else get(add(u, mul(w, r))), elem(a, (p, ZERO)))
        return column(N, body)
    else:
        cells_ = scatter_cells(flow, col, idx, val)
        return cells_ if cells_ is not None else flow.unk('store at scattered positions')
    if n is ONE:
        return column(N, lambda p: ite(tm.eq(p, c0), get(ZERO), elem(a, (p, ZERO))))
    if tm._nonneg(sub(tm.neg(k), ONE)):
        c0, k, ahead = add(c0, mul(k, sub(n, ONE))), tm.neg(k), get
        get = lambda e: ahead(sub(sub(n, ONE), e))
    if not tm._nonneg(sub(k, ONE)):
        cells_ = scatter_cells(flow, col, idx, val)
        return cells_ if cells_ is not None else flow.unk('store at scattered positions')

    def body(p):
        off = sub(p, c0)
        if k is ONE:
            return ite(and_(not_(tm.lt(off, ZERO)), tm.lt(off, n)), get(off), elem(a, (p, ZERO)))
        return ite(and_(not_(tm.lt(off, ZERO)), tm.lt(off, mul(k, n)), tm.eq(tm.imod(off, k), ZERO)), get(tm.idiv(off, k)),
                   elem(a, (p, ZERO)))
    return column(N, body)


def scatter_cells(flow, col, idx, val):
    """Store where the cells of the positions are known and the value has them all, or is a scalar."""
    xs = listed(idx)
    if xs is None:
        return None
    if not is_matrix(val):
        if not is_numeric(val):
            return None
        vs = {c: val for c in xs}
    else:
        vs = listed(val)
        if vs is None:
            return None
        if size(pattern(val)) == (1, 1) and size(pattern(idx)) != (1, 1):
            if not vs:
                return None
            vs = {c: vs[0, 0] for c in xs}
        elif size(pattern(val)) != size(pattern(idx)):
            return None
        elif set(vs) != set(xs):
            # the store would change what is structurally present
            return None if xs and not set(xs) <= set(vs) else scatter_cells(flow, col, idx, project(val, pattern(idx)))
    a = as_arr(col)

    def body(p):
        r = elem(a, (p, ZERO))
        for c in xs:            # later positions prevail
            r = ite(tm.eq(p, xs[c]), vs[c], r)
        return r
    return column(dim(a, 0), body)


def as_positions(s):
    """Matrix of positions of a selector on a column of the given length."""
    if s[0] == 'x':
        return s[1]
    if s[0] == 'a':
        a = s[1]
        return column(dim(a, 0), lambda i: elem(a, (i,)))
    return None


def setitem(flow, o, i, v, node):
    base = o.args[0] if o.op == 'nzview' else o
    val = flow.unbox(flow.as_cs(v))
    if seqs.is_seq(flow.content(val)):
        val = flow.lib.to_array(flow, flow.mats_out(val))
    if is_arr(val) and ar.lib_of(val) == 'np':
        val = lift(ar.to_cs, val)

    def one_(m, val):
        if val.op == 'unknown' or m.op == 'unknown':
            return val if val.op == 'unknown' else m
        if o.op == 'nzview' or i.op != 'tuple' or len(i.args) == 1:
            j = i.args[0] if i.op == 'tuple' and len(i.args) == 1 else i
            if is_sp(j):
                return flow.unk('store by pattern')
            s = selector(flow, j)
            if s is None:
                return flow.unk('matrix store')
            col = stored(m)
            if s[0] == 'i':
                x = column(ONE, lambda e: ar.norm_index(s[1], dim(col, 0)))
            elif s[0] == 's':
                b = ar.slice_bounds(s[1], s[2], s[3], dim(col, 0))
                if b is None:
                    return flow.unk('matrix store')
                x = column(b[1], lambda e: add(b[0], mul(b[2], e)))
            else:
                x = as_positions(s)
            return with_pattern(pattern(m), scatter(flow, col, x, val))
        sels = [selector(flow, x) for x in i.args]
        if m.op == 'spmat' or any(s is None or s[0] not in ('i', 's') for s in sels):
            return flow.unk('matrix store')
        return ar.store(m, sels, val)
    new = flow.on_value(flow.unbox(base), lambda m: flow.on_value(val, lambda x: one_(m, x)))
    if base.op == 'ref':
        flow.st.heap[base] = flow.st.heap[base][:1] + (new,) + flow.st.heap[base][2:]
    elif base.op == 'ite':
        c, a, b = base.args
        flow.branch(c, lambda: setitem(flow, raw('nzview', a) if o.op == 'nzview' else a, i, v, None) or NONE,
                    lambda: setitem(flow, raw('nzview', b) if o.op == 'nzview' else b, i, v, None) or NONE)
    elif node is not None:
        import ast
        flow.assign(node.value if o.op == 'nzview' and isinstance(node, ast.Attribute) else node, new)
    else:
        flow.unk('store to a value')


# ------------------------------------------------------------------ DM, MX or SX
def kind(flow, t):
    """'DM', 'MX' or 'SX' of a matrix value, if known."""
    ks = set()
    for x in find_ops(t, ('mxsym', 'typed')):
        nm = x.args[0] if x.op == 'mxsym' else x.args[1]
        if isinstance(nm, T):
            continue
        ks.add(flow.kinds.get(nm))
    if None in ks or not ks:
        return None
    if {'MX', 'SX'} <= ks:
        return None
    return 'MX' if 'MX' in ks else 'SX' if 'SX' in ks else 'DM'
