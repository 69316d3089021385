"""Index-notation array domain: an array is a shape plus a function from indices to elements."""
from terms import *
import terms as tm


# ------------------------------------------------------------------ types of opaque values
# 'num', 'int', 'np1', 'np2', 'cs2', 'list:<t>', 'dict', 'str', 'fun', 'obj:<Class>', 'opaque', 'poly'
ATTR_TYPES = {}
CALL_TYPES = {}


def type_of(t):
    o = t.op
    if o == 'sym':
        return t.args[1]
    if o == 'mxsym':
        return 'cs2'
    if o == 'typed':
        return t.args[0]
    if o == 'item':
        ty = type_of(t.args[0])
        if ty.startswith('list:'):
            return ty[5:]
        return 'opaque'
    if o == 'attr':
        b = type_of(t.args[0])
        return ATTR_TYPES.get((b, t.args[1])) or ATTR_TYPES.get(('*', t.args[1])) or 'opaque'
    if o == 'bv':
        return {'idx': 'int', 'real': 'num'}.get(t.args[1], t.args[1])
    if o in ('num', 'poly', 'elem', 'sum', 'prod', 'minmax', 'integral', 'pow', 'len', 'dim', 'div', 'mod', 'fun1',
             'searchsorted', 'ordstat', 'ustat', 'ucount'):
        return 'num'
    if o == 'call':
        return CALL_TYPES.get(t.args[0], 'opaque')
    if o in ('str', 'fmt'):
        return 'str'
    if o == 'ite':
        a, b = type_of(t.args[1]), type_of(t.args[2])
        if a == b:
            return a
        return 'opaque'
    if o == 'arr':
        return t.args[0] + str(len(t.args[1]))
    return 'opaque'


# ------------------------------------------------------------------ construction
def mk(lib, shape, f):
    """f: index terms -> element term."""
    bvs = [fresh_bv(n) for n in shape]
    return arr(lib, tuple(shape), lam(bvs, f(*bvs)))


def arr(lib, shape, l):
    body = l.args[1]
    if body.op == 'unknown':
        return body
    for s in shape:
        if s.op == 'unknown':
            return s
    if ZERO in shape:
        l = lam(l.args[0], ZERO)    # no elements
        body = ZERO
    # the index along an axis of length one is zero
    one = {b: ZERO for b, s in zip(l.args[0], shape) if s is ONE and b in fv(body)}
    if one:
        body = subst(body, one)
        l = lam(l.args[0], body)
    # eta
    if body.op == 'elem':
        a, idx = body.args
        if is_identity(idx, l.args[0], shape) and fv(a).isdisjoint(l.args[0]):
            ty = type_of(a)
            if ty == lib + str(len(shape)) and all(dim(a, k) is s for k, s in enumerate(shape)):
                return a
    return raw('arr', lib, tuple(shape), l)


def is_identity(idx, bvs, shape):
    return len(idx) == len(bvs) and all(i is b or s is ONE and i is ZERO for i, b, s in zip(idx, bvs, shape))


@builder('arr')
def _b_arr(lib, shape, l):
    return lift_shape(lib, shape, l)


def lift_shape(lib, shape, l):
    if any(s.op == 'ite' for s in shape):
        return lift(lambda *s: arr(lib, s, _rerange(l, s)), *shape)
    return arr(lib, shape, _rerange(l, shape))


def _rerange(l, shape):
    bvs, body = l.args
    m = {}
    nb = []
    for b, s in zip(bvs, shape):
        if b.args[2] is not s:
            x = raw('bv', b.args[0], b.args[1], s)
            m[b] = x
            nb.append(x)
        else:
            nb.append(b)
    if not m:
        return l
    return lam(nb, subst(body, m))


SYMSHAPE = {}


def dim(a, k):
    if a.op == 'arr':
        return a.args[1][k]
    if a.op == 'mxsym':
        return a.args[2][k]
    if a.op == 'typed':
        return a.args[2][k]
    if a.op == 'unknown':
        return a
    return raw('dim', a, k)


@builder('dim')
def _b_dim(a, k):
    return lift(lambda a: dim(a, k), a)


def elem(a, idx):
    if a.op == 'arr':
        return open_lam(a.args[2], idx)
    if a.op == 'unknown':
        return a
    for i in idx:
        if i.op == 'unknown':
            return i
    if a.op in ('typed', 'mxsym'):
        idx = tuple(ZERO if d is ONE else i for i, d in zip(idx, a.args[2]))
    if any(i.op == 'ite' for i in idx):
        return lift(lambda *i: raw('elem', a, tuple(i)), *idx)
    return raw('elem', a, tuple(idx))


@builder('elem')
def _b_elem(a, idx):
    return lift(lambda a: elem(a, idx), a)


def is_arr(t):
    if t.op == 'arr':
        return True
    if t.op == 'ite':
        return all(is_arr(x) for x in leaves(t))
    return type_of(t) in ('np1', 'np2', 'cs2')


def lib_of(t):
    return type_of(t)[:2]


def ndim(t):
    if t.op == 'arr':
        return len(t.args[1])
    ty = type_of(t)
    if ty in ('np1', 'np2', 'cs2'):
        return int(ty[2])
    return 0


def shape_of(t):
    return tuple(dim(t, k) for k in range(ndim(t)))


def as_arr(t):
    """Explicit array view of an array-typed value."""
    if t.op == 'arr':
        return t
    n = ndim(t)
    shape = shape_of(t)
    bvs = [fresh_bv(s) for s in shape]
    return raw('arr', lib_of(t), shape, lam(bvs, elem(t, tuple(bvs))))


def _join(v, a, b):
    if lib_of(a) != lib_of(b) or ndim(a) != ndim(b) or not is_arr(a) or not is_arr(b):
        return None
    if any(x is not y for x, y in zip(shape_of(a), shape_of(b))):
        return None
    return mk(lib_of(a), shape_of(a), lambda *i: ite(v, elem(a, i), elem(b, i)))


import terms as _tm
_tm.ARR_JOIN = _join


# ------------------------------------------------------------------ truth as number
def numv(t):
    if is_boolish(t):
        return ite(t, ONE, ZERO)
    return t


# ------------------------------------------------------------------ elementwise
def ew(f, *xs):
    """Elementwise with broadcasting.  xs scalars or arrays."""
    return lift(lambda *ys: _ew(f, *ys), *xs)


def _ew(f, *xs):
    for x in xs:
        if x.op == 'unknown':
            return x
    arrs = [x for x in xs if is_arr(x)]
    if not arrs:
        return f(*xs)
    if any(x.op == 'filt' for x in xs):
        return unknown('elementwise on filtered')
    lib = 'cs' if any(lib_of(x) == 'cs' for x in arrs) else 'np'
    nd = max(ndim(x) for x in arrs)
    if lib == 'cs':
        # 1-D numpy operand of a casadi operation is a column
        xs = [mk('cs', (dim(x, 0), ONE), lambda i, j, x=x: elem(as_arr(x), (i,))) if is_arr(x) and ndim(x) == 1 else x
              for x in xs]
        nd = 2
    shape = []
    for k in range(nd):
        cand = []
        for x in xs:
            if not is_arr(x):
                continue
            off = nd - ndim(x)
            if k >= off:
                d = dim(x, k - off)
                cand.append(d)
        nz = [d for d in cand if d is not ONE]
        shape.append(nz[0] if nz else ONE)
    if lib == 'cs':
        # scalar (1x1) broadcasts only as a whole; treated as above
        pass
    views = [as_arr(x) if is_arr(x) else x for x in xs]

    def body(*idx):
        vals = []
        for x in views:
            if x.op != 'arr':
                vals.append(x)
                continue
            off = nd - ndim(x)
            ii = []
            for k in range(ndim(x)):
                d = dim(x, k)
                ii.append(ZERO if (d is ONE and shape[k + off] is not ONE) else idx[k + off])
            vals.append(elem(x, tuple(ii)))
        return lift(f, *vals)
    return mk(lib, shape, body)


# ------------------------------------------------------------------ indexing
def norm_index(i, n):
    """Python index (possibly negative) on an axis of length n."""
    def f(i, n):
        if i.op == 'num':
            return add(n, i) if i.args[0] < 0 else i
        # symbolic: negative constant offset without anything else was handled; assume non-negative
        p = to_poly(i)
        if p and all(c < 0 for c in p.values()):
            return add(n, i)
        return i
    return lift(f, i, n)


def slice_bounds(lo, hi, step, n):
    """(start, length, step) of a slice on an axis of length n; assumes bounds inside the axis."""
    if step is None or step is NONE:
        step = ONE
    if step is ONE:
        s = ZERO if lo is None or lo is NONE else norm_index(lo, n)
        e = n if hi is None or hi is NONE else norm_index(hi, n)
        return s, sub(e, s), ONE
    if step.op == 'num' and step.args[0] == -1 and (lo is None or lo is NONE) and (hi is None or hi is NONE):
        return sub(n, ONE), n, step
    return None


def index_axis(a, k, sel):
    """Returns new (shape pieces, index map) for axis k with selector sel.

    sel: ('i', term) | ('s', lo, hi, step) | ('a', int array) | ('l', list of ints)
    """
    n = dim(a, k)
    if sel[0] == 'i':
        i = norm_index(sel[1], n)
        return [], lambda: i
    if sel[0] == 's':
        b = slice_bounds(sel[1], sel[2], sel[3], n)
        if b is None:
            return None
        s, ln, st = b
        return [ln], lambda j: add(s, mul(st, j))
    if sel[0] == 'a':
        g = as_arr(sel[1])
        return list(g.args[1]), lambda *j: elem(g, tuple(j))
    return None


def index(a, sels):
    """Basic numpy / casadi indexing."""
    a = as_arr(a)
    lib = a.args[0]
    nd = ndim(a)
    if lib == 'cs' and len(sels) == 1:
        # linear indexing of a casadi matrix, column-major; on a column this is the row
        if dim(a, 1) is ONE:
            sels = [sels[0], ('i', ZERO)]
        elif dim(a, 0) is ONE:
            sels = [('i', ZERO), sels[0]]
        else:
            return unknown('linear indexing of a casadi matrix')
    if len(sels) > nd:
        return unknown('too many indices')
    sels = list(sels) + [('s', None, None, None)] * (nd - len(sels))
    if lib == 'cs':
        # casadi keeps two dimensions; both scalar -> 1x1 (kept as a scalar value)
        if all(s[0] == 'i' for s in sels):
            r = [index_axis(a, k, s)[1]() for k, s in enumerate(sels)]
            return elem(a, tuple(r))
        shape = []
        maps = []
        for k, s in enumerate(sels):
            r = index_axis(a, k, s)
            if r is None:
                return unknown('index')
            sh, mp = r
            if s[0] == 'i':
                shape.append(ONE)
                maps.append(lambda j, mp=mp: mp())
            else:
                if len(sh) != 1:
                    return unknown('fancy index')
                shape.append(sh[0])
                maps.append(mp)
        return mk('cs', shape, lambda *idx: elem(a, tuple(m(i) for m, i in zip(maps, idx))))
    shape = []
    maps = []
    for k, s in enumerate(sels):
        r = index_axis(a, k, s)
        if r is None:
            return unknown('index')
        sh, mp = r
        maps.append((len(sh), mp))
        shape.extend(sh)
    if not shape:
        return elem(a, tuple(mp() for _, mp in maps))

    def body(*idx):
        out = []
        p = 0
        for c, mp in maps:
            out.append(mp(*idx[p:p + c]))
            p += c
        return elem(a, tuple(out))
    return mk(lib, shape, body)


def store(a, sels, v):
    """Functional update a[sels] = v."""
    a = as_arr(a)
    lib = a.args[0]
    nd = ndim(a)
    if lib == 'cs' and len(sels) == 1:
        if dim(a, 1) is ONE:
            sels = [sels[0], ('i', ZERO)]
        elif dim(a, 0) is ONE:
            sels = [('i', ZERO), sels[0]]
        else:
            return unknown('linear store')
    sels = list(sels) + [('s', None, None, None)] * (nd - len(sels))
    conds_idx = []
    for k, s in enumerate(sels):
        n = dim(a, k)
        if s[0] == 'i':
            conds_idx.append(('i', norm_index(s[1], n)))
        elif s[0] == 's':
            b = slice_bounds(s[1], s[2], s[3], n)
            if b is None or b[2] is not ONE:
                return unknown('store slice')
            conds_idx.append(('s', b[0], b[1], n))
        else:
            return unknown('store fancy')
    va = as_arr(v) if is_arr(v) else v

    def body(*idx):
        cond = TRUE
        vidx = []
        vaxes = []
        for i, ci in zip(idx, conds_idx):
            if ci[0] == 'i':
                cond = and_(cond, eq(i, ci[1]))
                vidx.append(None)
            else:
                s, ln, n = ci[1:]
                off = sub(i, s)
                if not (s is ZERO and ln is n):
                    cond = and_(cond, not_(lt(off, ZERO)), lt(off, ln))
                vidx.append(off)
        if va.op == 'arr':
            if va.args[0] == 'cs' or (lib == 'cs' and ndim(va) == 2):
                if ndim(va) == 2 and nd == 2:
                    ii = []
                    for k in range(2):
                        if dim(va, k) is ONE:
                            ii.append(ZERO)
                        else:
                            ii.append(vidx[k] if vidx[k] is not None else ZERO)
                    # 1-D-like assignment of a row/column into the only sliced axis
                    val = elem(va, tuple(ii))
                else:
                    return unknown('store shape')
            else:
                fr = [o for o in vidx if o is not None]
                if ndim(va) > len(fr):
                    return unknown('store shape')
                fr = fr[len(fr) - ndim(va):]
                ii = [ZERO if dim(va, k) is ONE else fr[k] for k in range(ndim(va))]
                val = elem(va, tuple(ii))
        else:
            val = va
        return ite(cond, val, elem(a, tuple(idx)))
    return mk(lib, a.args[1], body)


# ------------------------------------------------------------------ reductions
def reduce_all(kind, a):
    a = as_arr(a)
    bvs, body = a.args[2].args
    t = numv(body) if kind in ('sum', 'prod') else body
    for b in reversed(bvs):
        n = b.args[2]
        if kind == 'sum':
            t = tm.sum_(n, lam((b,), t))
        elif kind == 'prod':
            t = tm.prod_(n, lam((b,), t))
        elif kind == 'any':
            t = tm.any_(n, lam((b,), t))
        elif kind == 'all':
            t = not_(tm.any_(n, lam((b,), not_(t))))
    return t


def reduce_axis(kind, a, ax):
    a = as_arr(a)
    nd = ndim(a)
    if ax < 0:
        ax += nd
    shape = [s for k, s in enumerate(a.args[1]) if k != ax]

    def body(*idx):
        b = fresh_bv(dim(a, ax))
        ii = list(idx)
        ii.insert(ax, b)
        t = elem(a, tuple(ii))
        if kind == 'sum':
            return tm.sum_(dim(a, ax), lam((b,), numv(t)))
        if kind == 'prod':
            return tm.prod_(dim(a, ax), lam((b,), numv(t)))
        if kind == 'any':
            return tm.any_(dim(a, ax), lam((b,), t))
        return not_(tm.any_(dim(a, ax), lam((b,), not_(t))))
    return mk(a.args[0], shape, body)


# ------------------------------------------------------------------ linear algebra
def transpose(a):
    if not is_arr(a):
        return a
    a = as_arr(a)
    if ndim(a) == 1:
        return a
    return mk(a.args[0], (dim(a, 1), dim(a, 0)), lambda i, j: elem(a, (j, i)))


def to_cs(a):
    """View as a casadi matrix (2-D)."""
    a = as_arr(a)
    if a.args[0] == 'cs':
        return a
    if ndim(a) == 1:
        return mk('cs', (dim(a, 0), ONE), lambda i, j: elem(a, (i,)))
    return mk('cs', a.args[1], lambda i, j: elem(a, (i, j)))


def matmul(lib, a, b):
    if a.op == 'unknown':
        return a
    if b.op == 'unknown':
        return b
    if lib == 'cs':
        if not is_arr(a) or not is_arr(b):
            return ew(mul, a, b)
        a, b = to_cs(a), to_cs(b)
        if (dim(a, 0) is ONE and dim(a, 1) is ONE) or (dim(b, 0) is ONE and dim(b, 1) is ONE):
            pass
    else:
        if not is_arr(a) or not is_arr(b):
            return ew(mul, a, b)
        a, b = as_arr(a), as_arr(b)
    na, nb = ndim(a), ndim(b)
    K = dim(a, na - 1)
    K2 = dim(b, max(nb - 2, 0))
    Kd = K if K is not ONE else K2
    if K is not K2 and (K.op == 'num' and K2.op == 'num'):
        return unknown('shape mismatch')
    # prefer a canonical representative of the contracted length
    Kd = min((K, K2), key=key)
    shape = list(a.args[1][:-1]) + (list(b.args[1][:-2]) + [dim(b, 1)] if nb == 2 else [])
    lo = 'cs' if lib == 'cs' else ('cs' if 'cs' in (a.args[0], b.args[0]) else 'np')

    def body(*idx):
        ia = idx[:na - 1]
        ib = idx[na - 1:]
        k = fresh_bv(Kd)
        return tm.sum_(Kd, lam((k,), mul(elem(a, tuple(ia) + (k,)), elem(b, (k,) + tuple(ib)))))
    if not shape:
        return body()
    return mk(lo, shape, body)


def kron(a, b):
    a, b = to_cs(a), to_cs(b)
    r, c = dim(b, 0), dim(b, 1)
    return mk('cs', (mul(dim(a, 0), r), mul(dim(a, 1), c)),
              lambda i, j: mul(elem(a, (idiv(i, r), idiv(j, c))), elem(b, (imod(i, r), imod(j, c)))))


def eye(lib, n):
    return mk(lib, (n, n), lambda i, j: ite(eq(i, j), ONE, ZERO))


def const_arr(lib, shape, v):
    return mk(lib, shape, lambda *i: v)


def repmat(a, n, m):
    if not is_arr(a):
        return const_arr('cs', (n, m), a)
    a = to_cs(a)
    r, c = dim(a, 0), dim(a, 1)
    return mk('cs', (mul(n, r), mul(m, c)),
              lambda i, j: elem(a, (imod(i, r) if n is not ONE else i, imod(j, c) if m is not ONE else j)))


def diff(a, axis=-1, n=None):
    a = as_arr(a)
    nd = ndim(a)
    ax = axis if axis >= 0 else nd + axis
    shape = list(a.args[1])
    shape[ax] = sub(shape[ax], ONE)

    def body(*idx):
        i1 = list(idx)
        i1[ax] = add(i1[ax], ONE)
        return sub(elem(a, tuple(i1)), elem(a, tuple(idx)))
    return mk(a.args[0], shape, body)


def flip(a):
    a = as_arr(a)
    return mk(a.args[0], a.args[1],
              lambda *idx: elem(a, tuple(sub(sub(n, ONE), i) for i, n in zip(idx, a.args[1]))))


def continued(n, f, m, g):
    """Function that is f on the first n and g (shifted) on the next m places, if one of them extends to both."""
    b = fresh_bv(m) if m is not ONE else ZERO
    if n is ONE and m is ONE:
        x, y = f(ZERO), g(ZERO)
        if is_numeric(x) and is_numeric(y) and x.op != 'ite' and sub(y, x) is ONE:
            return lambda i: add(x, i)
        return None
    if n is not ONE and f(add(b, n)) is g(b):
        return f
    if n is ONE and g(num(-1)) is f(ZERO):
        return lambda i: g(sub(i, ONE))
    return None


def coalesce(pieces):
    """A single function for consecutive pieces (length, function), if each continues the one before."""
    n, f = pieces[0]
    for m, g in pieces[1:]:
        f = continued(n, f, m, g)
        if f is None:
            return None
        n = add(n, m)
    return n, f


def concat(lib, axis, parts):
    """Concatenate arrays (list of terms) along axis."""
    parts = [as_arr(p) for p in parts]
    if len(parts) > 1 and axis == 0 and all(p.op == 'arr' and ndim(p) == 2 and dim(p, 1) is ONE for p in parts):
        r = coalesce([(dim(p, 0), lambda i, p=p: elem(p, (i, ZERO))) for p in parts if dim(p, 0) is not ZERO] or [(ZERO, lambda i: ZERO)])
        if r is not None:
            return mk(lib, (r[0], ONE), lambda i, j: r[1](i))
    nd = ndim(parts[0])
    if any(ndim(p) != nd for p in parts):
        return unknown('concat rank')
    offs = []
    tot = ZERO
    for p in parts:
        offs.append(tot)
        tot = add(tot, dim(p, axis))
    shape = list(parts[0].args[1])
    for p in parts:
        for k in range(nd):
            if k != axis and shape[k] is ONE and dim(p, k) is not ONE:
                shape[k] = dim(p, k)
    shape[axis] = tot

    def body(*idx):
        c = idx[axis]
        res = None
        for p, o in reversed(list(zip(parts, offs))):
            ii = list(idx)
            ii[axis] = sub(c, o)
            if dim(p, axis) is ONE:
                ii[axis] = ZERO
            v = elem(p, tuple(ii))
            if res is None:
                res = v
            else:
                res = ite(lt(c, add(o, dim(p, axis))), v, res)
        return res
    return mk(lib, shape, body)


def concat_seq(lib, axis, n, l):
    """Concatenate the arrays l(i), i < n, of equal size along axis."""
    (b,), body = l.args
    if body.op == 'ite':
        ls = leaves(body)
        sh = {shape_of(as_arr(x)) for x in ls if is_arr(x)}
        if len(sh) != 1 or not all(is_arr(x) for x in ls):
            return unknown('concat of conditional pieces')
        shape = list(sh.pop())
    else:
        a0 = as_arr(body)
        shape = list(a0.args[1])
    w = shape[axis]
    if any(b in fv(s) for s in shape):
        return unknown('ragged concatenation')
    shape[axis] = mul(n, w)

    def f(*idx):
        c = idx[axis]
        q, r = idiv(c, w), imod(c, w)
        ii = list(idx)
        ii[axis] = r
        piece = subst(body, {b: q})
        return lift(lambda p: elem(as_arr(p), tuple(ii)), piece)
    return mk(lib, shape, f)
