"""Further models of numpy, math, operator and casadi functions: elementwise operations, reductions, rearrangements.

Registered into lib.MODELS by lib itself.
"""
from terms import *
import terms as tm
import arrays as ar
from arrays import is_arr, as_arr, elem, mk, ew, dim
import seqs

FLOATS = ('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.longdouble', 'numpy.float_')
INTS = ('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp')


def install(lib):
    M = lib.MODELS
    model = lib.model

    def arrs(flow, a):
        """Operands as arrays or numbers, or None."""
        out = []
        for x in a:
            if seqs.is_seq(flow.content(x)):
                x = lib.to_array(flow, x)
            if not (is_arr(x) or is_numeric(x) or is_boolish(x) or x.op == 'ite') or x.op == 'ite' and not all(
                    is_arr(y) or is_numeric(y) or is_boolish(y) for y in leaves(x)):
                return None
            out.append(x)
        return out

    def one(flow, a):
        """The operand as an unconditional array, or None."""
        xs = arrs(flow, a[:1]) if a else None
        return as_arr(xs[0]) if xs and is_arr(xs[0]) and xs[0].op != 'ite' else None

    def const(t):
        return int(t.args[0]) if t is not None and t.op == 'num' and t.args[0].denominator == 1 else None

    # -------------------------------------------------------------- elementwise
    def binary(op, *names):
        def f(flow, a, kw):
            xs = arrs(flow, a)
            return flow.binop(op, *xs) if xs and len(xs) == 2 and not kw else None
        for n in names:
            M.setdefault(n, f)
    binary('+', 'numpy.add', 'casadi.plus', 'operator.add')
    binary('-', 'numpy.subtract', 'casadi.minus', 'operator.sub')
    binary('*', 'numpy.multiply', 'casadi.times')
    binary('/', 'numpy.divide', 'numpy.true_divide', 'casadi.rdivide', 'operator.truediv')
    binary('**', 'numpy.power', 'casadi.power', 'operator.pow', 'builtins.pow', 'math.pow', 'numpy.float_power')
    binary('//', 'numpy.floor_divide', 'operator.floordiv')
    binary('%', 'numpy.mod', 'numpy.remainder', 'operator.mod')

    def compare(op, *names):
        def f(flow, a, kw):
            xs = arrs(flow, a)
            return flow.compare(op, *xs) if xs and len(xs) == 2 and not kw else None
        for n in names:
            M.setdefault(n, f)
    compare('Eq', 'numpy.equal', 'operator.eq')
    compare('NotEq', 'numpy.not_equal', 'operator.ne')
    compare('Lt', 'numpy.less', 'operator.lt')
    compare('LtE', 'numpy.less_equal', 'operator.le')
    compare('Gt', 'numpy.greater', 'operator.gt')
    compare('GtE', 'numpy.greater_equal', 'operator.ge')

    def unary(g, *names):
        def f(flow, a, kw):
            xs = arrs(flow, a)
            return ew(g, xs[0]) if xs and len(xs) == 1 and not kw else None
        for n in names:
            M[n] = f
    nv = ar.numv
    unary(lambda x: neg(nv(x)), 'numpy.negative', 'operator.neg')
    unary(lambda x: mul(nv(x), nv(x)), 'numpy.square', 'casadi.sq')
    unary(lambda x: div(ONE, nv(x)), 'numpy.reciprocal')
    unary(lambda x: tm.fun1('abs', nv(x)), 'numpy.absolute', 'numpy.abs', 'numpy.fabs', 'math.fabs', 'casadi.fabs', 'builtins.abs')
    unary(lambda x: tm.fun1('sign', nv(x)), 'numpy.sign', 'casadi.sign')
    unary(lambda x: tm.fun1('floor', nv(x)), 'numpy.floor', 'math.floor', 'casadi.floor')
    unary(lambda x: tm.fun1('ceil', nv(x)), 'numpy.ceil', 'math.ceil', 'casadi.ceil')
    unary(lambda x: tm.fun1('trunc', nv(x)), 'numpy.trunc', 'math.trunc', 'numpy.fix', 'builtins.int', 'numpy.int64', 'numpy.int32')
    unary(lambda x: nv(x), 'numpy.float64', 'numpy.positive', 'numpy.real', 'numpy.double')
    unary(lambda x: not_(x) if is_boolish(x) else tm.eq(x, ZERO), 'numpy.logical_not')

    def rounded(flow, a, kw):
        xs = arrs(flow, a[:1])
        d = a[1] if len(a) > 1 else kw.get('decimals', kw.get('ndigits', ZERO))
        k = const(d)
        if not xs or k is None:
            return None
        s = num(10 ** k) if k >= 0 else div(ONE, num(10 ** -k))
        return ew(lambda x: div(tm.fun1('rint', mul(nv(x), s)), s), xs[0])
    for n in ('numpy.round', 'numpy.around', 'numpy.rint', 'builtins.round', 'numpy.round_'):
        M[n] = rounded

    def logical(g, *names):
        def f(flow, a, kw):
            xs = arrs(flow, a)
            if not xs or len(xs) != 2 or kw:
                return None
            return ew(lambda x, y: g(flow.truth(x), flow.truth(y)), *xs)
        for n in names:
            M[n] = f
    logical(and_, 'numpy.logical_and', 'operator.and_')
    logical(or_, 'numpy.logical_or', 'operator.or_')
    for n, k in (('casadi.fmin', 'min'), ('casadi.fmax', 'max'), ('numpy.fmin', 'min'), ('numpy.fmax', 'max')):
        M[n] = lambda flow, a, kw, k=k: ew(lambda x, y: tm.minmax(k, nv(x), nv(y)), *a) if arrs(flow, a) and len(a) == 2 else None

    @model('casadi.if_else')
    def if_else(flow, a, kw):
        return ew(lambda c, x, y: ite(c if is_boolish(c) else not_(tm.eq(c, ZERO)), x, y), *a[:3]) if len(a) >= 3 and arrs(flow, a[:3]) else None

    def close(flow, a, kw):
        d = lib.norm_args(flow, ['a', 'b', 'rtol', 'atol'], a, kw, {'rtol': tm.num(Fraction(1, 10 ** 5)), 'atol': tm.num(Fraction(1, 10 ** 8))})
        if set(d) != {'a', 'b', 'rtol', 'atol'}:
            return None
        xs = arrs(flow, [d['a'], d['b']])
        if not xs:
            return None

        def f(x, y):
            return not_(tm.lt(add(d['atol'], mul(d['rtol'], tm.fun1('abs', nv(y)))), tm.fun1('abs', sub(nv(x), nv(y)))))
        return ew(f, *xs)
    M['numpy.isclose'] = close

    @model('math.isclose')
    def mclose(flow, a, kw):
        d = lib.norm_args(flow, ['a', 'b', 'rel_tol', 'abs_tol'], a, kw, {'rel_tol': tm.num(Fraction(1, 10 ** 9)), 'abs_tol': ZERO})
        if set(d) != {'a', 'b', 'rel_tol', 'abs_tol'} or not arrs(flow, [d['a'], d['b']]):
            return None
        x, y = d['a'], d['b']
        big = tm.minmax('max', tm.fun1('abs', x), tm.fun1('abs', y))
        return not_(tm.lt(tm.minmax('max', mul(d['rel_tol'], big), d['abs_tol']), tm.fun1('abs', sub(x, y))))

    @model('numpy.allclose')
    def allclose(flow, a, kw):
        c = close(flow, a, kw)
        return None if c is None else lib.reduce_(flow, 'all', c)

    @model('numpy.array_equal')
    def array_equal(flow, a, kw):
        xs = [one(flow, [x]) for x in a]
        if len(xs) != 2 or kw or None in xs:
            return None
        x, y = xs
        if ar.ndim(x) != ar.ndim(y):
            return FALSE
        same = and_(*[tm.eq(p, q) for p, q in zip(x.args[1], y.args[1])])
        return and_(same, lib.reduce_(flow, 'all', ew(tm.eq, x, y)))

    # -------------------------------------------------------------- reductions and running totals
    def running(kind):
        def f(flow, a, kw):
            x = one(flow, a)
            ax = a[1] if len(a) > 1 else kw.get('axis')
            if x is None or set(kw) - {'axis'}:
                return None
            if ar.ndim(x) == 1:
                k = 0
            else:
                k = const(ax)
                if k is None or ar.ndim(x) != 2:
                    return None
                k = k % 2
            red = tm.sum_ if kind == 'sum' else tm.prod_

            def body(*idx):
                n = add(idx[k], ONE)
                b = fresh_bv(n)
                j = list(idx)
                j[k] = b
                return red(n, lam((b,), nv(elem(x, tuple(j)))))
            return mk(x.args[0], x.args[1], body)
        return f
    M['numpy.cumsum'] = running('sum')
    M['numpy.cumprod'] = running('prod')

    @model('numpy.sort')
    def sort(flow, a, kw):
        # entry i is the i-th smallest entry of the operand
        x = one(flow, a)
        if x is None or ar.ndim(x) != 1 or len(a) > 1 or kw:
            return None
        return mk('np', x.args[1], lambda i: raw('ordstat', x, i))

    @model('numpy.unique')
    def unique(flow, a, kw):
        # the different entries of the operand in ascending order
        if len(a) == 1 and not kw and a[0].op == 'call' and a[0].args[0] == 'numpy.hstack':
            return raw('uniq', a[0])
        x = one(flow, a)
        if x is None or ar.ndim(x) != 1 or len(a) > 1 or kw:
            return None
        return mk('np', (raw('ucount', x),), lambda i: raw('ustat', x, i))

    @model('numpy.mean', 'numpy.average')
    def mean(flow, a, kw):
        x = one(flow, a)
        if x is None or set(kw) - {'axis'} or len(a) > 2:
            return None
        ax = a[1] if len(a) > 1 else kw.get('axis')
        if ax is None:
            return div(lib.reduce_(flow, 'sum', x), mul(*x.args[1]))
        k = const(ax)
        if k is None:
            return None
        n = dim(x, k % ar.ndim(x))
        return ew(lambda v: div(v, n), lib.reduce_(flow, 'sum', x, k))

    def cs_sum(k):
        def f(flow, a, kw):
            x = flow.as_cs(a[0])
            if len(a) != 1 or not is_arr(x) or x.op == 'ite':
                return None
            x = ar.to_cs(x)
            n = dim(x, k)

            def body(i, j):
                b = fresh_bv(n)
                return tm.sum_(n, lam((b,), nv(elem(x, (b, j) if k == 0 else (i, b)))))
            return mk('cs', (ONE, dim(x, 1)) if k == 0 else (dim(x, 0), ONE), body)
        return f
    M['casadi.sum1'] = cs_sum(0)
    M['casadi.sum2'] = cs_sum(1)

    @model('casadi.dot')
    def cs_dot(flow, a, kw):
        xs = [flow.as_cs(x) for x in a]
        if len(xs) != 2 or not all(is_arr(x) and x.op != 'ite' for x in xs):
            return None
        x, y = [ar.to_cs(v) for v in xs]
        n, m = dim(x, 0), dim(x, 1)
        p, q = fresh_bv(n), fresh_bv(m)
        return mk('cs', (ONE, ONE), lambda i, j: tm.sum_(n, lam((p,), tm.sum_(m, lam((q,), mul(nv(elem(x, (p, q))), nv(elem(y, (p, q)))))))))

    @model('casadi.cumsum')
    def cs_cumsum(flow, a, kw):
        x = flow.as_cs(a[0])
        ax = a[1] if len(a) > 1 else kw.get('axis', num(-1))
        k = const(ax)
        if not is_arr(x) or x.op == 'ite' or k not in (0, 1):
            return None
        return running('sum')(flow, [ar.to_cs(x), ax], {})

    # -------------------------------------------------------------- rearrangements
    def reverse(axes):
        def f(flow, a, kw):
            x = one(flow, a)
            if x is None:
                return None
            nd = ar.ndim(x)
            ks = axes
            if axes == 'arg':
                ax = a[1] if len(a) > 1 else kw.get('axis')
                if ax is None or ax is NONE:
                    ks = range(nd)
                else:
                    k = const(ax)
                    if k is None:
                        return None
                    ks = [k % nd]
            elif len(a) != 1 or kw or any(k >= nd for k in ks):
                return None
            return mk(x.args[0], x.args[1], lambda *idx: elem(x, tuple(sub(sub(n, ONE), i) if k in ks else i
                                                                       for k, (i, n) in enumerate(zip(idx, x.args[1])))))
        return f
    M['numpy.flip'] = reverse('arg')
    M['numpy.flipud'] = reverse([0])
    M['numpy.fliplr'] = reverse([1])

    @model('numpy.roll')
    def roll(flow, a, kw):
        x = one(flow, a)
        s = a[1] if len(a) > 1 else kw.get('shift')
        ax = a[2] if len(a) > 2 else kw.get('axis')
        if x is None or s is None or not is_numeric(s) or ar.ndim(x) > 1 and const(ax) is None:
            return None
        k = 0 if ar.ndim(x) == 1 else const(ax) % ar.ndim(x)

        def body(*idx):
            j = list(idx)
            j[k] = imod(sub(j[k], s), dim(x, k))
            return elem(x, tuple(j))
        return mk(x.args[0], x.args[1], body)

    @model('numpy.tile')
    def tile(flow, a, kw):
        x = one(flow, a)
        if len(a) != 2 or kw or x is None:
            return None
        r = a[1] if is_numeric(a[1]) else seqs.concrete(flow.seq_of(a[1]))
        if is_numeric(a[1]) and ar.ndim(x) == 1:
            n = dim(x, 0)
            return mk('np', (mul(n, a[1]),), lambda i: elem(x, (imod(i, n),)))
        if isinstance(r, (list, tuple)) and len(r) == 2:
            y = x if ar.ndim(x) == 2 else mk('np', (ONE, dim(x, 0)), lambda i, j: elem(x, (j,)))
            z = ar.repmat(y, *r)
            return mk('np', z.args[1], lambda i, j: elem(z, (i, j)))
        return None

    @model('numpy.repeat')
    def repeat(flow, a, kw):
        n = a[1] if len(a) > 1 else kw.get('repeats')
        ax = a[2] if len(a) > 2 else kw.get('axis')
        xs = arrs(flow, a[:1])
        if n is None or not is_numeric(n) or not xs:
            return None
        if not is_arr(xs[0]):
            return ar.const_arr('np', (n,), xs[0])
        x = one(flow, a)
        if x is None:
            return None
        if ar.ndim(x) == 1:
            return mk('np', (mul(dim(x, 0), n),), lambda i: elem(x, (idiv(i, n),)))
        k = const(ax)
        if k is None:
            return None
        k %= ar.ndim(x)
        sh = list(x.args[1])
        sh[k] = mul(sh[k], n)

        def body(*idx):
            j = list(idx)
            j[k] = idiv(j[k], n)
            return elem(x, tuple(j))
        return mk('np', tuple(sh), body)

    @model('numpy.column_stack')
    def column_stack(flow, a, kw):
        c = flow.seq_of(a[0])
        first = c.args[0][0] if c.op == 'list' and c.args[0] else c.args[1].args[1] if c.op == 'seq' else None
        if first is None:
            return None
        first = lib.to_array(flow, first)
        if not is_arr(first) or first.op == 'ite':
            return None
        if ar.ndim(first) == 1:
            x = lib.to_array(flow, a[0])
            return ar.transpose(x) if is_arr(x) and ar.ndim(x) == 2 else None
        return lib.hstack(flow, a[0], 1)

    def reshaped(x, sh):
        """x in row-major order in another shape; None if not expressible."""
        n = mul(*x.args[1])
        hole = [i for i, d in enumerate(sh) if d.op == 'num' and d.args[0] < 0]
        if len(hole) > 1 or len(sh) > 2:
            return None
        if hole:
            rest = [d for i, d in enumerate(sh) if i != hole[0]]
            sh = list(sh)
            sh[hole[0]] = n if all(d is ONE for d in rest) else div(n, mul(*rest))
            if not is_int(sh[hole[0]]):
                return None
        elif mul(*sh) is not n:
            return None
        src = x.args[1]
        if tuple(sh) == tuple(src):
            return x

        def flat(f):
            if len(src) == 1:
                return (f,)
            if src[1] is ONE:
                return (f, ZERO)
            if src[0] is ONE:
                return (ZERO, f)
            return (idiv(f, src[1]), imod(f, src[1]))
        if len(sh) == 1:
            return mk('np', tuple(sh), lambda i: elem(x, flat(i)))
        r, c = sh
        return mk('np', (r, c), lambda i, j: elem(x, flat(j if r is ONE else i if c is ONE else add(mul(i, c), j))))
    lib.reshaped = reshaped

    @model('numpy.reshape')
    def reshape(flow, a, kw):
        x = one(flow, a)
        if x is None or kw or len(a) != 2:
            return None
        sh = lib.shape_args(flow, a[1])
        return reshaped(x, sh) if sh is not None else None

    @model('numpy.ravel')
    def ravel(flow, a, kw):
        x = one(flow, a)
        return reshaped(x, [mul(*x.args[1])]) if x is not None and len(a) == 1 and not kw else None

    @model('numpy.expand_dims')
    def expand_dims(flow, a, kw):
        x = one(flow, a)
        k = const(a[1] if len(a) > 1 else kw.get('axis'))
        if x is None or k is None or ar.ndim(x) != 1:
            return None
        return reshaped(x, [ONE, dim(x, 0)] if k == 0 else [dim(x, 0), ONE])

    @model('numpy.full_like')
    def full_like(flow, a, kw):
        x = one(flow, a)
        return ar.const_arr('np', x.args[1], a[1]) if x is not None and len(a) == 2 and not kw else None

    @model('numpy.empty')
    def empty(flow, a, kw):
        sh = lib.shape_args(flow, a[0]) if a else None
        if sh is None or not float_like(kw):
            return None
        return raw('typed', 'np%d' % len(sh), raw('sym', 'uninitialised%d' % next(flow.uid), 'opaque'), tuple(sh))

    @model('numpy.vander')
    def vander(flow, a, kw):
        d = lib.norm_args(flow, ['x', 'N', 'increasing'], a, kw, {'N': NONE, 'increasing': FALSE})
        x = one(flow, [d['x']]) if set(d) == {'x', 'N', 'increasing'} else None
        if x is None or d['increasing'] not in (TRUE, FALSE):
            return None
        n = dim(x, 0) if d['N'] is NONE else d['N']
        return mk('np', (dim(x, 0), n), lambda i, j: pow_(elem(x, (i,)), j if d['increasing'] is TRUE else sub(sub(n, ONE), j)))

    def triangle(keep, *names):
        def f(flow, a, kw):
            x = one(flow, a)
            k = a[1] if len(a) > 1 else kw.get('k', ZERO)
            if x is None or ar.ndim(x) != 2:
                return None
            return mk(x.args[0], x.args[1], lambda i, j: ite(keep(i, j, k), nv(elem(x, (i, j))), ZERO))
        for n in names:
            M.setdefault(n, f)
    triangle(lambda i, j, k: not_(tm.lt(j, add(i, k))), 'numpy.triu')
    triangle(lambda i, j, k: not_(tm.lt(add(i, k), j)), 'numpy.tril')

    @model('numpy.kron')
    def kron(flow, a, kw):
        xs = [one(flow, [x]) for x in a]
        if len(xs) != 2 or None in xs or any(ar.ndim(x) != 2 for x in xs):
            return None
        z = ar.kron(*[ar.to_cs(x) for x in xs])
        return mk('np', z.args[1], lambda i, j: elem(z, (i, j)))

    @model('numpy.digitize')
    def digitize(flow, a, kw):
        d = lib.norm_args(flow, ['x', 'bins', 'right'], a, kw, {'right': FALSE})
        if set(d) != {'x', 'bins', 'right'} or d['right'] not in (TRUE, FALSE):
            return None
        return M['numpy.searchsorted'](flow, [d['bins'], d['x'], string('left' if d['right'] is TRUE else 'right')], {})

    @model('numpy.delete')
    def delete(flow, a, kw):
        x = one(flow, a)
        if x is None or len(a) != 2 or kw or ar.ndim(x) != 1 or not is_numeric(a[1]) or a[1].op == 'num' and a[1].args[0] < -1:
            return None
        n = dim(x, 0)
        k = sub(n, ONE) if a[1] is num(-1) else a[1]
        return mk('np', (sub(n, ONE),), lambda i: ite(tm.lt(i, k), elem(x, (i,)), elem(x, (add(i, ONE),))))

    @model('numpy.insert')
    def insert(flow, a, kw):
        x = one(flow, a)
        if x is None or len(a) != 3 or kw or ar.ndim(x) != 1 or not is_numeric(a[2]) or not is_numeric(a[1]) or a[1].op == 'num' and a[1].args[0] < 0:
            return None
        n, k = dim(x, 0), a[1]
        if k is ZERO:
            return ar.concat('np', 0, [mk('np', (ONE,), lambda i: a[2]), x])
        if k is n:
            return ar.concat('np', 0, [x, mk('np', (ONE,), lambda i: a[2])])
        return mk('np', (add(n, ONE),), lambda i: ite(tm.eq(i, k), a[2], ite(tm.lt(i, k), elem(x, (i,)), elem(x, (sub(i, ONE),)))))

    @model('numpy.einsum')
    def einsum(flow, a, kw):
        if not a or a[0].op != 'str' or kw:
            return None
        spec = a[0].args[0].replace(' ', '')
        ins, arrow, out = spec.partition('->')
        ins = ins.split(',')
        if not arrow or '.' in spec or len(ins) != len(a) - 1 or len(out) > 2:
            return None
        xs = [one(flow, [x]) for x in a[1:]]
        if None in xs or any(ar.ndim(x) != len(s) for x, s in zip(xs, ins)):
            return None
        size = {}
        for x, s in zip(xs, ins):
            for k, c in enumerate(s):
                size.setdefault(c, dim(x, k))
        if any(c not in size for c in out):
            return None

        def body(*idx):
            e = dict(zip(out, idx))
            inner = [c for c in size if c not in out]
            for c in inner:
                e[c] = fresh_bv(size[c])
            v = mul(*[nv(elem(x, tuple(e[c] for c in s))) for x, s in zip(xs, ins)]) if len(xs) > 1 else \
                nv(elem(xs[0], tuple(e[c] for c in ins[0])))
            for c in inner:
                v = tm.sum_(size[c], lam((e[c],), v))
            return v
        return body() if not out else mk('np', tuple(size[c] for c in out), body)

    M['numpy.inner'] = lambda flow, a, kw: M['numpy.dot'](flow, a, kw) if len(a) == 2 and all(
        one(flow, [x]) is not None and ar.ndim(one(flow, [x])) == 1 for x in a) else None
    M['numpy.vdot'] = M['numpy.inner']

    # -------------------------------------------------------------- element types
    def kind_of(t):
        if t is None or t is NONE:
            return 'same'
        if t.op == 'ext':
            return 'float' if t.args[0] in FLOATS else 'int' if t.args[0] in INTS else 'bool' if t.args[0] in ('builtins.bool', 'numpy.bool_') else '?'
        if t.op == 'str':
            return {'float': 'float', 'float64': 'float', 'd': 'float', 'f8': 'float', 'int': 'int', 'int64': 'int', 'i8': 'int',
                    'bool': 'bool', '?': 'bool'}.get(t.args[0], '?')
        return '?'

    def float_like(kw):
        return kind_of(kw.get('dtype')) in ('same', 'float')

    def convert(v, t):
        """Array v with elements of type t; None if the conversion is not modelled."""
        k = kind_of(t)
        if k == 'same':
            return v
        if k == 'float':
            return ew(nv, v)
        if k == 'int':
            return ew(lambda x: tm.fun1('trunc', nv(x)), v)
        if k == 'bool':
            return ew(lambda x: x if is_boolish(x) else not_(tm.eq(x, ZERO)), v)
        return None
    lib.convert = convert

    def typed(name, pos):
        """The model of name, with its dtype argument (number pos) honoured."""
        f = M[name]

        def g(flow, a, kw):
            t = a[pos] if len(a) > pos else kw.get('dtype')
            k = kind_of(t)
            if k == '?' or k in ('int', 'bool') and name not in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ones', 'numpy.arange'):
                return unknown('%s with dtype' % name)
            r = f(flow, a[:pos], {x: y for x, y in kw.items() if x not in ('dtype', 'copy', 'order')})
            if r is None or k in ('same', 'float') and name in ('numpy.zeros', 'numpy.ones', 'numpy.eye', 'numpy.full'):
                return r
            return convert(r, t)
        M[name] = g
    for n, p in (('numpy.array', 1), ('numpy.asarray', 1), ('numpy.asanyarray', 1), ('numpy.zeros', 1), ('numpy.ones', 1), ('numpy.full', 2),
                 ('numpy.arange', 3), ('numpy.zeros_like', 1), ('numpy.ones_like', 1), ('numpy.eye', 3), ('numpy.identity', 1), ('numpy.linspace', 6)):
        typed(n, p)
