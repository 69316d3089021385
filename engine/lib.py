"""Models of the library vocabulary the package uses: builtins, numpy, casadi, containers, polynomials."""
import ast
import sys
import builtins

from terms import *
import terms as tm
import arrays as ar
from arrays import is_arr, as_arr, elem, mk, ew, type_of, dim
import seqs
from seqs import mk_list, mk_seq
import csmodel
import spmodel
import pickling

BUILTINS = set(dir(builtins))
ALIASES = {'numpy.concatenate': 'numpy.concatenate'}
NOT_NONE_METHODS = {'numel', 'items', 'keys', 'values', 'format'}

# functions of the vocabulary that are known to be different functions: a difference between
# two terms built from these is a real difference
DISTINCT = set()
UNARY = {'cos', 'sin', 'exp', 'log', 'sqrt', 'fabs', 'abs', 'tan'}


def S(x):
    return string(x)


# ------------------------------------------------------------------ strings
def str_concat(a, b):
    def parts(t):
        if t.op == 'str':
            return (t.args[0],) if t.args[0] else ()
        if t.op == 'fmt':
            return t.args[0]
        return (t,)
    return mk_fmt(parts(a) + parts(b))


def mk_fmt(ps):
    out = []
    for p in ps:
        if isinstance(p, T) and p.op == 'str':
            p = p.args[0]
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return string('')
    if len(out) == 1 and isinstance(out[0], str):
        return string(out[0])
    return raw('fmt', tuple(out))


@builder('fmt')
def _b_fmt(ps):
    return mk_fmt(ps)


def to_str(t):
    if t.op == 'str':
        return t
    if t.op == 'num' and t.args[0].denominator == 1:
        return string(str(int(t.args[0])))
    if t.op == 'fmt' or type_of(t) == 'str':
        return t
    return raw('tostr', t)


def str_format(flow, f, args):
    """'%' formatting."""
    if f.op != 'str':
        return raw('fmt', (f,) + tuple(flow.frozen(a) for a in args))
    import re
    a = args[0]
    vals = list(a.args) if a.op == 'tuple' else [a]
    ps = re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[sdrifgex%])', f.args[0])
    out = []
    k = 0
    for p in ps:
        if p == '%%':
            out.append('%')
        elif p.startswith('%') and len(p) > 1:
            if k >= len(vals):
                flow.raise_(TRUE, S('TypeError'))
                return string('')
            v = flow.frozen(vals[k])
            k += 1
            out.append(to_str(v) if p in ('%s', '%d', '%i') else raw('fmtval', p, v))
        else:
            out.append(p)
    if k < len(vals):
        flow.raise_(TRUE, S('TypeError'))
    return mk_fmt(out)


def brace_format(flow, f, args, kw):
    if f.op != 'str' or any(a.op == 'star' for a in args):
        return raw('fmt', (f,) + tuple(flow.frozen(a) for a in args))
    import string as _s
    out = []
    auto = 0
    try:
        for lit, name, spec, conv in _s.Formatter().parse(f.args[0]):
            out.append(lit)
            if name is None:
                continue
            if name == '':
                name = str(auto)
                auto += 1
            if name.isdigit():
                if int(name) >= len(args):
                    flow.raise_(TRUE, S('IndexError'))
                    return string('')
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return raw('fmt', (f,) + tuple(flow.frozen(a) for a in args))
            v = flow.frozen(v)
            out.append(to_str(v) if not spec and not conv else raw('fmtval', (spec or '') + '!' + (conv or ''), v))
    except ValueError:
        return flow.unk('format string')
    return mk_fmt(out)


# ------------------------------------------------------------------ polynomials  poly1d(lam X. value)
def poly(f):
    x = fresh_bv(None, 'real')
    return raw('poly1d', lam((x,), f(x)))


def poly_at(p, x):
    return open_lam(p.args[0], (x,))


def poly_binop(flow, op, a, b):
    f = flow.arith(op)
    if f is None:
        return flow.unk('polynomial operator')
    if op == '/' and b.op == 'poly1d':
        return flow.unk('polynomial division')
    if op == '**' and b.op == 'poly1d':
        return flow.unk('polynomial power')
    if is_arr(a) or is_arr(b):
        return flow.unk('polynomial with array')
    return poly(lambda x: f(poly_at(a, x) if a.op == 'poly1d' else a, poly_at(b, x) if b.op == 'poly1d' else b))


def make_poly(flow, c):
    c = flow.content(c)
    xs = seqs.concrete(c)
    if xs is not None:
        return poly(lambda x: add(*[mul(k, pow_(x, num(len(xs) - 1 - i))) for i, k in enumerate(xs)]))
    a = to_array(flow, c)
    if is_arr(a) and ar.ndim(a) == 1:
        n = dim(a, 0)

        def f(x):
            b = fresh_bv(n)
            return tm.sum_(n, lam((b,), mul(elem(as_arr(a), (b,)), pow_(x, sub(sub(n, ONE), b)))))
        return poly(f)
    return flow.unk('poly1d')


def poly_coef(p):
    return raw('typed', 'np1', raw('coefs', p), (raw('ncoef', p),))


def poly_set_coef(flow, p, v):
    """p.coef = v for  v_k = p.coef_k * h**-(L-1-k)  (substitution X -> X/h) or v = p.coef * s."""
    L = raw('ncoef', p)
    if not is_arr(v) or v.op == 'ite' or ar.ndim(v) != 1:
        return flow.unk('assignment to polynomial coefficients')
    a = as_arr(v)
    k = fresh_bv(L)
    e = elem(a, (k,))
    c = elem(poly_coef(p), (k,))
    q = div(e, c)

    def general():
        return poly(lambda x: tm.sum_(L, lam((k,), mul(e, pow_(x, sub(sub(L, ONE), k))))))
    if tm.contains(q, c) or dim(a, 0) is not L:
        if dim(a, 0) is not L:
            return flow.unk('number of coefficients')
        return general()
    if k not in fv(q):
        return poly(lambda x: mul(q, poly_at(p, x)))
    # q = s**(L-1-k)
    pw = to_poly(q)
    if len(pw) == 1:
        (m, cc), = pw.items()
        base = ONE
        ok = cc == 1
        for at, e1 in m:
            if at.op == 'pow':
                ex = mul(at.args[1], num(e1))
                r = div(ex, sub(sub(L, ONE), k))
                if r.op == 'num' and r.args[0].denominator == 1:
                    base = mul(base, pow_(at.args[0], r))
                    continue
            ok = False
        if ok:
            return poly(lambda x: poly_at(p, mul(x, base)))
    return general()


def integral(l, x):
    return raw('integral', l, x)


@builder('integral')
def _b_integral(l, x):
    return lift(lambda y: raw('integral', l, y), x)


def polyint(flow, p):
    return poly(lambda y: integral(p.args[0], y))


def polyder(flow, p):
    return poly(lambda y: raw('deriv', p.args[0], y))


def apply_poly(flow, p, x):
    return ew(lambda v: poly_at(p, v), x)


# ------------------------------------------------------------------ arrays
def to_array(flow, t):
    """numpy array of a (nested) sequence or array value."""
    return lift(lambda x: _to_array(flow, x), t)


def _to_array(flow, t):
    if t.op == 'unknown' or is_arr(t) or t.op == 'filt1':
        return t
    c = flow.content(t)
    if c.op == 'ite':
        return lift(lambda x: _to_array(flow, x), c)
    if c.op == 'tuple':
        c = mk_list(list(c.args))
    if c.op == 'tupleof':
        c = c.args[0]
    if c.op == 'unknown':
        return c
    if c.op == 'list':
        xs = [_to_array_elem(flow, x) for x in c.args[0]]
        if not xs:
            return mk('np', (ZERO,), lambda i: ZERO)
        if any(x.op == 'unknown' for x in xs):
            return [x for x in xs if x.op == 'unknown'][0]
        if all(is_arr(x) for x in xs):
            if len(xs) == 1 and ar.ndim(xs[0]) == 1:
                a = as_arr(xs[0])
                return mk('np', (ONE, dim(a, 0)), lambda i, j: elem(a, (j,)))
            if all(ar.ndim(x) == 1 for x in xs):
                d0 = dim(xs[0], 0)

                def f(i, j):
                    r = elem(as_arr(xs[-1]), (j,))
                    for k in range(len(xs) - 2, -1, -1):
                        r = ite(tm.eq(i, num(k)), elem(as_arr(xs[k]), (j,)), r)
                    return r
                return mk('np', (num(len(xs)), d0), f)
            return flow.unk('array of arrays')
        if any(x.op == 'filt1' for x in xs):
            return xs[0] if len(xs) == 1 else flow.unk('array of filtered')
        if any(is_arr(x) for x in xs):
            return flow.unk('ragged array')

        def g(i):
            if i.op == 'num':
                return xs[int(i.args[0])]
            st = seqs.step(xs)
            if st is not None:
                return add(xs[0], mul(st, i))
            r = xs[-1]
            for k in range(len(xs) - 2, -1, -1):
                r = ite(tm.eq(i, num(k)), xs[k], r)
            return r
        return mk('np', (num(len(xs)),), g)
    if c.op == 'seq':
        n, l = c.args
        (b,), body = l.args
        body = _to_array_elem(flow, body)
        if body.op == 'unknown':
            return body
        if is_arr(body):
            if body.op == 'ite':
                sh = {ar.shape_of(as_arr(x)) for x in leaves(body)}
                if len(sh) != 1:
                    return flow.unk('ragged array')
                sh = sh.pop()
            else:
                sh = as_arr(body).args[1]
            if any(b in fv(d) for d in sh):
                return flow.unk('ragged array')
            return mk('np', (n,) + tuple(sh),
                      lambda i, *r: lift(lambda a: elem(as_arr(a), tuple(r)), subst(body, {b: i})))
        return ar.arr('np', (n,), lam((b,), body))
    if c.op == 'filt':
        return seqs.mk_filt1(*c.args)
    if c.op in ('lcat', 'flatmap'):
        n = seqs.length(c)
        b = fresh_bv(n)
        x = seqs.item(c, b)
        if x.op == 'unknown' or c.op == 'flatmap' or is_arr(x) or seqs.is_seq(flow.content(x)):
            return flow.unk('array of concatenation')
        return ar.arr('np', (n,), lam((b,), x))
    if is_numeric(c) or is_boolish(c):
        return c
    ty = type_of(c)
    if ty.startswith('list:num') or ty.startswith('list:int'):
        n = seqs.length(c)
        return mk('np', (n,), lambda i: seqs.item(c, i))
    return raw('call', 'numpy.array', flow.frozen(c))


def _to_array_elem(flow, x):
    c = flow.content(x)
    if seqs.is_seq(c) or c.op in ('tuple',):
        return _to_array(flow, x)
    if c.op == 'ite':
        return lift(lambda y: _to_array_elem(flow, y), c)
    return c


def ravel(a):
    a = as_arr(a)
    if ar.ndim(a) == 1:
        return a
    if dim(a, 1) is ONE:
        return mk('np', (dim(a, 0),), lambda i: elem(a, (i, ZERO)))
    if dim(a, 0) is ONE:
        return mk('np', (dim(a, 1),), lambda i: elem(a, (ZERO, i)))
    return a


def atleast_1d(flow, x):
    x = to_array(flow, x)
    return lift(lambda y: y if is_arr(y) or y.op in ('unknown', 'filt1') else
                mk('np', (ONE,), lambda i: y) if is_numeric(y) else raw('call', 'numpy.atleast_1d', flow.frozen(y)), x)


def atleast_2d(flow, x):
    x = to_array(flow, x)

    def f(y):
        if y.op == 'unknown':
            return y
        if is_arr(y):
            if ar.ndim(y) >= 2:
                return y if ar.lib_of(y) == 'np' else mk('np', ar.shape_of(as_arr(y)), lambda i, j: elem(as_arr(y), (i, j)))
            a = as_arr(y)
            return mk('np', (ONE, dim(a, 0)), lambda i, j: elem(a, (j,)))
        if is_numeric(y):
            return mk('np', (ONE, ONE), lambda i, j: y)
        return raw('call', 'numpy.atleast_2d', flow.frozen(y))
    return lift(f, x)


def shape_args(flow, x):
    c = flow.content(x)
    xs = seqs.concrete(c)
    if xs is not None:
        return tuple(xs)
    if is_numeric(x):
        return (x,)
    return None


def reduce_(flow, kind, x, axis=None):
    def f(y):
        if y.op == 'unknown':
            return y
        if y.op == 'filt1':
            n, c, l = y.args
            (b,), cond = c.args
            (b2,), body = l.args
            body = subst(body, {b2: b})
            if kind == 'sum':
                return tm.sum_(n, lam((b,), ite(cond, ar.numv(body), ZERO)))
            if kind == 'prod':
                return tm.prod_(n, lam((b,), ite(cond, ar.numv(body), ONE)))
            if kind == 'any':
                return tm.any_(n, lam((b,), and_(cond, body)))
            if kind == 'all':
                return not_(tm.any_(n, lam((b,), and_(cond, not_(body)))))
        if is_arr(y):
            if axis is None or ar.ndim(y) == 1:
                return ar.reduce_all(kind, y)
            return ar.reduce_axis(kind, y, axis)
        if is_numeric(y) or is_boolish(y):
            return y
        return None
    a = to_array(flow, x)
    r = [f(y) for y in leaves(a)]
    if any(y is None for y in r):
        return raw('call', 'numpy.' + kind, flow.frozen(x))
    return lift(f, a)


def hstack(flow, x, axis_if_2d=1, name='hstack'):
    c = flow.seq_of(x)

    def one(y):
        y = to_array(flow, y)
        return lift(lambda z: z if is_arr(z) else (mk('np', (ONE,), lambda i: z) if is_numeric(z) else z), y)

    def f(c):
        if c.op == 'unknown':
            return c
        if c.op == 'list':
            xs = [one(y) for y in c.args[0]]
            if xs and all(is_arr(y) and y.op != 'ite' for y in xs):
                nd = ar.ndim(xs[0])
                if name == 'vstack':
                    xs = [atleast_2d(flow, y) for y in xs]
                    return ar.concat('np', 0, xs)
                return ar.concat('np', 0 if nd == 1 else axis_if_2d, [np_view(y) for y in xs])
            return raw('call', 'numpy.' + name, flow.frozen(c))
        if c.op == 'seq':
            n, l = c.args
            (b,), body = l.args
            body = one(body)
            if is_arr(body):
                nd = ar.ndim(leaves(body)[0])
                if name == 'vstack':
                    if nd == 1:
                        return to_array(flow, mk_seq(n, lam((b,), body)))
                    return ar.concat_seq('np', 0, n, lam((b,), body))
                return ar.concat_seq('np', 0 if nd == 1 else axis_if_2d, n, lam((b,), body))
            return raw('call', 'numpy.' + name, flow.frozen(c))
        if c.op == 'lcat':
            ps = [f(p) for p in c.args[0]]
            if all(is_arr(p) and p.op != 'ite' for p in ps):
                nd = ar.ndim(ps[0])
                return ar.concat('np', 0 if nd == 1 or name == 'vstack' else axis_if_2d, ps)
        return raw('call', 'numpy.' + name, flow.frozen(c))

    def g(c):
        # pieces of unequal size: the concatenation is left uninterpreted
        r = f(c)
        if r.op == 'unknown' and c.op != 'unknown':
            z = flow.frozen(c)
            if not has_op(z, ('unknown',)):
                return raw('call', 'numpy.' + name, z)
        return r
    return lift(g, c)


def np_view(a):
    return a


def cs_cat(flow, axis, args, name):
    """casadi horzcat / vertcat of the argument list."""
    for a in args:
        none = a is NONE
        if a.op == 'star':
            none = any(x is NONE for x in seqs.concrete(a.args[0]) or ())
        if none:
            flow.raise_(TRUE, 'NotImplementedError')
            return NONE
    if axis == 0 and not any(a.op == 'star' for a in args):
        bs = [csmodel.blocks_of(flow, a) for a in args]
        if any(b is not None for b in bs):
            out = []
            for a, b in zip(args, bs):
                out += b if b is not None else [a]
            out = [csmodel.matrix(flow, x) for x in out]
            if all(x is not None for x in out):
                return raw('blocks', tuple(out))
    parts = []
    for a in args:
        if a.op == 'star':
            parts.append(a.args[0])
        else:
            parts.append(mk_list([a]))
    c = seqs.lcat(*parts)

    def mat(y):
        y = flow.as_cs(y)
        if is_arr(y):
            return ar.to_cs(y) if y.op != 'ite' else lift(ar.to_cs, y)
        if is_numeric(y):
            return mk('cs', (ONE, ONE), lambda i, j: y)
        return None

    def f(c):
        if c.op == 'unknown':
            return c
        if c.op == 'list':
            xs = [mat(y) for y in c.args[0]]
            if xs and all(x is not None for x in xs):
                return ar.concat('cs', axis, xs)
            us = [flow.as_cs(y) if x is None else x for x, y in zip(xs, c.args[0])]
            if axis == 0 and all(u.op == 'spmat' or is_arr(u) and u.op != 'ite' for u in us) \
                    and all(spmodel.cols(spmodel.pattern(u)) is ONE for u in us):
                return raw('spmat', raw('spv', tuple(spmodel.pattern(u) for u in us)), ar.concat('cs', 0, [spmodel.stored(u) for u in us]))
        elif c.op == 'seq':
            n, l = c.args
            (b,), body = l.args
            m = mat(body)
            if m is not None:
                r = ar.concat_seq('cs', axis, n, lam((b,), m))
                if r.op != 'unknown':
                    return r
        elif c.op == 'lcat':
            ps = [f(p) for p in c.args[0]]
            if all(is_arr(p) and p.op != 'ite' for p in ps):
                return ar.concat('cs', axis, ps)
        return raw('call', 'casadi.' + name, flow.frozen(flat_cat(c, name)))
    return lift(f, c)


def flat_cat(c, name):
    return c


# ------------------------------------------------------------------ external calls
def norm_args(flow, names, args, kw, defaults=None):
    out = dict(defaults or {})
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        out[k] = v
    return out


def generic(flow, name, args, kw):
    al = [flow.frozen(a) for a in args] + [raw('kw', k, flow.frozen(v)) for k, v in sorted(kw.items())]
    for a in al:
        if a.op == 'unknown':
            return a
    return euf('call', name, *al)


MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def call_ext(flow, name, args, kw):
    if flow.boxed and name.startswith('casadi.'):
        parts = name.split('.')
        kind = parts[1] if parts[1] in spmodel.KINDS else flow.join_kinds(all_boxes(flow, args))
        r = _call_ext(flow, name, [flow.mats_out(a) for a in args], {k: flow.mats_out(v) for k, v in kw.items()})
        return flow.box(lift(spmodel.one, r) if parts[1] in spmodel.KINDS else r, kind)
    if flow.boxed and name.startswith('numpy.'):
        args, kw = [flow.mats_out(a) for a in args], {k: flow.mats_out(v) for k, v in kw.items()}
    return _call_ext(flow, name, args, kw)


def all_boxes(flow, args):
    out = []
    for a in args:
        for r in ([a] if a.op == 'ref' else find_ops(a, ('ref',))):
            if flow.is_box(r):
                out.append(r)
            elif flow.deref(r) is not None and flow.deref(r)[0] == 'list':
                out += all_boxes(flow, [flow.deref(r)[1]])
        if a.op != 'ref' and is_arr(a):
            out.append(a)
    return out


def base_method(flow, name, args, kw):
    """dict.__getitem__(d, k) and the like: the method of the built-in type itself."""
    x = args[0]
    o = flow.deref(x) if x.op == 'ref' else None
    if o is not None and o[0] == 'inst':
        x = o[2].get('__base__')
        if x is None:
            if name == '__init__':
                flow.setattr(args[0], '__base__', call_ext(flow, 'builtins.dict', args[1:], kw))
                return NONE
            return None
    if name == '__getitem__' and len(args) == 2:
        return flow.getitem(x, args[1])
    if name == '__setitem__' and len(args) == 3:
        flow.setitem(x, args[1], args[2])
        return NONE
    if name == '__contains__' and len(args) == 2:
        return flow.contains(args[1], x)
    if name == '__len__':
        return MODELS['builtins.len'](flow, [x], {})
    return flow.call_method(x, name, args[1:], kw)


def _call_ext(flow, name, args, kw):
    if name.startswith('builtins.dict.') and args and name != 'builtins.dict.fromkeys':
        r = base_method(flow, name[14:], args, kw)
        if r is not None:
            return r
    if not name.startswith('builtins.'):
        # a number-crunching function of something unknown is unknown
        for x in list(args) + list(kw.values()):
            if x.op == 'unknown':
                return x
            c = flow.content(x) if x.op == 'ref' else x
            if c.op in ('unknown', 'list', 'tuple', 'arr', 'lam', 'seq') or is_numeric(c):
                us = tm.find_ops(c, ('unknown',))
                if us:
                    return us[0]
    f = MODELS.get(name)
    if f is not None and not any(a.op == 'star' for a in args) or f is not None and getattr(f, 'star_ok', False):
        r = f(flow, list(args), dict(kw))
        if r is not None:
            return r
    short = name.rpartition('.')[2]
    if name.startswith('builtins.') and (short.endswith('Error') or short in ('Exception', 'StopIteration', 'Warning')):
        return raw('excval', short)
    return generic(flow, name, args, kw)


def star_ok(f):
    f.star_ok = True
    return f


# --- builtins
@model('builtins.len')
def m_len(flow, a, kw):
    def f(x):
        c = flow.content(x)
        if c.op == 'ite':
            return lift(f, c)
        if is_arr(c):
            return dim(as_arr(c), 0)
        if flow.inst_class(x) is not None:
            m = flow.getattr_opt(x, '__len__')
            if m is not None:
                return flow.call(m, [], {})
        return seqs.length(c)
    return lift(f, a[0])


@model('builtins.range')
def m_range(flow, a, kw):
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a[:3])
    if st is not ONE:
        if all(x.op == 'num' for x in (lo, hi, st)):
            return mk_list([num(k) for k in range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))])
        if st.op == 'num' and st.args[0] == -1:
            n = sub(lo, hi)
            b = fresh_bv(n)
            return mk_seq(n, lam((b,), sub(lo, b)))
        return flow.unk('range with step')
    n = sub(hi, lo)
    return lift(lambda m: _range(m, lo), n)


def _range(n, lo):
    if n.op == 'unknown':
        return n
    if n.op == 'num':
        if n.args[0] > 64:
            b = fresh_bv(n)
            return raw('seq', n, lam((b,), add(lo, b)))
        return mk_list([add(lo, num(k)) for k in range(max(0, int(n.args[0])))])
    b = fresh_bv(n)
    return mk_seq(n, lam((b,), add(lo, b)))


@model('builtins.enumerate')
def m_enumerate(flow, a, kw):
    s = flow.seq_of(a[0])
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)

    def f(s):
        xs = seqs.concrete(s)
        if xs is not None:
            return mk_list([raw('tuple', add(start, num(k)), x) for k, x in enumerate(xs)])
        if s.op == 'seq' or s.op not in seqs.SEQ_OPS:
            n, l = seqs.symbolic(s)
            if n is None:
                return flow.unk('enumerate')
            (b,), body = l.args
            return mk_seq(n, lam((b,), raw('tuple', add(start, b), body)))
        return flow.unk('enumerate')
    return lift(f, s)


@model('builtins.zip')
@star_ok
def m_zip(flow, a, kw):
    if any(x.op == 'star' for x in a):
        return None
    ss = [flow.seq_of(x) for x in a]

    def f(*ss):
        cs_ = [seqs.concrete(s) for s in ss]
        if all(c is not None for c in cs_):
            return mk_list([raw('tuple', *t) for t in zip(*cs_)])
        sy = []
        for s in ss:
            if s.op in ('filt', 'flatmap', 'unknown'):
                return flow.unk('zip')
            if s.op == 'list':
                b0 = fresh_bv(num(len(s.args[0])))
                sy.append((num(len(s.args[0])), lam((b0,), seqs.item(s, b0))))
            else:
                n, l = seqs.symbolic(s)
                if n is None:
                    return flow.unk('zip')
                sy.append((n, l))
        ns = list(dict.fromkeys(n for n, _ in sy))
        n = ns[0] if len(ns) == 1 else tm.minmax('min', *ns)
        b = fresh_bv(n)
        return mk_seq(n, lam((b,), raw('tuple', *[open_lam(l, (b,)) for _, l in sy])))
    return lift(f, *ss)


@model('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed', 'builtins.iter')
def m_list(flow, a, kw):
    return None


def _m_list(flow, a, kw):
    if not a:
        return flow.new_list(mk_list([]))
    return flow.new_list(flow.seq_of(a[0]))


MODELS['builtins.list'] = _m_list


def _m_tuple(flow, a, kw):
    if not a:
        return raw('tuple')
    if a[0].op in ('tuple', 'tupleof'):
        return a[0]
    s = flow.seq_of(a[0])

    def f(s):
        xs = seqs.concrete(s)
        return raw('tuple', *xs) if xs is not None else s if s.op == 'unknown' else raw('tupleof', s)
    return lift(f, s)


MODELS['builtins.tuple'] = _m_tuple
MODELS['builtins.iter'] = lambda flow, a, kw: flow.seq_of(a[0])


def _m_reversed(flow, a, kw):
    s = flow.seq_of(a[0])

    def f(s):
        xs = seqs.concrete(s)
        if xs is not None:
            return mk_list(xs[::-1])
        if s.op == 'unknown' or s.op == 'filt':
            return flow.unk('reversed')
        n, l = seqs.symbolic(s)
        if n is None:
            return flow.unk('reversed')
        b = fresh_bv(n)
        return mk_seq(n, lam((b,), open_lam(l, (sub(sub(n, ONE), b),))))
    return lift(f, s)


MODELS['builtins.reversed'] = _m_reversed


def _order_key(x):
    """Python value that orders like the constant x, or None."""
    if x.op in ('str', 'num', 'bool'):
        return ('str' if x.op == 'str' else 'num', x.args[0])
    if x.op == 'tuple':
        ks = [_order_key(y) for y in x.args]
        if ks and None not in ks:
            return ('tuple', tuple(ks))
        if ks and ks[0] is not None:
            return ('head', ks[0])
    return None


def _m_sorted(flow, a, kw):
    s = flow.seq_of(a[0])
    xs = seqs.concrete(s)
    rev = kw.get('reverse', tm.FALSE)
    if xs is not None and not set(kw) - {'key', 'reverse'} and rev in (tm.TRUE, tm.FALSE):
        f = kw.get('key', NONE)
        vals = xs if f is NONE else [flow.frozen(flow.call(f, [x], {})) for x in xs]
        ks = [_order_key(v) for v in vals]
        if None not in ks and len({k[0] for k in ks}) <= 1 and not (any(k[0] == 'head' for k in ks) and len(set(ks)) < len(ks)):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev is tm.TRUE)
            return flow.new_list(mk_list([xs[i] for i in order]))
    return generic(flow, 'builtins.sorted', [flow.frozen(s)], kw)


MODELS['builtins.sorted'] = _m_sorted


@model('builtins.dict')
def m_dict(flow, a, kw):
    d = raw('dict', ())
    if a:
        c = flow.content(a[0])
        if c.op == 'dict':
            d = c
        elif c.op in ('dstore', 'dictof', 'dupdate', 'carryd') or type_of(c) == 'dict':
            d = c
        else:
            d = seqs.dict_of_pairs(flow, flow.seq_of(a[0]))
    if '**' in kw:
        if not a and len(kw) == 1:
            return flow.new_dict(kw['**'])
        return flow.unk('dict(**)')
    for k, v in kw.items():
        d = seqs.dict_store(flow, d, string(k), v)
    return flow.new_dict(d)


@model('builtins.set', 'builtins.frozenset')
def m_set(flow, a, kw):
    if not a:
        return seqs.mk_set([])
    return lift(seqs.set_of, flow.seq_of(a[0]))


@model('builtins.str')
def m_str(flow, a, kw):
    return lift(to_str, flow.frozen(a[0])) if a else string('')


@model('builtins.int', 'builtins.float')
def m_int(flow, a, kw):
    if a and is_int(a[0]):
        return a[0]
    if a and a[0].op == 'num' and False:
        return a[0]
    return None


@model('builtins.float')
def m_float(flow, a, kw):
    if a and a[0].op == 'str' and a[0].args[0].lstrip('+-').lower() in ('inf', 'infinity'):
        return neg(INF) if a[0].args[0].startswith('-') else INF
    return a[0] if a and is_numeric(a[0]) else None


@model('builtins.bool')
def m_bool(flow, a, kw):
    return flow.truth(a[0])


@model('builtins.abs')
def m_abs(flow, a, kw):
    return ew(lambda x: tm.fun1('abs', x), a[0]) if is_numeric(a[0]) or is_arr(a[0]) else None


@model('builtins.sum')
def m_sum(flow, a, kw):
    s = flow.seq_of(a[0])
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)

    def f(s):
        xs = seqs.concrete(s)
        if xs is not None:
            r = start
            for x in xs:
                r = flow.binop('+', r, x)
            return r
        if s.op in ('seq', 'filt'):
            (b,), body = s.args[-1].args
            if body.op == 'poly1d':
                x = fresh_bv(None, 'real')
                if s.op == 'filt' or start.op != 'poly1d' and not is_numeric(start):
                    return flow.unk('sum of polynomials')
                return raw('poly1d', lam((x,), add(poly_at(start, x) if start.op == 'poly1d' else start, tm.sum_(s.args[0], lam((b,), poly_at(body, x))))))
            if is_arr(body) and s.op == 'seq':
                a_ = as_arr(body)
                if any(b in fv(d) for d in a_.args[1]):
                    return flow.unk('sum')
                r = mk(a_.args[0], a_.args[1], lambda *i: tm.sum_(s.args[0], lam((b,), elem(a_, i))))
                return r if start is ZERO else flow.binop('+', start, r)
            if is_numeric(body) or is_boolish(body) or body.op == 'ite':
                if not all(is_numeric(x) or is_boolish(x) for x in leaves(body)):
                    return raw('call', 'builtins.sum', flow.frozen(s))
                if not is_numeric(start):
                    return flow.unk('sum')
                if s.op == 'filt':
                    (b2,), cond = s.args[1].args
                    body = ite(subst(cond, {b2: b}), ar.numv(body), ZERO)
                return add(start, tm.sum_(s.args[0], lam((b,), ar.numv(body))))
        if s.op == 'unknown':
            return s
        return raw('call', 'builtins.sum', flow.frozen(s), start)
    return lift(f, s)


@model('builtins.any', 'builtins.all')
def m_any(flow, a, kw):
    return None


def _quant(flow, a, all_):
    s = flow.seq_of(a[0])

    def f(s):
        if s.op == 'unknown':
            return s
        xs = seqs.concrete(s)
        if xs is not None:
            ts = [flow.truth(x) for x in xs]
            return and_(*ts) if all_ else or_(*ts)
        if s.op in ('seq', 'filt') or s.op not in seqs.SEQ_OPS:
            n, l = seqs.symbolic(s)
            if n is None:
                return flow.unk('quantifier')
            (b,), body = l.args
            t = flow.truth(body)
            cond = flow.dom_cond(s, b)
            if all_:
                t = not_(t)
            if cond is not None:
                t = and_(cond, t)
            r = tm.any_(n, lam((b,), t))
            return not_(r) if all_ else r
        if s.op == 'lcat':
            rs = [f(p) for p in s.args[0]]
            return and_(*rs) if all_ else or_(*rs)
        if s.op == 'flatmap':
            n, l = s.args
            (b,), body = l.args
            r = lift(f, body)
            r = tm.any_(n, lam((b,), not_(r) if all_ else r))
            return not_(r) if all_ else r
        return flow.unk('quantifier')
    return lift(f, s)


MODELS['builtins.any'] = lambda flow, a, kw: _quant(flow, a, False)
MODELS['builtins.all'] = lambda flow, a, kw: _quant(flow, a, True)


@model('builtins.max', 'builtins.min')
def m_max(flow, a, kw):
    return None


def _mm(kind):
    def f(flow, a, kw):
        if kw:
            return None
        xs = a
        if len(a) == 1:
            xs = seqs.concrete(flow.seq_of(a[0]))
            if xs is None:
                return None
        if all(is_numeric(x) for x in xs) and xs:
            return tm.minmax(kind, *xs)
        return None
    return f


MODELS['builtins.max'] = _mm('max')
MODELS['builtins.min'] = _mm('min')


@model('builtins.map')
@star_ok
def m_map(flow, a, kw):
    if len(a) != 2 or a[1].op == 'star':
        return None
    s = flow.seq_of(a[1])
    f = a[0]

    def g(s):
        xs = seqs.concrete(s)
        if xs is not None:
            return mk_list([flow.call(f, [x], {}) for x in xs])
        if s.op == 'seq':
            n, l = s.args
            (b,), body = l.args
            return mk_seq(n, lam((b,), flow.call(f, [body], {})))
        return flow.unk('map')
    return lift(g, s)


@model('builtins.filter')
def m_filter(flow, a, kw):
    s = flow.seq_of(a[1])

    def g(s):
        test = (lambda x: flow.truth(x)) if a[0] is NONE else (lambda x: flow.truth(flow.call(a[0], [x], {})))
        xs = seqs.concrete(s)
        if xs is not None:
            return seqs.lcat(*[ite(test(x), mk_list([x]), mk_list([])) for x in xs])
        if s.op == 'seq':
            n, l = s.args
            (b,), body = l.args
            return seqs.filt(n, lam((b,), test(body)), l)
        return flow.unk('filter')
    return lift(g, s)


@model('builtins.isinstance')
def m_isinstance(flow, a, kw):
    x, t = a
    c = flow.content(t)
    ts = seqs.concrete(c) if c.op in ('tuple', 'list') else [t]
    return or_(*[lift(lambda v: _isinst(flow, v, ty), x) for ty in ts])


PYTYPES = {'list': 'list', 'seq': 'list', 'lcat': 'list', 'dict': 'dict', 'dictof': 'dict', 'dstore': 'dict', 'dupdate': 'dict', 'carryd': 'dict', 'str': 'str', 'fmt': 'str', 'tuple': 'tuple',
           'tupleof': 'tuple', 'set': 'set', 'slice': 'slice', 'none': 'NoneType', 'filt': 'list', 'flatmap': 'list'}


def _tyname(t):
    if t.op == 'cls':
        return t.args[0]
    if t.op == 'ext':
        n = t.args[0]
        return n[9:] if n.startswith('builtins.') else n
    return None


def _isinst(flow, x, ty):
    if x.op == 'unknown':
        return x
    if ty.op == 'ext' and ty.args[0] == 'collections.abc.Callable':
        return MODELS['builtins.callable'](flow, [x], {})
    tn = _tyname(ty)
    if tn is None:
        return flow.unk('isinstance')
    cls = flow.inst_class(x)
    if cls is not None:
        names = flow.mro_names(cls)
        if tn in names or tn == 'object' or 'builtins.' + tn in names:
            return TRUE
        if x.op in ('ref', 'inst'):
            return FALSE
        return raw('isinstance', flow.frozen(x), tn)
    c = flow.content(x)
    if ty.op == 'cls' and c.op == 'mxsym' and csmodel.is_fresh(c):
        return FALSE
    if tn.startswith('casadi.') and flow.boxed and spmodel.is_matrix(c):
        k = flow.mat_kind(x)
        if k is not None:
            return TRUE if tn == 'casadi.' + k else FALSE
        return raw('isinstance', flow.frozen(c), tn)
    if spmodel.is_sp(c):
        return TRUE if tn == 'casadi.Sparsity' else FALSE
    if ty.op == 'cls' and (flow.boxed and spmodel.is_matrix(c) or is_int(c)):
        return FALSE
    if tn == 'ellipsis':
        return TRUE if c is ELLIPSIS else FALSE
    if c.op == 'spmat':
        return FALSE
    py = PYTYPES.get(c.op)
    if py is None and c.op == 'sym':
        py = {'dict': 'dict', 'str': 'str', 'tuple': 'tuple'}.get(c.args[1], 'list' if c.args[1].startswith('list') else None)
    if py is not None:
        return TRUE if py == tn else FALSE
    if is_boolish(c):
        return TRUE if tn in ('bool', 'int') else FALSE
    if c.op == 'num':
        return TRUE if tn == ('int' if c.args[0].denominator == 1 else 'float') else FALSE
    if is_arr(c):
        if tn in ('list', 'dict', 'str', 'tuple', 'set', 'slice', 'int'):
            return FALSE
        if c.op == 'arr' and c.args[0] == 'np' and tn == 'numpy.ndarray':
            return TRUE
        if flow.boxed and ar.lib_of(c) == 'np':
            if tn == 'numpy.ndarray':
                return TRUE
            if ty.op == 'cls' or tn.startswith('casadi.'):
                return FALSE
    if is_int(c) and tn in ('list', 'dict', 'str', 'tuple', 'set', 'slice'):
        return FALSE
    if is_int(c) and tn == 'int':
        return TRUE
    if is_int(c) and tn.startswith('casadi.'):
        return FALSE
    if c.op in ('fn', 'bound', 'poly1d', 'cls') or c is ELLIPSIS:
        return FALSE
    if c.op == 'ext' and (c.args[0] in MODELS or c.args[0].startswith('builtins.')) and tn not in ('type', 'object'):
        return FALSE
    if flow.boxed and c.op == 'sym' and c.args[1] == 'num' and tn not in ('int', 'float', 'bool', 'complex', 'object') \
            and not tn.startswith(('numpy.', 'numbers.')):
        return FALSE
    return raw('isinstance', flow.frozen(c), tn)


@model('builtins.callable')
def m_callable(flow, a, kw):
    def f(x):
        if x.op in ('fn', 'bound', 'cls', 'ext', 'extm', 'cmeth'):
            return TRUE
        c = flow.content(x)
        if c.op in ('num', 'str', 'list', 'seq', 'dict', 'tuple', 'none', 'slice', 'set', 'fmt') or c is ELLIPSIS or is_int(c) \
                or flow.is_box(x):
            return FALSE
        cls = flow.inst_class(x)
        if cls is not None and x.op in ('ref', 'inst'):
            return TRUE if flow.class_attr(cls, '__call__') is not None else FALSE
        return raw('callable', flow.frozen(x))
    return lift(f, a[0])


@model('builtins.hasattr')
def m_hasattr(flow, a, kw):
    def f(x):
        if a[1].op != 'str':
            return flow.unk('hasattr')
        cls = flow.inst_class(x)
        if cls is not None and x.op in ('ref', 'inst'):
            at = flow.deref(x)[2] if x.op == 'ref' else dict(x.args[1])
            if a[1].args[0] in at or flow.class_attr(cls, a[1].args[0]) is not None:
                return TRUE
            g = flow.class_attr(cls, '__getattr__')
            if g is not None and not a[1].args[0].startswith('__'):
                return flow.unk('hasattr')
            return FALSE
        nm = a[1].args[0]
        c = flow.content(x)
        if seqs.is_seq(c) or c.op == 'tuple':
            return TRUE if hasattr([], nm) else FALSE
        if c.op in ('dict', 'dstore', 'dictof', 'str', 'num', 'none', 'set'):
            return TRUE if hasattr({'str': '', 'num': 0, 'none': None, 'set': set()}.get(c.op, {}), nm) else FALSE
        if (flow.is_box(x) or spmodel.is_matrix(x)) and flow.boxed:
            if nm in spmodel.ATTRS:
                return TRUE
            if nm in ('struct', 'master', 'entries'):
                return FALSE
        if is_int(x) or spmodel.is_sp(x):
            if nm in ('struct', 'sparsity', 'master', 'entries'):
                return FALSE
        return raw('hasattr', flow.frozen(x), nm)
    return lift(f, a[0])


@model('builtins.getattr')
def m_getattr(flow, a, kw):
    def f(nm):
        if nm.op == 'str':
            if len(a) > 2:
                r = flow.getattr_opt(a[0], nm.args[0])
                return r if r is not None else raw('getattr', flow.frozen(a[0]), nm, flow.frozen(a[2]))
            return flow.getattr(a[0], nm.args[0])
        return raw('getattr', flow.frozen(a[0]), flow.frozen(nm))
    return flow.on_value(a[1], f)


@model('builtins.setattr')
def m_setattr(flow, a, kw):
    if a[1].op == 'str':
        flow.setattr(a[0], a[1].args[0], a[2])
        return NONE
    return None


@model('builtins.type')
def m_type(flow, a, kw):
    if len(a) == 1 and a[0] is ELLIPSIS:
        return raw('ext', 'builtins.ellipsis')
    cls = flow.inst_class(a[0]) if len(a) == 1 else None
    return cls if cls is not None and a[0].op in ('ref', 'inst') else None


@model('builtins.noop', 'builtins.print', 'builtins.object.__init__')
@star_ok
def m_noop(flow, a, kw):
    return NONE


@model('builtins.object.__new__')
def m_objnew(flow, a, kw):
    return flow.alloc(('inst', a[0], {}))


@model('builtins.slice')
def m_slice(flow, a, kw):
    a = list(a)
    if len(a) == 1:
        a = [NONE] + a
    while len(a) < 3:
        a.append(NONE)
    return raw('slice', *a)


@model('collections.namedtuple')
def m_nt(flow, a, kw):
    c = seqs.concrete(flow.content(a[1]))
    if a[1].op == 'str':
        c = [string(x) for x in a[1].args[0].replace(',', ' ').split()]
    if c is None or any(x.op != 'str' for x in c):
        return flow.unk('namedtuple')
    return raw('ntcls', a[0].args[0], tuple(x.args[0] for x in c))


@model('functools.partial')
def m_partial(flow, a, kw):
    return raw('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items())))


@model('operator.mul')
def m_opmul(flow, a, kw):
    return flow.binop('*', a[0], a[1])


@model('itertools.chain', 'itertools.chain.from_iterable')
@star_ok
def m_chain(flow, a, kw):
    if any(x.op == 'star' for x in a) or len(a) == 1:
        return None
    return seqs.lcat(*[flow.seq_of(x) for x in a])


@model('copy.copy', 'copy.deepcopy')
def m_copy(flow, a, kw):
    c = flow.content(a[0])
    if c is not a[0] and flow.deref(a[0])[0] in ('list', 'dict'):
        return flow.alloc((flow.deref(a[0])[0], c))
    if is_arr(a[0]) or is_numeric(a[0]) or a[0].op == 'poly1d':
        return a[0]
    return None


@model('pickle.dumps')
def m_dumps(flow, a, kw):
    v = pickling.dumps(flow, a[0]) if flow.boxed and a else None
    return raw('pickle', v) if v is not None else None


@model('pickle.loads')
def m_loads(flow, a, kw):
    return pickling.loads(flow, a[0].args[0]) if len(a) == 1 and a[0].op == 'pickle' else None


@model('builtins.open')
def m_open(flow, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', string('r'))
    if len(a) not in (1, 2) or set(kw) - {'mode'} or mode.op != 'str' or not flow.boxed:
        return None
    return raw('file', a[0], mode)


def _file(f):
    return raw('ref', 'file', f.args[0])


@model('pickle.dump')
def m_dump(flow, a, kw):
    if len(a) not in (2, 3) or a[1].op != 'file':
        return None
    if a[1].args[1].args[0] not in ('wb', 'bw', 'wb+', 'w+b'):
        flow.raise_(TRUE, S('TypeError'))
        return NONE
    v = pickling.dumps(flow, a[0])
    if v is None:
        return None
    flow.st.heap[_file(a[1])] = ('contents', raw('pickle', v))
    return NONE


@model('pickle.load')
def m_load(flow, a, kw):
    if len(a) != 1 or a[0].op != 'file':
        return None
    if a[0].args[1].args[0] not in ('rb', 'br', 'rb+', 'r+b'):
        flow.raise_(TRUE, S('TypeError'))
        return NONE
    o = flow.deref(_file(a[0]))
    if o is None or o[1].op != 'pickle':
        return None
    return pickling.loads(flow, o[1].args[0])


# --- numpy
@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.ascontiguousarray')
def m_array(flow, a, kw):
    r = to_array(flow, a[0])
    return lift(lambda x: cs_to_np(x), r)


def cs_to_np(x):
    if is_arr(x) and ar.lib_of(x) == 'cs':
        y = as_arr(x)
        return mk('np', y.args[1], lambda i, j: elem(y, (i, j)))
    return x


@model('numpy.atleast_1d')
def m_al1(flow, a, kw):
    return atleast_1d(flow, a[0])


@model('numpy.atleast_2d')
def m_al2(flow, a, kw):
    return atleast_2d(flow, a[0])


def _const_np(v):
    def f(flow, a, kw):
        sh = shape_args(flow, a[0] if a else kw['shape'])
        return ar.const_arr('np', sh, v) if sh is not None else None
    return f


MODELS['numpy.zeros'] = _const_np(ZERO)
MODELS['numpy.empty'] = None
MODELS['numpy.ones'] = _const_np(ONE)
del MODELS['numpy.empty']


@model('numpy.full')
def m_full(flow, a, kw):
    sh = shape_args(flow, a[0])
    return ar.const_arr('np', sh, a[1]) if sh is not None else None


@model('numpy.zeros_like', 'numpy.ones_like')
def m_zl(flow, a, kw):
    return None


MODELS['numpy.zeros_like'] = lambda flow, a, kw: ar.const_arr('np', ar.shape_of(as_arr(a[0])), ZERO) if is_arr(a[0]) and a[0].op != 'ite' else None
MODELS['numpy.ones_like'] = lambda flow, a, kw: ar.const_arr('np', ar.shape_of(as_arr(a[0])), ONE) if is_arr(a[0]) and a[0].op != 'ite' else None


@model('numpy.eye', 'numpy.identity')
def m_eye(flow, a, kw):
    return ar.eye('np', a[0]) if len(a) == 1 else None


@model('numpy.arange')
def m_arange(flow, a, kw):
    if kw:
        return None
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3:
        return raw('typed', 'np1', raw('arange', *a), (raw('len', raw('arange', *a)),))
    if not (is_int(lo) and is_int(hi)):
        if not is_int(sub(hi, lo)):
            return raw('typed', 'np1', raw('arange', lo, hi, ONE), (raw('len', raw('arange', lo, hi, ONE)),))
    return mk('np', (sub(hi, lo),), lambda i: add(lo, i))


@model('numpy.linspace')
def m_linspace(flow, a, kw):
    n = a[2] if len(a) > 2 else kw.get('num', num(50))
    if len(kw) - ('num' in kw):
        return None
    return mk('np', (n,), lambda i: add(a[0], div(mul(i, sub(a[1], a[0])), sub(n, ONE))))


@model('numpy.diff')
def m_diff(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and x.op != 'ite' and len(a) == 1 and set(kw) <= {'axis'}:
        ax = int(kw['axis'].args[0]) if 'axis' in kw else -1
        return ar.diff(x, ax)
    return None


@model('numpy.flip')
def m_flip(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and len(a) == 1 and (not kw or ar.ndim(x) == 1):
        return ar.flip(x)
    return None


MODELS['numpy.flipud'] = lambda flow, a, kw: ar.flip(a[0]) if is_arr(a[0]) and ar.ndim(a[0]) == 1 else None


@model('numpy.hstack')
def m_hstack(flow, a, kw):
    return hstack(flow, a[0])


@model('numpy.vstack', 'numpy.row_stack')
def m_vstack(flow, a, kw):
    return hstack(flow, a[0], 0, 'vstack')


@model('numpy.stack')
def m_stack(flow, a, kw):
    if len(a) == 1 and ('axis' not in kw or kw['axis'] is ZERO):
        return to_array(flow, a[0])
    return None


@model('numpy.concatenate')
def m_concat(flow, a, kw):
    ax = a[1] if len(a) > 1 else kw.get('axis', ZERO)
    if ax.op != 'num':
        return None
    c = flow.seq_of(a[0])
    if ax is ZERO:
        if c.op == 'list':
            xs = [to_array(flow, y) for y in c.args[0]]
            if all(is_arr(x) and x.op != 'ite' for x in xs):
                return ar.concat('np', 0, xs)
        if c.op == 'seq':
            (b,), body = c.args[1].args
            body = to_array(flow, body)
            if is_arr(body):
                return ar.concat_seq('np', 0, c.args[0], lam((b,), body))
        if c.op == 'lcat':
            return hstack(flow, c, 0)
        return None
    return hstack(flow, a[0], 1)


@model('numpy.append')
def m_append(flow, a, kw):
    if kw or len(a) > 2:
        return None
    xs = [atleast_1d(flow, x) for x in a]
    if all(is_arr(x) and x.op != 'ite' and ar.ndim(x) == 1 for x in xs):
        return ar.concat('np', 0, xs)
    return None


@model('numpy.dot', 'numpy.matmul')
def m_dot(flow, a, kw):
    xs = [to_array(flow, x) for x in a]
    if all(is_arr(x) or is_numeric(x) for x in xs):
        return lift(lambda x, y: ar.matmul('np', x, y), *xs)
    return None


@model('numpy.outer')
def m_outer(flow, a, kw):
    xs = [to_array(flow, x) for x in a]
    if all(is_arr(x) and x.op != 'ite' and ar.ndim(x) == 1 for x in xs):
        x, y = [as_arr(v) for v in xs]
        return mk('np', (dim(x, 0), dim(y, 0)), lambda i, j: mul(elem(x, (i,)), elem(y, (j,))))
    return None


@model('numpy.transpose', 'casadi.transpose')
def m_transpose(flow, a, kw):
    x = flow.as_cs(a[0])
    return lift(ar.transpose, x) if is_arr(x) else None


def _red(kind):
    def f(flow, a, kw):
        ax = a[1] if len(a) > 1 else kw.get('axis')
        if set(kw) - {'axis'}:
            return None
        return reduce_(flow, kind, a[0], int(ax.args[0]) if ax is not None and ax.op == 'num' else None)
    return f


for _k in ('sum', 'prod', 'any', 'all'):
    MODELS['numpy.' + _k] = _red(_k)


@model('numpy.ndim')
def m_ndim(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and x.op != 'ite':
        return num(ar.ndim(x))
    if is_numeric(x):
        return ZERO
    return raw('ndim', flow.frozen(x))


@model('numpy.size')
def m_size(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and x.op != 'ite':
        return mul(*ar.shape_of(as_arr(x)))
    return None


@model('numpy.shape')
def m_shape(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and x.op != 'ite':
        return raw('tuple', *ar.shape_of(as_arr(x)))
    if is_numeric(x):
        return raw('tuple')
    return raw('attr', flow.frozen(x), 'shape')


@model('numpy.clip')
def m_clip(flow, a, kw):
    return ew(lambda x, lo, hi: tm.minmax('min', tm.minmax('max', x, lo), hi), *a[:3]) if len(a) == 3 else None


@model('numpy.minimum')
def m_minimum(flow, a, kw):
    return ew(lambda x, y: tm.minmax('min', x, y), *a[:2])


@model('numpy.maximum')
def m_maximum(flow, a, kw):
    return ew(lambda x, y: tm.minmax('max', x, y), *a[:2])


@model('numpy.searchsorted')
def m_searchsorted(flow, a, kw):
    d = norm_args(flow, ['a', 'v', 'side'], a, kw, {'side': string('left')})
    if set(d) != {'a', 'v', 'side'}:
        return None
    arr_ = flow.frozen(d['a'])
    return lift(lambda s: ew(lambda v: raw('searchsorted', arr_, v, s), d['v']), d['side'])


@model('bisect.bisect_right', 'bisect.bisect')
def m_bisr(flow, a, kw):
    return raw('searchsorted', flow.frozen(a[0]), a[1], string('right')) if len(a) == 2 and not kw else None


@model('bisect.bisect_left')
def m_bisl(flow, a, kw):
    return raw('searchsorted', flow.frozen(a[0]), a[1], string('left')) if len(a) == 2 and not kw else None


@model('numpy.repeat')
def m_repeat(flow, a, kw):
    if len(a) != 2 or kw:
        return None
    if is_numeric(a[0]):
        return ar.const_arr('np', (a[1],), a[0])
    return None


@model('numpy.linalg.solve')
def m_solve(flow, a, kw):
    xs = [to_array(flow, x) for x in a]
    if all(is_arr(x) and x.op != 'ite' for x in xs):
        A, B = [as_arr(x) for x in xs]
        sh = (dim(A, 1),) + tuple(B.args[1][1:])
        return raw('typed', 'np%d' % len(sh), raw('solve', canon(A), canon(B)), sh)
    return None


@model('casadi.solve')
def m_csolve(flow, a, kw):
    xs = [flow.as_cs(x) for x in a[:2]]
    if len(a) == 2 and all(is_arr(x) and x.op != 'ite' for x in xs):
        A, B = [ar.to_cs(x) for x in xs]
        return raw('typed', 'cs2', raw('solve', canon(A), canon(B)), (dim(A, 1), dim(B, 1)))
    return None


@model('numpy.poly1d')
def m_poly1d(flow, a, kw):
    if len(a) != 1 or kw:
        return None
    if a[0].op == 'poly1d':
        return a[0]
    return make_poly(flow, a[0])


@model('numpy.polyint')
def m_polyint(flow, a, kw):
    return polyint(flow, a[0]) if a[0].op == 'poly1d' and len(a) == 1 and not kw else None


@model('numpy.polyder')
def m_polyder(flow, a, kw):
    return polyder(flow, a[0]) if a[0].op == 'poly1d' and len(a) == 1 and not kw else None


@model('numpy.polyval')
def m_polyval(flow, a, kw):
    return apply_poly(flow, a[0], a[1]) if a[0].op == 'poly1d' else None


for _f in UNARY:
    for _p in ('numpy.', 'casadi.', 'math.'):
        def _mk(fn):
            return lambda flow, a, kw: ew(lambda x: tm.fun1(fn, x), to_array(flow, a[0])) \
                if len(a) == 1 and (is_arr(a[0]) or is_numeric(a[0])) else None
        MODELS[_p + _f] = _mk(_f)


@model('numpy.where')
def m_where(flow, a, kw):
    if len(a) != 3:
        return None
    return ew(lambda c, x, y: ite(c, x, y) if is_boolish(c) else unknown('where'), *a)


# --- casadi
def cs_shape(flow, args):
    """Shape arguments of casadi constructors: (), (n), (n, m), ((n, m))."""
    if not args:
        return (ONE, ONE)
    if len(args) == 1:
        c = seqs.concrete(flow.content(args[0]))
        if c is not None and len(c) == 2:
            return tuple(c)
        if c is not None and len(c) == 1:
            return (c[0], ONE)
        if is_numeric(args[0]):
            return (args[0], ONE)
        return None
    if len(args) == 2 and all(is_numeric(x) for x in args):
        return tuple(args)
    return None


@model('casadi.collocation_points')
def m_colpoints(flow, a, kw):
    d = norm_args(flow, ['order', 'scheme'], a, kw, {'scheme': string('radau')})
    if set(d) != {'order', 'scheme'} or not is_numeric(d['order']):
        return None
    n = d['order']
    t = raw('call', 'casadi.collocation_points', n, d['scheme'])
    return flow.new_list(mk_seq(n, (lambda b: lam((b,), raw('numof', raw('item', t, b))))(fresh_bv(n))))


MODELS['casadi.MX.sym'] = lambda flow, a, kw: m_mxsym(flow, a, kw, 'MX')
MODELS['casadi.SX.sym'] = lambda flow, a, kw: m_mxsym(flow, a, kw, 'SX')


def m_mxsym(flow, a, kw, kind):
    sh = cs_shape(flow, a[1:])
    if kw:
        return None
    u = 'mx%d' % next(flow.uid)
    if sh is None:
        flow.syms.append((u, flow.frozen(a[0]), None))
        return raw('mxnew', u, flow.frozen(a[0]), *[flow.frozen(x) for x in a[1:]])
    t = raw('mxsym', u, flow.frozen(a[0]), sh)
    flow.kinds[u] = kind
    flow.syms.append((u, flow.frozen(a[0]), sh))
    return t


def _cs_const(v):
    def f(flow, a, kw):
        if len(a) == 1 and spmodel.is_sp(a[0]) and not kw:
            return lift(lambda s: spmodel.with_pattern(s, spmodel.column(spmodel.nnz(s), lambda e: v)), a[0])
        sh = cs_shape(flow, a)
        if sh is None or kw:
            return None
        return ar.const_arr('cs', sh, v)
    return f


@model('casadi.Sparsity.dense')
def m_spdense(flow, a, kw):
    sh = cs_shape(flow, a) if a and not kw else None
    return spmodel.dense(*sh) if sh is not None else None


@model('casadi.Sparsity.upper')
def m_spupper(flow, a, kw):
    return spmodel.upper(a[0]) if len(a) == 1 and is_numeric(a[0]) else None


def _sp_known(f):
    def g(flow, a, kw):
        if len(a) != 1 or kw or a[0].op != 'num' or a[0].args[0] > 8:
            return None
        n = int(a[0].args[0])
        return spmodel.of_cells(n, n, f(n))
    return g


MODELS['casadi.Sparsity.lower'] = _sp_known(lambda n: [(i, j) for j in range(n) for i in range(j, n)])
MODELS['casadi.Sparsity.diag'] = _sp_known(lambda n: [(i, i) for i in range(n)])


@model('casadi.vertsplit')
def m_vertsplit(flow, a, kw):
    if len(a) != 2:
        return None
    ks = seqs.concrete(flow.seq_of(a[1]))
    m = flow.as_cs(a[0])
    if ks is None or len(ks) < 1 or not is_arr(m) or m.op == 'ite' or not all(is_numeric(k) for k in ks):
        return None
    m = as_arr(m)
    flow.raise_(or_(*[tm.lt(hi, lo) for lo, hi in zip(ks, ks[1:])], not_(tm.eq(ks[-1], dim(m, 0)))), S('RuntimeError'))
    return flow.new_list(mk_list([flow.box(mk('cs', (sub(hi, lo), dim(m, 1)), lambda i, j, lo=lo: elem(m, (add(lo, i), j))),
                                           flow.mat_kind(m)) for lo, hi in zip(ks, ks[1:])]))


@model('casadi.reshape')
def m_csreshape(flow, a, kw):
    m = flow.as_cs(a[0])
    if not spmodel.is_matrix(m) or kw:
        return None
    return spmodel.reshape(flow, m, a[1] if len(a) == 2 else raw('tuple', *a[1:]))


@model('casadi.triu2symm')
def m_triu2symm(flow, a, kw):
    m = flow.as_cs(a[0])
    if spmodel.is_matrix(m) and m.op != 'ite':
        r = spmodel.symmetric(m)
        if r is not None:
            return r
    return raw('typed', 'cs2', raw('call', 'casadi.triu2symm', m), (dim(m, 0), dim(m, 1))) if is_arr(m) else \
        raw('typed', 'cs2', raw('call', 'casadi.triu2symm', m), (spmodel.rows(m.args[0]),) * 2) if m.op == 'spmat' else None


@model('builtins.iter')
def m_iter(flow, a, kw):
    s = flow.seq_of(a[0]) if len(a) == 1 else None
    xs = seqs.concrete(s) if s is not None else None
    return flow.alloc(('list', mk_list(xs))) if xs is not None else None


@model('builtins.next')
def m_next(flow, a, kw):
    c = flow.content(a[0])
    xs = seqs.concrete(c) if a[0].op == 'ref' else None
    if xs is None:
        return flow.unk('next')
    if not xs:
        if len(a) > 1:
            return a[1]
        flow.raise_(TRUE, S('StopIteration'))
        return NONE
    flow.st.heap[a[0]] = ('list', mk_list(xs[1:]))
    return xs[0]


for _c in ('DM', 'MX', 'SX'):
    MODELS['casadi.%s.zeros' % _c] = _cs_const(ZERO)
    MODELS['casadi.%s.ones' % _c] = _cs_const(ONE)
    MODELS['casadi.%s.inf' % _c] = _cs_const(INF)
    MODELS['casadi.%s.nan' % _c] = _cs_const(NAN)
    MODELS['casadi.%s.eye' % _c] = lambda flow, a, kw: ar.eye('cs', a[0])


def not_matrix(flow, kind, x):
    """Is x certainly nothing a matrix of the given kind can be made from?"""
    if x is NONE or x.op in ('str', 'cls', 'fn', 'bound', 'ext') or x is ELLIPSIS:
        return True
    c = flow.content(x)
    if c.op in ('dict', 'set', 'setof', 'dictof'):
        return True
    if c.op == 'list' and c.args[0] and all(y.op == 'str' or y is NONE for y in c.args[0]):
        return True
    k = flow.mat_kind(x) if flow.boxed and spmodel.is_matrix(c) else None
    return (kind, k) in (('DM', 'MX'), ('MX', 'SX'), ('SX', 'MX'))


def m_kind(kind):
    def f(flow, a, kw):
        if len(a) == 1 and not kw and not_matrix(flow, kind, a[0]):
            flow.raise_(TRUE, string('NotImplementedError'))
            return raw('noattr', kind)
        return m_dm(flow, a, kw)
    return f


for _k in ('DM', 'MX', 'SX'):
    MODELS['casadi.' + _k] = m_kind(_k)


def m_dm(flow, a, kw):
    if len(a) == 2 and spmodel.is_sp(a[0]):
        x = to_array(flow, a[1]) if seqs.is_seq(flow.content(a[1])) else flow.as_cs(a[1])
        if is_arr(x):
            v = lift(ar.to_cs, x)
            return lift(lambda s, m: spmodel.with_pattern(s, spmodel.stored(m)), a[0], v)
    if len(a) == 1 and is_numeric(a[0]) and flow.boxed:
        return a[0]
    if len(a) == 1 and flow.boxed:
        x = flow.as_cs(a[0])
        if x is not a[0] and spmodel.is_matrix(x) or x.op == 'spmat':
            return x
    if len(a) == 2 and all(is_numeric(x) for x in a):
        return ar.const_arr('cs', tuple(a), ZERO)
    if len(a) == 1 and is_arr(a[0]):
        return lift(ar.to_cs, a[0])
    if len(a) == 1 and seqs.is_seq(flow.content(a[0])):
        x = to_array(flow, a[0])
        if is_arr(x):
            return lift(ar.to_cs, x)
    return None


MODELS['casadi.kron'] = lambda flow, a, kw: ar.kron(flow.as_cs(a[0]), flow.as_cs(a[1])) \
    if all(is_arr(flow.as_cs(x)) and x.op != 'ite' for x in a) else None


@model('casadi.diagcat')
@star_ok
def m_diagcat(flow, a, kw):
    if len(a) == 1 and a[0].op == 'star':
        s = a[0].args[0]
        n, l = seqs.symbolic(s) if s.op not in ('filt',) else (None, None)
        if n is not None:
            (b,), body = l.args
            if is_numeric(body):
                return mk('cs', (n, n), lambda i, j: ite(tm.eq(i, j), subst(body, {b: i}), ZERO))
        return flow.unk('diagcat')
    if all(is_numeric(x) for x in a) and a:
        return mk('cs', (num(len(a)),) * 2, lambda i, j: ite(tm.eq(i, j), seqs.item(mk_list(a), i), ZERO))
    return None


@model('casadi.diag', 'numpy.diag')
def m_diag(flow, a, kw):
    x = to_array(flow, a[0])
    if is_arr(x) and x.op != 'ite' and len(a) == 1:
        if ar.ndim(x) == 1:
            y = as_arr(x)
            return mk('np' if ar.lib_of(x) == 'np' else 'cs', (dim(y, 0),) * 2,
                      lambda i, j: ite(tm.eq(i, j), elem(y, (i,)), ZERO))
        if dim(as_arr(x), 1) is ONE and ar.lib_of(x) == 'cs':
            y = as_arr(x)
            return mk('cs', (dim(y, 0),) * 2, lambda i, j: ite(tm.eq(i, j), elem(y, (i, ZERO)), ZERO))
    return None


@model('casadi.mtimes')
def m_mtimes(flow, a, kw):
    xs = [flow.as_cs(x) for x in a]
    if len(a) == 2 and all(is_arr(x) or is_numeric(x) for x in xs):
        return lift(lambda x, y: ar.matmul('cs', x, y), *xs)
    return None


@model('casadi.horzcat')
@star_ok
def m_horzcat(flow, a, kw):
    return cs_cat(flow, 1, a, 'horzcat')


@model('casadi.vertcat')
@star_ok
def m_vertcat(flow, a, kw):
    return cs_cat(flow, 0, a, 'vertcat')


@model('casadi.vcat', 'casadi.hcat')
def m_vcat(flow, a, kw):
    return None


MODELS['casadi.vcat'] = lambda flow, a, kw: cs_cat(flow, 0, [raw('star', flow.seq_of(a[0]))], 'vertcat')
MODELS['casadi.hcat'] = lambda flow, a, kw: cs_cat(flow, 1, [raw('star', flow.seq_of(a[0]))], 'horzcat')


@model('casadi.repmat')
def m_repmat(flow, a, kw):
    x = flow.as_cs(a[0])
    n = a[1] if len(a) > 1 else ONE
    m = a[2] if len(a) > 2 else ONE
    if is_arr(x) or is_numeric(x):
        return lift(lambda y: ar.repmat(y, n, m), x)
    return generic(flow, 'casadi.repmat', [x, n, m], {})


@model('casadi.diff')
def m_csdiff(flow, a, kw):
    x = flow.as_cs(a[0])
    n = a[1] if len(a) > 1 else ONE
    ax = a[2] if len(a) > 2 else kw.get('axis')
    if is_arr(x) and x.op != 'ite' and n is ONE and ax is not None and ax.op == 'num':
        return ar.diff(ar.to_cs(x), int(ax.args[0]))
    return None


MODELS['casadi.Function'] = csmodel.function
MODELS['casadi.substitute'] = csmodel.substitute


@model('casadi.rootfinder')
def m_rootfinder(flow, a, kw):
    return raw('csroot', a[2]) if len(a) >= 3 and a[2].op == 'csfun' else None


@model('casadi.vec')
def m_vec(flow, a, kw):
    x = flow.as_cs(a[0])
    if x.op == 'spmat' and x.args[0].op == 'spc':
        r, c = spmodel.size(x.args[0])
        return raw('spmat', raw('spc', num(r * c), ONE, tuple((i + r * j, 0) for i, j in x.args[0].args[2])), x.args[1])
    if not is_arr(x) or x.op == 'ite':
        return None
    x = ar.to_cs(x)
    r, c = dim(x, 0), dim(x, 1)
    if c is ONE:
        return x
    return mk('cs', (mul(r, c), ONE), lambda i, j: elem(x, (tm.imod(i, r), tm.idiv(i, r))))


@model('casadi.evalf')
def m_evalf(flow, a, kw):
    return a[0]


# ------------------------------------------------------------------ attributes of values
def ext_attr(flow, mod, name):
    full = mod + '.' + name
    if full in ('numpy.pi', 'math.pi', 'casadi.pi'):
        return PI
    if full in ('numpy.inf', 'math.inf', 'casadi.inf', 'numpy.Inf'):
        return INF
    if full in ('numpy.nan', 'math.nan', 'casadi.nan', 'numpy.NaN'):
        return NAN
    if full == 'numpy.newaxis':
        return NONE
    return raw('ext', flow.ext_name(full))


def value_attr(flow, v, c, name):
    if v.op == 'slice' and name in ('start', 'stop', 'step'):
        return v.args[('start', 'stop', 'step').index(name)]
    if c.op == 'unknown':
        return c
    if v.op == 'poly1d':
        if name in ('coef', 'coeffs', 'c', 'coefficients'):
            return poly_coef(v)
        if name in ('order', 'o'):
            return sub(raw('ncoef', v), ONE)
        if name in ('deriv', 'integ'):
            return raw('extm', name, v)
    if v.op in ('csfun', 'csmap', 'csroot'):
        return raw('extm', name, v)
    if is_arr(c):
        a = as_arr(c)
        if name == 'shape':
            return raw('tuple', *a.args[1])
        if name == 'T':
            return ar.transpose(a)
        if name == 'ndim' and a.args[0] == 'np':
            return num(ar.ndim(a))
        if name == 'size' and a.args[0] == 'np':
            return mul(*a.args[1])
        if name in ('dot', 'sum', 'prod', 'any', 'all', 'astype', 'copy', 'reshape', 'flatten', 'numel', 'size1', 'size2',
                    'tolist', 'ravel', 'is_column', 'is_row', 'is_vector', 'is_square', 'is_empty', 'is_valid_input', 'is_scalar', 'transpose', 'nnz', 'item', 'full',
                    'cumsum', 'cumprod', 'mean', 'repeat', 'clip', 'round', 'searchsorted'):
            return raw('extm', name, v)
    if c is not v or c.op in ('tuple', 'str', 'fmt', 'dict') or seqs.is_seq(c):
        return raw('cmeth', name, v)
    return None


def value_method(flow, v, name, args, kw, node):
    if v.op == 'poly1d':
        if name == 'deriv' and not args:
            return polyder(flow, v)
        if name == 'integ' and not args:
            return polyint(flow, v)
    if v.op in ('csfun', 'csmap', 'csroot'):
        return csmodel.method(flow, v, name, args, kw)
    if v.op == 'ntcls':
        if name == '__new__':
            return flow.nt_new(args[0], v, args[1:], kw)
        return None
    if v.op == 'filt1':
        if name in ('sum', 'prod', 'any', 'all') and not args:
            return reduce_(flow, name, v)
        return None
    if is_arr(v):
        a = as_arr(v)
        if name in ('sum', 'prod', 'any', 'all') and a.args[0] == 'np':
            ax = args[0] if args else kw.get('axis')
            return reduce_(flow, name, v, int(ax.args[0]) if ax is not None else None)
        if name == 'dot':
            return MODELS['numpy.dot'](flow, [v] + args, {})
        if name == 'astype':
            r = convert(v, args[0] if args else kw.get('dtype'))
            return unknown('astype') if r is None else r
        if name in ('cumsum', 'cumprod', 'mean', 'repeat', 'clip', 'round', 'searchsorted') and a.args[0] == 'np':
            return MODELS['numpy.' + name](flow, [v] + args, kw)
        if name == 'reshape' and a.args[0] == 'np' and not kw and args:
            sh = shape_args(flow, args[0]) if len(args) == 1 else tuple(args)
            return reshaped(a, sh) if sh is not None else None
        if name in ('ravel', 'flatten') and a.args[0] == 'np' and not args and not kw:
            return reshaped(a, [mul(*a.args[1])])
        if name in ('copy', '__copy__', 'full') and not args:
            return v if a.args[0] == 'np' or name != 'full' else cs_to_np(v)
        if name == 'transpose' and not args:
            return ar.transpose(a)
        if name == 'numel' and not args:
            return mul(*a.args[1])
        if name == 'size1' and not args:
            return dim(a, 0)
        if name == 'size2' and not args:
            return dim(a, 1)
        if name in ('flatten', 'ravel') and ar.ndim(a) == 1:
            return a
        if name == 'tolist' and ar.ndim(a) == 1:
            return flow.new_list(flow.seq_of(a))
        if name in ('is_row', 'is_vector', 'is_square', 'is_empty') and a.args[0] == 'cs' and not args:
            return spmodel.shape_test(name, *a.args[1])
        if name == 'is_column' and a.args[0] == 'cs' and not args:
            return tm.eq(dim(a, 1), ONE)
        if name == 'is_scalar' and a.args[0] == 'cs' and not args:
            return and_(tm.eq(dim(a, 0), ONE), tm.eq(dim(a, 1), ONE))
        if name == 'is_valid_input' and v.op == 'mxsym':
            return TRUE
    return None


def call_value(flow, f, args, kw):
    if f.op == 'poly1d' and len(args) == 1:
        x = args[0]
        if x.op == 'poly1d':
            return poly(lambda y: poly_at(f, poly_at(x, y)))
        if seqs.is_seq(flow.content(x)):
            x = to_array(flow, x)
        return apply_poly(flow, f, x)
    if f.op in ('csfun', 'csmap', 'csroot'):
        r = csmodel.call(flow, f, args, kw)
        if r is not None:
            return r
    return flow.unk('call of value')


# ------------------------------------------------------------------ container methods
def container_method(flow, recv, c, name, args, kw, node):
    def put(new):
        if recv.op == 'ref':
            flow.st.heap[recv] = (flow.deref(recv)[0], new)
        elif node is not None:
            flow.assign(node, new)
        else:
            flow.unk('mutation of a value')
        return NONE
    if c.op in ('str', 'fmt'):
        if name == 'format' and not any(a.op == 'star' for a in args):
            return brace_format(flow, c, args, kw)
        if c.op == 'str' and name == 'join' and len(args) == 1:
            s = flow.seq_of(args[0])
            xs = seqs.concrete(s)
            if xs is not None:
                out = []
                for k, x in enumerate(xs):
                    if k:
                        out.append(c)
                    out.append(to_str(x))
                return mk_fmt([p for o in out for p in (o.args[0] if o.op == 'fmt' else (o,))])
            return raw('call', 'str.join', c, flow.frozen(s))
        if c.op == 'str' and name in ('startswith', 'endswith') and args and args[0].op == 'str':
            return TRUE if getattr(c.args[0], name)(args[0].args[0]) else FALSE
        if c.op == 'str' and name in ('lower', 'upper', 'strip') and not args:
            return string(getattr(c.args[0], name)())
        return None
    kind = flow.deref(recv)[0] if recv.op == 'ref' else None
    if seqs.is_seq(c) or kind == 'list':
        if name == 'append':
            return put(lift(lambda l: seqs.append(l, args[0]) if l.op != 'unknown' else l, c))
        if name == 'extend':
            return put(seqs.lcat(c, flow.seq_of(args[0])))
        if name == 'insert' and args[0] is ZERO:
            return put(seqs.lcat(mk_list([args[1]]), c))
        if name == 'copy' and not args:
            return flow.new_list(c)
        if name == 'reverse' and not args:
            return put(_m_reversed(flow, [c], {}))
        if name == 'pop':
            xs = seqs.concrete(c)
            if xs and (not args or args[0].op == 'num'):
                k = int(args[0].args[0]) if args else -1
                if -len(xs) <= k < len(xs):
                    v = xs[k]
                    del xs[k]
                    put(mk_list(xs))
                    return v
        if name == 'index':
            xs = seqs.concrete(c)
            if xs is not None and len(args) == 1:
                for k, x in enumerate(xs):
                    q = flow.equal(x, args[0])
                    if q is TRUE:
                        return num(k)
                    if q is not FALSE:
                        break
            return raw('call', 'list.index', flow.frozen(c), flow.frozen(args[0]))
        if name == 'count':
            return raw('call', 'list.count', flow.frozen(c), flow.frozen(args[0]))
        if name in ('append', 'extend', 'insert', 'pop', 'sort', 'remove', 'clear'):
            return put(flow.unk('list.' + name))
    if kind == 'dict' or c.op in ('dict', 'dstore', 'dictof', 'dupdate', 'carryd'):
        return dict_method(flow, recv, c, name, args, kw, put)
    if c.op in ('set', 'setof', 'setop'):
        if name in ('union', 'intersection', 'difference') and len(args) == 1:
            op = {'union': '|', 'intersection': '&', 'difference': '-'}[name]
            x = args[0]
            if x.op not in ('set', 'setof', 'setop'):
                x = MODELS['builtins.set'](flow, [x], {})
            return seqs.setop(op, c, x)
        if name == 'isdisjoint':
            o = flow.content(args[0])
            if c.op == 'set' and o.op == 'set' and all(const_like(x) for x in c.args[0] + o.args[0]):
                return TRUE if not set(c.args[0]) & set(o.args[0]) else FALSE
            return raw('isdisjoint', *sorted((flow.frozen(c), flow.frozen(args[0])), key=key))
        if name in ('issubset', 'issuperset'):
            o = flow.content(args[0])
            if not seqs.is_set(o):
                o = MODELS['builtins.set'](flow, [args[0]], {})
            return lift(lambda x: seqs.subset(c, x) if name == 'issubset' else seqs.subset(x, c), o)
        return None
    if c.op == 'tuple' and name == 'index':
        return raw('call', 'list.index', flow.frozen(c), flow.frozen(args[0]))
    return None


def dict_seq(d, what):
    """keys / values / items of a dict value as a sequence."""
    def f(d):
        if d.op == 'unknown':
            return d
        if d.op == 'dict':
            if what == 'keys':
                return mk_list([k for k, v in d.args[0]])
            if what == 'values':
                return mk_list([v for k, v in d.args[0]])
            return mk_list([raw('tuple', k, v) for k, v in d.args[0]])
        q = seqs.distinct_keys(d)
        if q is not None:
            n, b, k, v = q
            return mk_seq(n, lam((b,), k if what == 'keys' else v if what == 'values' else raw('tuple', k, v)))
        if type_of(d) == 'dict' or d.op in ('sym', 'attr', 'item', 'dupdate', 'dstore', 'dictof'):
            n = raw('len', d)
            b = fresh_bv(n)
            k = seqs.dkey(d, b)
            v = raw('item', d, k)
            return mk_seq(n, lam((b,), k if what == 'keys' else v if what == 'values' else raw('tuple', k, v)))
        return unknown('dict iteration')
    return lift(f, d)


def dict_method(flow, recv, c, name, args, kw, put):
    if name in ('keys', 'values', 'items') and not args:
        return dict_seq(c, name)
    if name == 'get':
        dflt = args[1] if len(args) > 1 else NONE
        cond = flow.contains(args[0], c)
        return flow.branch(cond, lambda: flow.getitem(recv if recv.op == 'ref' else c, args[0]), lambda: dflt)
    if name == 'copy' and not args:
        return flow.new_dict(c)
    if name == 'update':
        d = c
        if len(args) == 1:
            o = flow.content(args[0])
            if o.op != 'dict' and (seqs.is_seq(o)):
                o = seqs.dict_of_pairs(flow, o)
            if o.op == 'dict':
                for k, v in o.args[0]:
                    d = lift(lambda dd: seqs.dict_store(flow, dd, k, v), d)
            else:
                d = raw('dupdate', d, flow.frozen(o)) if not (d.op == 'dict' and not d.args[0]) else flow.frozen(o)
        for k, v in kw.items():
            if k == '**':
                d = raw('dupdate', d, flow.frozen(v))
            else:
                d = lift(lambda dd: seqs.dict_store(flow, dd, string(k), v), d)
        return put(d)
    if name == 'pop':
        if c.op == 'dict' and all(const_key(k) for k, _ in c.args[0]) and const_key(args[0]):
            for k, v in c.args[0]:
                if k is args[0]:
                    put(raw('dict', tuple((a, b) for a, b in c.args[0] if a is not k)))
                    return v
            if len(args) > 1:
                return args[1]
            flow.raise_(TRUE, S('KeyError'))
            return raw('nokey')
    if name == 'setdefault':
        cond = flow.contains(args[0], c)
        dv = args[1] if len(args) > 1 else NONE
        r = flow.branch(cond, lambda: flow.getitem(recv, args[0]), lambda: dv)
        put(ite(cond, c, seqs.dict_store(flow, c, args[0], dv)) if cond.op != 'unknown' else cond)
        return r
    return None


def delitem(flow, o, i, node):
    c = flow.content(o)
    if c.op == 'dict' and o.op == 'ref':
        flow.st.heap[o] = ('dict', raw('dict', tuple((k, v) for k, v in c.args[0] if k is not i)))
        return
    flow.event('delitem', o, i)


# ------------------------------------------------------------------ hooks
def ext_super(flow, f, args, kw):
    eb, name, selfv = f.args
    if eb.op == 'ntcls' and name == '__new__':
        return flow.nt_new(args[0], eb, args[1:], kw)
    if eb.op == 'ext' and name == '__init__':
        flow.setattr(selfv, '__base__', call_ext(flow, eb.args[0], args, kw))
        return NONE
    if eb.op == 'ext' and name == '__new__':
        return flow.alloc(('inst', args[0], {}))
    return generic(flow, (eb.args[0] if eb.op in ('ext', 'ntcls') else 'super') + '.' + name, [selfv] + list(args), kw)


def pseudo_attr(flow, v, cls, name):
    """Attribute inherited from an external base class."""
    if v.op == 'ref' and name != '__base__':
        b = flow.deref(v)[2].get('__base__')
        if b is not None:
            return flow.getattr_opt(b, name)
    return None


def pseudo_getitem(flow, v, cls, i):
    return None


def pseudo_setitem(flow, v, cls, i, val):
    return False


def pseudo_method(flow, v, cls, name, args, kw):
    return None


def pseudo_call(flow, v, cls, args, kw):
    return None


def opaque_getitem(flow, v, i):
    return None


def call_signature(flow, f):
    return None


def opaque_result(flow, q, r):
    return r


# ------------------------------------------------------------------ vocabulary of the spec files
def _spec_fn(flow, f, *xs):
    return flow.call(f, list(xs), {})


@model('verif.SUM')
def v_sum(flow, a, kw):
    b = fresh_bv(a[0])
    return tm.sum_(a[0], lam((b,), _spec_fn(flow, a[1], b)))


@model('verif.PROD')
def v_prod(flow, a, kw):
    b = fresh_bv(a[0])
    return tm.prod_(a[0], lam((b,), _spec_fn(flow, a[1], b)))


@model('verif.ANY')
def v_any(flow, a, kw):
    b = fresh_bv(a[0])
    return tm.any_(a[0], lam((b,), flow.truth(_spec_fn(flow, a[1], b))))


@model('verif.ALL')
def v_all(flow, a, kw):
    b = fresh_bv(a[0])
    return not_(tm.any_(a[0], lam((b,), not_(flow.truth(_spec_fn(flow, a[1], b))))))


@model('verif.VEC')
def v_vec(flow, a, kw):
    b = fresh_bv(a[0])
    return ar.arr('np', (a[0],), lam((b,), _spec_fn(flow, a[1], b)))


def _v_mat(lib):
    def f(flow, a, kw):
        b, c = fresh_bv(a[0]), fresh_bv(a[1])
        v = flow.unbox(_spec_fn(flow, a[2], b, c)) if flow.boxed else _spec_fn(flow, a[2], b, c)
        if flow.boxed:
            v = lift(lambda x: elem(as_arr(x), (ZERO, ZERO)) if is_arr(x) and ar.shape_of(as_arr(x)) == (ONE, ONE) else x, v)
        return ar.arr(lib, (a[0], a[1]), lam((b, c), v))
    return f


MODELS['verif.MAT'] = _v_mat('np')
MODELS['verif.CSMAT'] = _v_mat('cs')


@model('verif.LIST')
def v_list(flow, a, kw):
    b = fresh_bv(a[0])
    return flow.new_list(mk_seq(a[0], lam((b,), _spec_fn(flow, a[1], b))))


@model('verif.INTEGRAL')
def v_integral(flow, a, kw):
    x = fresh_bv(None, 'real')
    return integral(lam((x,), _spec_fn(flow, a[0], x)), a[1])


@model('verif.POLY')
def v_poly(flow, a, kw):
    x = fresh_bv(None, 'real')
    return raw('poly1d', lam((x,), _spec_fn(flow, a[0], x)))


@model('verif.DISTINCT')
def v_distinct(flow, a, kw):
    return None


@model('verif.ROOTPARTS')
def v_rootparts(flow, a, kw):
    p = csmodel.rootparts(a[0])
    return NONE if p is None else flow.new_list(mk_list(p))


@model('verif.TABLE')
def v_table(flow, a, kw):
    """TABLE(name, of, n, ...): an array of known shape that depends on a value in an unspecified way."""
    name = a[0].args[0]
    dims = tuple(a[2:])
    return raw('typed', 'np%d' % len(dims), raw('call', 'table.' + name, flow.frozen(a[1])), dims)


def _v_io(pos, names):
    def f(flow, a, kw):
        """INPUT(f, name), OUTPUT(f, name): an input symbol or output expression of a casadi function."""
        g = a[0]
        if flow.inst_class(g) is not None:
            g = flow.getattr_opt(g, '__base__')
        if g is None or g.op != 'csfun' or a[1] not in g.args[names]:
            return flow.unk('input or output of something else')
        return g.args[pos][g.args[names].index(a[1])]
    return f


MODELS['verif.INPUT'] = _v_io(1, 3)
MODELS['verif.OUTPUT'] = _v_io(2, 4)


@model('verif.UNMODELLED')
def v_unmodelled(flow, a, kw):
    return flow.unk(a[0].args[0] if a[0].op == 'str' else 'not modelled')


@model('verif.AT')
def v_at(flow, a, kw):
    """AT(expression, symbols, values): the expression with the symbols replaced by the values."""
    return _at(flow, a)


def _at(flow, a):
    r = csmodel.substitute(flow, a, {})
    return r if r is not None else flow.unk('substitution')


@model('verif.ROOT')
def v_root(flow, a, kw):
    """ROOT(unknown, unknowns, residuals)"""
    us = [csmodel.symbol(csmodel.matrix(flow, x)) for x in seqs.concrete(flow.content(a[1]))]
    rs = [csmodel.matrix(flow, x) for x in seqs.concrete(flow.content(a[2]))]
    return csmodel.root(csmodel.symbol(csmodel.matrix(flow, a[0])), us, rs)


import npmodel  # noqa: E402
npmodel.install(sys.modules[__name__])
