"""Hash-consed value terms with algebraic normal forms.

The abstract domain of the value-flow analysis.  A term describes, for *all*
inputs at once, the value an expression has at a program point:

* arithmetic is kept as a polynomial over atoms with integer (also negative)
  exponents, so it is insensitive to association, commutation, distribution;
* conditions and conditional values are ordered decision diagrams over atomic
  conditions, so they are insensitive to how branches are nested or ordered;
* arrays are functions of symbolic indices (index notation), so they are
  insensitive to loops / comprehensions / vectorised spelling;
* everything the analysis does not interpret is an uninterpreted function.
"""
import math
from fractions import Fraction
from math import gcd
import hashlib
import itertools
import sys

sys.setrecursionlimit(20000)


class Blowup(Exception):
    pass


class T(object):
    __slots__ = ('op', 'args', '_key', '_fv', '_unk', '__weakref__')

    def __repr__(self):
        return pretty(self)


_table = {}


def raw(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._key = None
        t._fv = None
        t._unk = None
        _table[k] = t
    return t


def _walk_args(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in _walk_args(a):
                yield x


def key(t):
    """Stable structural digest, used for ordering."""
    if isinstance(t, T):
        if t._key is None:
            h = hashlib.blake2b(digest_size=12)
            h.update(t.op.encode())
            for a in t.args:
                k = key(a)
                h.update(b'(' + k + b')')
            t._key = h.digest()
        return t._key
    if isinstance(t, tuple):
        h = hashlib.blake2b(digest_size=12)
        h.update(b'tuple')
        for a in t:
            h.update(b'(' + key(a) + b')')
        return h.digest()
    return (type(t).__name__ + ':' + str(t)).encode()


def fv(t):
    """Free bound-variables."""
    if t._fv is None:
        if t.op == 'bv':
            t._fv = frozenset([t]) | (fv(t.args[2]) if t.args[2] is not None else frozenset())
        elif t.op == 'lam':
            s = fv(t.args[1]) - frozenset(t.args[0])
            for b in t.args[0]:
                if b.args[2] is not None:
                    s = s | (fv(b.args[2]) - frozenset(t.args[0]))
            t._fv = s
        else:
            s = frozenset()
            for a in _walk_args(t.args):
                s = s | fv(a)
            t._fv = s
    return t._fv


def has_op(t, ops):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ops:
            return True
        stack.extend(_walk_args(x.args))
    return False


def find_ops(t, ops):
    seen = set()
    stack = [t]
    out = []
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ops:
            out.append(x)
        stack.extend(_walk_args(x.args))
    return out


def contains(t, sub):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is sub:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        stack.extend(_walk_args(x.args))
    return False


# ---------------------------------------------------------------- constants
TRUE = raw('bool', True)
FALSE = raw('bool', False)
NONE = raw('none')
ELLIPSIS = raw('ellipsis')
INF = raw('const', 'inf')
NAN = raw('const', 'nan')
PI = raw('const', 'pi')


def num(v):
    return raw('num', Fraction(v))


ZERO = num(0)
ONE = num(1)


def string(s):
    return raw('str', s)


def sym(name, ty='opaque'):
    return raw('sym', name, ty)


_bvc = itertools.count()


def fresh_bv(n=None, kind='idx'):
    """A fresh bound variable; an index variable ranges over 0 <= v < n."""
    return raw('bv', 'v%d' % next(_bvc), kind, n)


def bv_range(b):
    return b.args[2]


def unknown(reason):
    return raw('unknown', reason)


def is_unknown(t):
    return t.op == 'unknown'


# ---------------------------------------------------------------- typing
BOOL_OPS = {'bool', 'eq0', 'lt0', 'eq', 'in', 'is', 'isinstance', 'truthy', 'any', 'hasattr', 'raises',
            'callable', 'isdisjoint', 'keyseteq', 'subset'}


def is_boolish(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == 'ite':
        return is_boolish(t.args[1]) and is_boolish(t.args[2])
    return False


NUM_OPS = {'num', 'poly', 'len', 'dim', 'sum', 'prod', 'integral', 'elem', 'bv', 'div', 'mod', 'minmax', 'pow',
           'searchsorted', 'ndim', 'ncoef', 'fun1', 'fneval', 'numel', 'papp', 'count', 'numof', 'ordstat', 'ustat', 'ucount'}


def is_numeric(t):
    """Known scalar number."""
    if t.op in NUM_OPS:
        return True
    if t.op == 'const':
        return True
    if t.op == 'sym':
        return t.args[1] in ('num', 'int', 'nat', 'pos')
    if t.op == 'ite':
        return is_numeric(t.args[1]) and is_numeric(t.args[2])
    if t.op == 'meth':
        return t.args[0] in ('numel', 'nnz', 'size1', 'size2')
    return False


INT_OPS = {'len', 'dim', 'div', 'mod', 'searchsorted', 'ndim', 'ncoef', 'numel', 'ucount'}


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'bv':
        return t.args[1] == 'idx'
    if t.op in INT_OPS:
        return True
    if t.op == 'sym':
        return t.args[1] in ('int', 'nat', 'pos')
    if t.op == 'poly':
        for mono, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in mono:
                if e < 0 or not is_int(a):
                    return False
        return True
    if t.op == 'minmax':
        return all(is_int(a) for a in t.args[1])
    if t.op in ('sum', 'prod'):
        return is_int(t.args[1].args[1])
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ('meth',) and t.args[0] in ('numel', 'nnz', 'size1', 'size2'):
        return True
    return False


# ---------------------------------------------------------------- ite / decision diagrams
_ite_memo = {}
MAXNODES = 4000


def top_atom(x):
    if x.op == 'ite':
        return x.args[0]
    if x.op in BOOL_OPS and x.op != 'bool':
        return x
    return None


def _cof(x, v, val):
    if x is v:
        return TRUE if val else FALSE
    if x.op == 'ite' and x.args[0] is v:
        return x.args[1] if val else x.args[2]
    return x


# --- relations between atoms (mutually exclusive / implied conditions)
DISJOINT_TYPES = [
    ('slice',), ('list',), ('tuple',), ('dict',), ('set',), ('str',), ('int',), ('ellipsis',), ('NoneType',),
    ('casadi.DM',), ('casadi.MX',), ('casadi.SX',), ('casadi.Sparsity',), ('numpy.ndarray',), ('float',),
]
_class_ancestors = {}     # repo class qualname -> set of ancestor names (incl. itself)
NOT_CALLABLE = {'slice', 'list', 'tuple', 'dict', 'set', 'str', 'int', 'ellipsis', 'NoneType', 'float'}
_callable_classes = {}    # repo class -> bool


def register_class(name, ancestors, is_callable=False):
    _class_ancestors[name] = set(ancestors) | {name}
    _callable_classes[name] = is_callable


_builtin_disjoint = {t[0] for t in DISJOINT_TYPES}


def types_disjoint(a, b):
    if a == b:
        return False
    if a in _builtin_disjoint and b in _builtin_disjoint:
        return True
    if a == 'callable':
        a, b = b, a
    if b == 'callable':
        if a in NOT_CALLABLE:
            return True
        if a in _callable_classes:
            return False
        return False
    if a in _builtin_disjoint and b in _class_ancestors:
        return a not in _class_ancestors[b]
    if b in _builtin_disjoint and a in _class_ancestors:
        return b not in _class_ancestors[a]
    return False


def type_implies(a, b):
    if a == b:
        return True
    if a in _class_ancestors and b in _class_ancestors[a]:
        return True
    if b == 'callable' and _callable_classes.get(a):
        return True
    return False


def atom_relation(v, w):
    """If atom v is true, what is atom w?  True / False / None."""
    if v.op == 'isinstance' and w.op == 'isinstance' and v.args[0] is w.args[0]:
        if type_implies(v.args[1], w.args[1]):
            return True
        if types_disjoint(v.args[1], w.args[1]):
            return False
    if v.op == 'is' and w.op == 'isinstance' and v.args[1] is NONE and v.args[0] is w.args[0]:
        return w.args[1] == 'NoneType'
    if w.op == 'is' and v.op == 'isinstance' and w.args[1] is NONE and w.args[0] is v.args[0]:
        return v.args[1] == 'NoneType'
    if v.op == 'eq' and w.op == 'eq':
        # x == const1 excludes x == const2
        xv, cv = _eqconst(v)
        xw, cw = _eqconst(w)
        if xv is not None and xv is xw and cv is not cw:
            return False
    if v.op == 'eq0' and w.op == 'lt0':
        d, e = v.args[0], w.args[0]
        s = sub(e, d)
        if s.op == 'num':
            return s.args[0] < 0
        s = add(e, d)
        if s.op == 'num':
            return s.args[0] < 0
    if v.op == 'lt0' and w.op == 'eq0':
        d, e = v.args[0], w.args[0]
        # d < 0 ; is e == 0 possible?
        s = sub(d, e)      # d = e + s
        if s.op == 'num' and s.args[0] >= 0:
            return False
        s = add(d, e)      # d = s - e
        if s.op == 'num' and s.args[0] >= 0:
            return False
    if v.op == 'eq0' and w.op == 'eq0':
        s = sub(v.args[0], w.args[0])
        if s.op == 'num' and s.args[0] != 0:
            return False
        s = add(v.args[0], w.args[0])
        if s.op == 'num' and s.args[0] != 0:
            return False
    if v.op == 'lt0' and w.op == 'lt0':
        s = sub(w.args[0], v.args[0])       # w = v + s
        if s.op == 'num' and s.args[0] <= 0:
            return True
        s = add(w.args[0], v.args[0])       # w = s - v > s
        if s.op == 'num' and s.args[0] >= 0:
            return False
    if v.op == 'is' and v.args[1] is NONE and w.op == 'truthy' and v.args[0] is w.args[0]:
        return False
    return None


def atom_relation_neg(v, w):
    """If atom v is FALSE, what is atom w?"""
    if v.op == 'isinstance' and w.op == 'isinstance' and v.args[0] is w.args[0]:
        if type_implies(w.args[1], v.args[1]):
            return False
    if v.op == 'lt0' and w.op == 'lt0':
        s = sub(w.args[0], v.args[0])       # w = v + s >= s
        if s.op == 'num' and s.args[0] >= 0:
            return False
        s = add(w.args[0], v.args[0])       # w = s - v <= s
        if s.op == 'num' and s.args[0] < 0:
            return True
    if v.op == 'lt0' and w.op == 'eq0':
        s = sub(w.args[0], v.args[0])
        if s.op == 'num' and s.args[0] > 0:
            return False
        s = add(w.args[0], v.args[0])       # w = s - v <= s <0
        if s.op == 'num' and s.args[0] < 0:
            return False
    return None


_RELATED = {'isinstance', 'is', 'eq', 'eq0', 'lt0', 'truthy'}


def _eqconst(v):
    a, b = v.args
    if a.op in ('str', 'num', 'bool'):
        return b, a
    if b.op in ('str', 'num', 'bool'):
        return a, b
    return None, None


_assume_memo = {}


def assume(x, v, val=True):
    """Simplify decision diagram x under atom v == val (only top-level decisions)."""
    if v.op not in _RELATED:
        return x
    k = (x, v, val)
    r = _assume_memo.get(k)
    if r is not None:
        return r
    if x.op == 'ite':
        c = x.args[0]
        rel = (True if c is v else atom_relation(v, c)) if val else (False if c is v else atom_relation_neg(v, c))
        if rel is True:
            r = assume(x.args[1], v, val)
        elif rel is False:
            r = assume(x.args[2], v, val)
        else:
            hi = assume(x.args[1], v, val)
            lo = assume(x.args[2], v, val)
            if hi is lo:
                r = hi
            elif hi is TRUE and lo is FALSE:
                r = c
            else:
                r = raw('ite', c, hi, lo)
    elif x.op in BOOL_OPS and x.op != 'bool':
        rel = (True if x is v else atom_relation(v, x)) if val else (False if x is v else atom_relation_neg(v, x))
        r = TRUE if rel is True else FALSE if rel is False else x
    else:
        r = x
    _assume_memo[k] = r
    return r


_depth = [0]


ARR_JOIN = None     # set by arrays.py: join of two arrays of the same shape


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'unknown':
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if len(_ite_memo) > 2000000:
        _ite_memo.clear()
        raise Blowup('ite table')
    tops = [x for x in (top_atom(c), top_atom(a), top_atom(b)) if x is not None]
    if not tops:
        raise ValueError('ite on non-condition %r' % (c,))
    v = min(tops, key=key)
    hi = ite(_cof(c, v, True), assume(_cof(a, v, True), v), assume(_cof(b, v, True), v))
    lo = ite(_cof(c, v, False), assume(_cof(a, v, False), v, False), assume(_cof(b, v, False), v, False))
    hi = assume(hi, v)
    lo = assume(lo, v, False)
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = v
    else:
        r = None
        if ARR_JOIN is not None and hi.op in ('arr', 'typed', 'mxsym') and lo.op in ('arr', 'typed', 'mxsym'):
            r = ARR_JOIN(v, hi, lo)
        if r is None:
            r = raw('ite', v, hi, lo)
    _ite_memo[k] = r
    return r


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def restrict(x, g):
    """x simplified assuming condition g (a conjunction-ish diagram); generalized cofactor (constrain)."""
    if g is TRUE or g is FALSE:
        return x
    if x.op != 'ite' and top_atom(x) is None:
        return x
    tx = top_atom(x)
    tg = top_atom(g)
    if tx is None or tg is None:
        return x
    v = min((tx, tg), key=key)
    g1, g0 = _cof(g, v, True), _cof(g, v, False)
    if g1 is FALSE:
        return restrict(assume(_cof(x, v, False), v, False), g0)
    if g0 is FALSE:
        return restrict(assume(_cof(x, v, True), v, True), g1)
    if tx is not v:
        # variable only in the care set
        return restrict(x, or_(g1, g0))
    hi = restrict(_cof(x, v, True), g1)
    lo = restrict(_cof(x, v, False), g0)
    return ite(v, hi, lo)


def leaves(x, limit=100000):
    seen = set()
    out = []
    stack = [x]
    while stack:
        y = stack.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if y.op == 'ite':
            stack.append(y.args[1])
            stack.append(y.args[2])
        else:
            out.append(y)
    return out


_lift_count = [0]


def lift(f, *args):
    """Apply strict f to args, distributing over conditional values."""
    if not any(isinstance(a, T) and a.op == 'ite' for a in args):
        return f(*args)
    memo = {}

    def go(args):
        k = tuple(args)
        r = memo.get(k)
        if r is not None:
            return r
        vs = [a.args[0] for a in args if isinstance(a, T) and a.op == 'ite']
        if not vs:
            r = f(*args)
        else:
            if len(memo) > 3000:
                raise Blowup('lift')
            v = min(vs, key=key)
            hi = go([assume(_cof(a, v, True), v) if isinstance(a, T) and a.op == 'ite' else a for a in args])
            lo = go([assume(_cof(a, v, False), v, False) if isinstance(a, T) and a.op == 'ite' else a for a in args])
            r = ite(v, hi, lo)
        memo[k] = r
        return r
    return go(list(args))


# ---------------------------------------------------------------- arithmetic
def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op in NOT_NUMBERS:
        raise Blowup('arithmetic on %s' % t.op)
    return {((t, 1),): Fraction(1)}


NOT_NUMBERS = {'poly1d', 'list', 'seq', 'tuple', 'dict', 'str', 'fn', 'cls', 'bound', 'lam', 'none', 'slice', 'lcat', 'filt', 'flatmap', 'fmt',
               'set', 'arr'}


def _mono_key(m):
    return tuple((key(a), e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    d = _cancel(d)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return raw('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    return raw('poly', items)


def _cancel(d):
    """Cancel multi-term factors that appear with negative powers."""
    negs = set()
    for m in d:
        for a, e in m:
            if e < 0 and a.op == 'poly':
                negs.add(a)
    for P in negs:
        # group by power
        groups = {}
        for m, c in d.items():
            p = 0
            for a, e in m:
                if a is P:
                    p = e
            groups.setdefault(p, {})[tuple((a, e) for a, e in m if a is not P)] = c
        changed = False
        for p in sorted(p for p in list(groups) if p < 0):
            N = groups.get(p)
            while p < 0 and N:
                q = _exact_div(N, dict(P.args[0]))
                if q is None:
                    break
                del groups[p]
                p += 1
                tgt = groups.setdefault(p, {})
                for m, c in q.items():
                    tgt[m] = tgt.get(m, 0) + c
                    if tgt[m] == 0:
                        del tgt[m]
                N = groups[p]
                changed = True
        if changed:
            nd = {}
            for p, g in groups.items():
                for m, c in g.items():
                    mm = _mono_mul(m, ((P, p),) if p else ())
                    if p > 0:
                        # expand positive power
                        sub_ = {m: c}
                        for _ in range(p):
                            sub_ = _pmul(sub_, dict(P.args[0]))
                        for m2, c2 in sub_.items():
                            nd[m2] = nd.get(m2, 0) + c2
                    else:
                        nd[mm] = nd.get(mm, 0) + c
            return _cancel({m: c for m, c in nd.items() if c != 0})
    return d


def _exact_div(N, P):
    """Exact multivariate division N / P (dicts) or None."""
    # use a total order on monomials: compare via atoms exponents w.r.t. sorted atom list
    atoms = sorted({a for m in list(N) + list(P) for a, e in m}, key=key)

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    lp = max(P, key=vec)
    lpv = vec(lp)
    R = dict(N)
    Q = {}
    steps = 0
    while R:
        steps += 1
        if steps > 200:
            return None
        lr = max(R, key=vec)
        lrv = vec(lr)
        qv = tuple(x - y for x, y in zip(lrv, lpv))
        # require that the quotient does not increase the negative powers of P's own atoms
        if any(q < 0 and x >= 0 for q, x in zip(qv, lrv)):
            return None
        qm = tuple((a, e) for a, e in zip(atoms, qv) if e)
        qc = R[lr] / P[lp]
        Q[qm] = Q.get(qm, 0) + qc
        for m, c in P.items():
            mm = _mono_mul(qm, m)
            R[mm] = R.get(mm, 0) - qc * c
            if R[mm] == 0:
                del R[mm]
    return Q


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: key(x[0])))


def _pmul(d1, d2):
    r = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def _fixpow(d):
    """merge symbolic powers pow(b,e1)*pow(b,e2)."""
    out = {}
    for m, c in d.items():
        pows = {}
        rest = []
        n = 0
        for a, e in m:
            if a.op == 'pow':
                n += 1
                b, x = a.args
                pows[b] = add(pows[b], mul(num(e), x)) if b in pows else mul(num(e), x)
            else:
                rest.append((a, e))
        if n:
            rest2 = []
            for a, e in rest:
                if a in pows:
                    pows[a] = add(pows[a], num(e))
                else:
                    rest2.append((a, e))
            mm = tuple(rest2)
            extra = {mm: c}
            for b, x in pows.items():
                p = pow_(b, x, _norec=True)
                extra = _pmul(extra, to_poly(p))
            for k2, v2 in extra.items():
                out[k2] = out.get(k2, 0) + v2
        else:
            out[m] = out.get(m, 0) + c
    return out


def _has_pow(d):
    for m in d:
        if any(a.op == 'pow' for a, e in m):
            return True
    return False


def _add2(a, b):
    if a.op == 'unknown':
        return a
    if b.op == 'unknown':
        return b
    for x, y in ((a, b), (b, a)):
        if x is NAN:
            return NAN
        if x is INF and (y.op in ('num',)):
            return INF
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def add(*xs):
    r = ZERO
    for x in xs:
        r = lift(_add2, r, x)
    return r


def _mul2(a, b):
    if a.op == 'unknown':
        return a
    if b.op == 'unknown':
        return b
    d = _pmul(to_poly(a), to_poly(b))
    if _has_pow(d):
        d = _fixpow(d)
    return from_poly(d)


def mul(*xs):
    r = ONE
    for x in xs:
        r = lift(_mul2, r, x)
    return r


MINUS_ONE = num(-1)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _inv(a):
    if a.op == 'unknown':
        return a
    if a.op == 'num':
        if a.args[0] == 0:
            return raw('const', 'div0')
        return raw('num', 1 / a.args[0])
    d = to_poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    # multi-term: normalise the leading coefficient
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    # factor out common monomial (negative powers)
    lc = items[0][1]
    nd = {m: c / lc for m, c in d.items()}
    P = from_poly(nd)
    if P.op != 'poly' or len(P.args[0]) == 1:
        return mul(num(1 / lc), _inv(P))
    return from_poly({((P, -1),): 1 / lc})


def inv(a):
    return lift(_inv, a)


def div(a, b):
    return mul(a, inv(b))


def pow_(b, e, _norec=False):
    def f(b, e):
        if b.op == 'unknown':
            return b
        if e.op == 'num' and e.args[0].denominator == 1:
            n = int(e.args[0])
            if abs(n) <= 12:
                if n == 0:
                    return ONE
                x = b if n > 0 else _inv(b)
                r = x
                for _ in range(abs(n) - 1):
                    r = _mul2(r, x)
                return r
        if b.op == 'num' and b.args[0] == 1:
            return ONE
        if b is MINUS_ONE:
            p = to_poly(e)
            if all(c.denominator == 1 for c in p.values()) and all(x > 0 and is_int(a) for m in p for a, x in m):
                p = {m: c % 2 for m, c in p.items()}
                e2 = from_poly(p)
                if e2 is not e:
                    return f(b, e2)
        # b ** (x + c) -> keep as one atom
        return raw('pow', b, e)
    return lift(f, b, e)


# ---------------------------------------------------------------- comparisons
def _nonneg(t):
    """Is the (integer) term certainly >= 0 ?"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('len', 'dim', 'searchsorted', 'ndim', 'mod', 'ncoef', 'numel', 'ucount'):
        return True
    if t.op == 'bv' and t.args[1] == 'idx':
        return True
    if t.op == 'div':
        return _nonneg(t.args[0]) and _nonneg(t.args[1])
    if t.op == 'meth' and t.args[0] in ('numel', 'nnz', 'size1', 'size2'):
        return True
    if t.op == 'sym' and t.args[1] in ('nat', 'pos'):
        return True
    if t.op in ('sum', 'prod') and is_int(t):
        return _nonneg(t.args[1].args[1])
    if t.op == 'ite':
        return _nonneg(t.args[1]) and _nonneg(t.args[2])
    if t.op == 'minmax':
        return (any if t.args[0] == 'max' else all)(_nonneg(x) for x in t.args[1])
    if t.op == 'poly':
        if all(c >= 0 and all(e >= 0 and _nonneg(a) for a, e in m) for m, c in t.args[0]):
            return True
        # write positive symbols as 1 + nat
        ps = {a for m, c in t.args[0] for a, e in m if _positive(a)}
        if not ps:
            return False
        d = dict(t.args[0])
        for a in ps:
            nd = {}
            for m, c in d.items():
                e = dict(m).get(a, 0)
                if e < 0:
                    return False
                rest = tuple((x, k) for x, k in m if x is not a)
                cur = {rest: c}
                for _ in range(e):
                    cur = _pmul(cur, {(): Fraction(1), ((a, 1),): Fraction(1)})
                for k2, v2 in cur.items():
                    nd[k2] = nd.get(k2, 0) + v2
            d = {k2: v2 for k2, v2 in nd.items() if v2}
        return all(c >= 0 and all(e >= 0 and _nonneg(a) for a, e in m) for m, c in d.items())
    return False


def _positive(a):
    return a.op == 'sym' and a.args[1] == 'pos'


def idx_range(a):
    """Exclusive upper bound of a non-negative index-like atom, or None."""
    if a.op == 'bv' and a.args[1] == 'idx':
        return a.args[2]
    if a.op == 'mod':
        return a.args[1]
    if a.op == 'minmax' and a.args[0] == 'min' and _nonneg(a) and is_int(a):
        for x in a.args[1]:
            if all(y.op == 'sym' for m in to_poly(x) for y, e in m):
                return add(x, ONE)
    if a.op == 'div' and a.args[0].op == 'bv' and a.args[0].args[2] is not None:
        q = exact_quot(a.args[0].args[2], a.args[1])
        return q
    return None


def exact_quot(n, m):
    q = div(n, m)
    if q.op == 'num':
        return q if q.args[0].denominator == 1 else None
    if all(e > 0 for mono, c in to_poly(q).items() for a, e in mono):
        return q
    return None


def _extreme(d, sign):
    """Replace index atoms by their extreme values so that sign*d is bounded from above."""
    p = to_poly(d)
    atoms = {a for mono in p for a, e in mono}
    for a in sorted((a for a in atoms if a.op == 'div'), key=key):
        x, m = a.args
        if x in atoms and idx_range(x) is not None:
            q = exact_quot(idx_range(x), m)
            if q is None and exact_quot(sub(idx_range(x), ONE), m) is not None:
                q = add(exact_quot(sub(idx_range(x), ONE), m), ONE)
            if q is not None and x.op != 'div':
                Q, R = fresh_bv(q), fresh_bv(m)
                d = subst_atom(subst_atom(d, a, Q), x, add(mul(m, Q), R))
    for _ in range(6):
        p = to_poly(d)
        tgt = None
        for mono in p:
            for a, e in mono:
                if e >= 1 and idx_range(a) is not None:
                    if tgt is None or (a.op != 'bv') or _depends(tgt, a):
                        tgt = a
        if tgt is None:
            return d
        # all monomials with this atom must have the same sign, other atoms non-negative
        signs = set()
        for mono, c in p.items():
            if any(a is tgt for a, e in mono):
                if not all(e >= 0 and _nonneg(a) for a, e in mono):
                    return None
                signs.add(c * sign > 0)
        if len(signs) != 1:
            return None
        d = subst_atom(d, tgt, sub(idx_range(tgt), ONE) if signs.pop() else ZERO)
    return None


def _depends(a, b):
    return b.op == 'bv' and a.op == 'bv' and a.args[2] is not None and b in fv(a.args[2]) and False


def subst_atom(d, a, v):
    acc = ZERO
    for mono, c in to_poly(d).items():
        term = raw('num', c)
        for x, e in mono:
            term = mul(term, pow_(v if x is a else x, num(e)))
        acc = add(acc, term)
    return acc


def _upper_neg(d):
    """Certainly d < 0 (using index ranges)?"""
    u = _extreme(d, 1)
    return u is not None and _nonneg(sub(neg(u), ONE))


def _lower_nonneg(d):
    l = _extreme(d, -1)
    return l is not None and _nonneg(l)


def _lt0(d):
    if d.op == 'unknown':
        return d
    if d.op == 'num':
        return TRUE if d.args[0] < 0 else FALSE
    if is_int(d):
        if _nonneg(d):
            return FALSE
        if _has_idx(d):
            if _lower_nonneg(d):
                return FALSE
            if _upper_neg(d):
                return TRUE
            if _upper_neg(sub(d, ONE)):
                return not_(_eq0(d))
            if _lower_nonneg(add(d, ONE)):
                return _eq0(add(d, ONE))
        s = _lexic(d)
        if s:
            return or_(_lt0(s[0]), and_(_eq0(s[0]), _lt0(s[1])))
        # integer: choose canonical sign so that leading coefficient is positive: d<0  <=> not(-d-1 < 0)
        p = to_poly(d)
        lead = sorted((m for m in p if m != ()), key=_mono_key)
        if lead and p[lead[0]] < 0:
            e = sub(neg(d), ONE)
            if _nonneg(e):
                return TRUE
            return not_(raw('lt0', e))
    return raw('lt0', d)


def lt(a, b):
    return lift(lambda x, y: _lt0(sub(x, y)), a, b)


def le(a, b):
    return not_(lt(b, a))


def _has_idx(d):
    for mono in to_poly(d):
        for a, e in mono:
            if a.op in ('bv', 'mod', 'div'):
                return True
    return False


def _eq0(d):
    if d.op == 'unknown':
        return d
    if d.op == 'num':
        return TRUE if d.args[0] == 0 else FALSE
    p = to_poly(d)
    if is_int(d) and _has_idx(d):
        if _upper_neg(d) or _lower_nonneg(sub(d, ONE)):
            return FALSE
    if is_int(d):
        if _nonneg(sub(d, ONE)):
            return FALSE
        if _nonneg(sub(neg(d), ONE)):
            return FALSE
    s = _lexic(d)
    if s:
        return and_(_eq0(s[0]), _eq0(s[1]))
    lead = sorted(p, key=_mono_key)
    if lead == [()]:
        return FALSE
    ld = [m for m in lead if m != ()][0]
    lc = p[ld]
    if lc != 1:
        d = from_poly({m: c / lc for m, c in p.items()})
    return raw('eq0', d)


def const_like(t):
    return t.op in ('num', 'str', 'none', 'bool', 'ellipsis', 'cls', 'ext', 'const')


def const_key(t):
    return const_like(t) or t.op == 'tuple' and all(const_key(x) for x in t.args)


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if a.op == 'unknown':
            return a
        if b.op == 'unknown':
            return b
        if is_boolish(a) and is_boolish(b):
            return ite(a, b, not_(b))
        if const_like(a) and const_like(b):
            if a.op == 'num' and b.op == 'num':
                return TRUE if a.args[0] == b.args[0] else FALSE
            if a.op in ('num', 'str', 'none') and b.op in ('num', 'str', 'none'):
                return FALSE
            return FALSE
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
        if is_numeric(a) and is_numeric(b):
            return _eq0(sub(a, b))
        if a.op in ('str', 'none') and is_numeric(b) or b.op in ('str', 'none') and is_numeric(a):
            return FALSE
        x, y = sorted((a, b), key=key)
        for u, v in ((x, y), (y, x)):
            if u.op == 'sym' and v.op == 'str':
                TESTS.setdefault(u.args[0], set()).add(v.args[0])
        return raw('eq', x, y)
    return lift(f, a, b)


TESTS = {}       # parameter -> constant strings it was compared with


# ---------------------------------------------------------------- min / max
def minmax(kind, *xs):
    def f(*xs):
        flat = []
        for x in xs:
            if x.op == 'unknown':
                return x
            if x.op == 'minmax' and x.args[0] == kind:
                flat.extend(x.args[1])
            else:
                flat.append(x)
        flat = list(dict.fromkeys(flat))
        # pairwise constant differences
        out = []
        for x in flat:
            dom = False
            for y in flat:
                if x is y:
                    continue
                d = sub(x, y)
                if d.op == 'num':
                    if (kind == 'max' and (d.args[0] < 0)) or (kind == 'min' and (d.args[0] > 0)):
                        dom = True
            if not dom:
                out.append(x)
        out.sort(key=key)
        if len(out) == 1:
            return out[0]
        return raw('minmax', kind, tuple(out))
    return lift(f, *xs)


# ---------------------------------------------------------------- integer div / mod with bounded remainders
def _mono_div(m, a):
    d = dict(m)
    if d.get(a, 0) >= 1:
        d[a] -= 1
        return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: key(z[0])))
    return None


def split_index(idx, M):
    """Write idx = q*M + r with 0 <= r < M.  Returns (q, r) or None."""
    if M.op == 'num' and M.args[0] == 1:
        return idx, ZERO
    if idx.op == 'num' and M.op == 'num':
        q, r = divmod(int(idx.args[0]), int(M.args[0]))
        return num(q), num(r)
    p = to_poly(idx)
    q = {}
    r = {}
    pm = to_poly(M)
    if len(pm) != 1:
        return _split_sum(idx, M)
    (mm, mc), = pm.items()
    for m, c in p.items():
        x = m
        ok = True
        for a, e in mm:
            for _ in range(e):
                x = _mono_div(x, a)
                if x is None:
                    ok = False
                    break
            if not ok:
                break
        if ok and (mm or c % mc == 0):
            q[x] = c / mc
        else:
            r[m] = c
    rt = from_poly(r)
    qt = from_poly(q)
    if rt is ZERO:
        return qt, rt
    if rt.op == 'bv' and bv_range(rt) is M:
        return qt, rt
    if rt.op == 'bv' and bv_range(rt) is not None and _nonneg(sub(M, bv_range(rt))):
        return qt, rt
    if rt.op == 'num' and _nonneg(rt) and M.op == 'num' and rt.args[0] < M.args[0]:
        return qt, rt
    return None


def _split_sum(idx, M, low=None):
    """split_index for a divisor of several terms: divide by its leading symbol, then look for a remainder from -low to M-1."""
    low = low or ZERO
    if not is_int(idx) or not is_int(M) or not _nonneg(sub(M, ONE)):
        return None
    pm = to_poly(M)
    lead = [m for m, c in pm.items() if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym']
    lead = [m for m in lead if not any(k != m and any(a is m[0][0] for a, e in k) for k in pm)]
    if not lead:
        return None
    a = min(lead, key=_mono_key)[0][0]
    q, r = {}, to_poly(idx)
    for _ in range(20):
        m = next((m for m in sorted(r, key=_mono_key) if any(x is a and e > 0 for x, e in m)), None)
        if m is None:
            break
        k = {_mono_div(m, a): r[m]}
        q = to_poly(add(from_poly(q), from_poly(k)))
        r = to_poly(sub(from_poly(r), mul(from_poly(k), M)))
    else:
        return None
    if any(c.denominator != 1 for c in q.values()):
        return None
    q, r = from_poly(q), from_poly(r)
    for k in (ZERO, MINUS_ONE, ONE):
        r2 = sub(r, mul(k, M))
        if least(add(r2, low)) and least(sub(sub(M, r2), ONE)):
            return add(q, k), r2
    return None


def _rows_of(d):
    """Lengths by which a nonlinear integer term may be split into whole rows and a rest."""
    p = to_poly(d)
    if not any(len(m) > 1 or m and m[0][1] > 1 for m in p):
        return []
    out = []
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.op == 'bv' and a.args[1] == 'idx' and a.args[2] is not None and a.args[2].op == 'poly':
                if not any(k != m and any(x is a for x, e in k) for k in p):
                    out.append(a.args[2])
    return sorted(set(out), key=key)


def _lexic(d):
    """(q, r) such that d has the sign of the pair (q, r) compared in this order, or None."""
    if not is_int(d):
        return None
    for M in _rows_of(d):
        s = _split_sum(d, M, sub(M, ONE))
        if s:
            return s
    return None


def least(t):
    """Is the integer term >= 0 for all values of its index variables?"""
    for _ in range(8):
        if _nonneg(t):
            return True
        if t.op not in ('poly', 'bv'):
            return False
        p = to_poly(t)
        vs = {a for m in p for a, e in m if a.op == 'bv' and a.args[1] == 'idx' and a.args[2] is not None}
        vs = [a for a in vs if not any(b is not a and contains(b.args[2], a) for b in vs)]
        for a in sorted(vs, key=lambda a: _mono_key(((a, 1),))):
            if any(x is a and e != 1 for m in p for x, e in m):
                continue
            k = from_poly({_mono_div(m, a): c for m, c in p.items() if any(x is a for x, e in m)})
            rest = from_poly({m: c for m, c in p.items() if not any(x is a for x, e in m)})
            if _nonneg(k):
                t = rest
                break
            if _nonneg(neg(k)):
                t = add(rest, mul(k, sub(a.args[2], ONE)))
                break
        else:
            return False
    return False


def int_part(idx, M):
    """(q, r) with idx = q*M + r, q the sum of the integer multiples of the single-term M found in idx."""
    pm = to_poly(M)
    if len(pm) != 1:
        return ZERO, idx
    (mm, mc), = pm.items()
    q, r = {}, {}
    for m, c in to_poly(idx).items():
        x = m
        for a, e in mm:
            for _ in range(e):
                x = _mono_div(x, a) if x is not None else None
        qc = c / mc
        if x is not None and qc.denominator == 1 and all(e > 0 and is_int(a) for a, e in x):
            q[x] = qc
        else:
            r[m] = c
    return from_poly(q), from_poly(r)


def idiv(a, b):
    def f(a, b):
        s = split_index(a, b)
        if s:
            return s[0]
        s = _split_sum(a, b, b) if b.op == 'poly' else None
        if s:
            return sub(s[0], ite(lt(s[1], ZERO), ONE, ZERO))
        q, r = int_part(a, b)
        if r.op == 'bv' and _positive(b) and r.args[1] == 'idx' and bv_range(r) is add(b, ONE):
            return add(q, ite(eq(r, b), ONE, ZERO))
        return add(q, raw('div', r, b))
    return lift(f, a, b)


def imod(a, b):
    def f(a, b):
        s = split_index(a, b)
        return s[1] if s else sub(a, mul(b, idiv(a, b)))
    return lift(f, a, b)


# ---------------------------------------------------------------- lambda / substitution
def lam(bvs, body):
    return raw('lam', tuple(bvs), body)


BUILD = {}


def builder(op):
    def deco(f):
        BUILD[op] = f
        return f
    return deco


def rebuild(op, args):
    b = BUILD.get(op)
    if b is not None:
        return b(*args)
    return euf(op, *args)


def euf(op, *args):
    """Uninterpreted constructor, strict: distributes over conditional arguments."""
    flat = []

    def coll(a):
        if isinstance(a, T):
            flat.append(a)
        elif isinstance(a, tuple):
            for x in a:
                coll(x)
    coll(args)
    if op not in ('lam',) and any(a.op == 'ite' for a in flat):
        def f(*fl):
            it = iter(fl)

            def re(a):
                if isinstance(a, T):
                    return next(it)
                if isinstance(a, tuple):
                    return tuple(re(x) for x in a)
                return a
            return raw(op, *[re(a) for a in args])
        return lift(f, *flat)
    return raw(op, *args)


def subst(t, m, memo=None):
    """Capture-avoiding substitution of bound variables (or arbitrary subterms) m: {T: T}."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ('num', 'str', 'bool', 'none', 'bv', 'sym', 'const', 'ellipsis', 'ref', 'fn', 'cls', 'ext', 'module',
                  'unknown'):
        r = t
    elif t.op == 'lam':
        bvs, body = t.args
        m2 = m
        if any(b in m for b in bvs):
            m2 = {k: v for k, v in m.items() if k not in bvs}
        ren = {}
        capt = False
        for k, v in m2.items():
            if not (fv(v) - fv(k)).isdisjoint(bvs) and (k.op != 'bv' or k in fv(body)):
                capt = True
                break
        nbs = []
        for b in bvs:
            r0 = b.args[2]
            r1 = subst(r0, m2) if r0 is not None else None
            if capt or r1 is not r0:
                nb = fresh_bv(r1, b.args[1]) if capt else raw('bv', b.args[0], b.args[1], r1)
                ren[b] = nb
            else:
                nb = b
            nbs.append(nb)
        if ren:
            body = subst(body, ren)
        if m2 is m and not ren:
            nbody = subst(body, m, memo)
        else:
            nbody = subst(body, m2)
        r = raw('lam', tuple(nbs), nbody)
    elif t.op == 'poly':
        acc = ZERO
        for mono, c in t.args[0]:
            term = raw('num', c)
            for a, e in mono:
                x = subst(a, m, memo)
                term = mul(term, pow_(x, num(e)))
            acc = add(acc, term)
        r = acc
    elif t.op == 'ite':
        r = ite(subst(t.args[0], m, memo), subst(t.args[1], m, memo), subst(t.args[2], m, memo))
    else:
        def go(a):
            if isinstance(a, T):
                return subst(a, m, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        na = tuple(go(a) for a in t.args)
        same = all(x is y if isinstance(x, T) else x == y for x, y in zip(na, t.args))
        r = t if same else rebuild(t.op, na)
    memo[t] = r
    return r


def open_lam(l, args):
    bvs, body = l.args
    if len(bvs) != len(args):
        raise ValueError('arity')
    return subst(body, dict(zip(bvs, args)))


@builder('not')
def _b_not(a):
    return not_(a)


@builder('eq0')
def _b_eq0(d):
    return lift(_eq0, d)


@builder('lt0')
def _b_lt0(d):
    return lift(_lt0, d)


@builder('eq')
def _b_eq(a, b):
    return eq(a, b)


@builder('minmax')
def _b_minmax(kind, xs):
    return minmax(kind, *xs)


@builder('div')
def _b_div(a, b):
    return idiv(a, b)


@builder('mod')
def _b_mod(a, b):
    return imod(a, b)


HALF_TURNS = {'cos': {0: 1, 1: 0, 2: -1, 3: 0}, 'sin': {0: 0, 1: 1, 2: 0, 3: -1}}


STEPS = {'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round, 'sign': lambda v: (v > 0) - (v < 0)}


def fun1(name, x):
    """Unary elementary function; cos and sin are evaluated at multiples of pi/2."""
    def f(x):
        if name in HALF_TURNS:
            p = to_poly(x)
            if not p:
                return num(HALF_TURNS[name][0])
            if len(p) == 1:
                (m, c), = p.items()
                if m == ((PI, 1),) and (2 * c).denominator == 1:
                    return num(HALF_TURNS[name][int(2 * c) % 4])
        if name in STEPS:
            if x.op == 'num':
                return num(STEPS[name](x.args[0]))
            if name in ('floor', 'ceil', 'trunc', 'rint') and is_int(x):
                return x
            if name == 'abs':
                y = neg(x)
                if key(y) < key(x):
                    x = y
        return raw('fun1', name, x)
    return lift(f, x)


@builder('fun1')
def _b_fun1(name, x):
    return fun1(name, x)


@builder('pow')
def _b_pow(a, b):
    return pow_(a, b)


@builder('bv')
def _b_bv(*a):
    return raw('bv', *a)


# ---------------------------------------------------------------- sums and products
def sum_(n, l):
    """Sum over index range n of lambda l (1 bv)."""
    (b,), body = l.args
    if n.op == 'num' and n.args[0].denominator == 1 and 0 <= n.args[0] <= 8:
        return add(*[subst(body, {b: num(k)}) for k in range(int(n.args[0]))])
    return _sum_body(n, b, body)


def _split_factor(n, b, body):
    """M such that body depends on b through div(b, M) / mod(b, M) and M divides n."""
    for x in find_ops(body, ('div', 'mod')):
        if x.args[0] is b:
            q = exact_quot(n, x.args[1])
            if q is not None and x.args[1] is not ONE:
                return x.args[1], q
    return None


def _sum_body(n, b, body):
    if body.op == 'unknown':
        return body
    if body is ZERO:
        return ZERO
    if b not in fv(body):
        return mul(n, body)
    sp = _split_factor(n, b, body)
    if sp is not None:
        M, q = sp
        b1, b2 = fresh_bv(q), fresh_bv(M)
        inner = subst(body, {b: add(mul(b1, M), b2)})
        return _sum_body(q, b1, _sum_body(M, b2, inner)) if not _prefers(inner, b1, b2) else \
            _sum_body(M, b2, _sum_body(q, b1, inner))
    if body.op == 'ite':
        c = body.args[0]
        if b not in fv(c):
            return ite(c, _sum_body(n, b, body.args[1]), _sum_body(n, b, body.args[2]))
        # kronecker delta
        if c.op == 'eq0' and body.args[2] is ZERO:
            e = solve_linear(c.args[0], b)
            if e is not None and in_range(e, n):
                return subst(body.args[1], {b: e})
        if c.op == 'eq0' and b not in fv(body.args[2]):
            e = solve_linear(c.args[0], b)
            if e is not None and in_range(e, n):
                return add(mul(n, body.args[2]), sub(subst(body.args[1], {b: e}), body.args[2]))
        w = _window(n, b, body)
        if w is not None:
            return w
        # reorder: a condition not depending on b deeper in the tree
        for cc in _conds(body):
            if b not in fv(cc):
                return ite(cc, _sum_body(n, b, cof_atom(body, cc, True)), _sum_body(n, b, cof_atom(body, cc, False)))
            if cc.op == 'eq0':
                e = solve_linear(cc.args[0], b)
                lo = cof_atom(body, cc, False)
                if e is not None and lo is ZERO and in_range(e, n):
                    return subst(cof_atom(body, cc, True), {b: e})
        return raw('sum', n, lam((b,), body))
    p = to_poly(body)
    acc = ZERO
    for mono, c in p.items():
        inside = []
        outside = raw('num', c)
        for a, e in mono:
            if b in fv(a):
                inside.append((a, e))
            else:
                outside = mul(outside, from_poly({((a, e),): Fraction(1)}))
        if not inside:
            acc = add(acc, mul(outside, n))
        else:
            ib = from_poly({tuple(inside): Fraction(1)})
            # push a product with a conditional inside out (e.g. x*ite) cannot occur: mul lifts
            acc = add(acc, mul(outside, raw('sum', n, lam((b,), ib))))
    return acc


def _window(n, b, body):
    """Sum whose terms vanish outside  L <= b < U:  shifted to start at zero."""
    L, U = ZERO, n
    cur = body
    found = False
    for cc in _conds(body):
        if cc.op != 'lt0' or b not in fv(cc):
            continue
        p = to_poly(cc.args[0])
        co = p.get(((b, 1),))
        if co not in (1, -1) or any(b in fv(a) for m in p for a, e in m if m != ((b, 1),)):
            continue
        e = from_poly({m: c for m, c in p.items() if m != ((b, 1),)})
        for val in (True, False):
            if cof_atom(cur, cc, val) is not ZERO:
                continue
            # terms are zero when (co*b + e < 0) is val, so its negation bounds b
            if co == 1 and val:
                L2, U2 = neg(e), None
            elif co == 1:
                L2, U2 = None, neg(e)
            elif val:
                L2, U2 = None, add(e, ONE)
            else:
                L2, U2 = add(e, ONE), None
            if L2 is not None and L is ZERO and _ge0(L2) and not _ge0(neg(L2)):
                L = L2
            elif U2 is not None and U is n and _ge0(sub(n, U2)) and not _ge0(sub(U2, n)):
                U = U2
            else:
                continue
            cur = cof_atom(cur, cc, not val)
            found = True
            break
    if not found or not _ge0(sub(U, L)):
        return None
    w = sub(U, L)
    k = fresh_bv(w)
    return sum_(w, lam((k,), subst(cur, {b: add(L, k)})))


def _ge0(d):
    if d.op == 'ite':
        return False
    return _nonneg(d) or _lower_nonneg(d)


def _prefers(body, b1, b2):
    """Sum over b1 first when a delta condition pins b1."""
    for c in _conds(body):
        if c.op == 'eq0' and b1 in fv(c) and solve_linear(c.args[0], b1) is not None:
            return True
    return False


def _conds(x):
    out = []
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if id(y) in seen or y.op != 'ite':
            continue
        seen.add(id(y))
        out.append(y.args[0])
        stack.extend([y.args[1], y.args[2]])
    return sorted(set(out), key=key)


def cof_atom(x, v, val):
    """Cofactor for an atom that need not be the top one."""
    if x is v:
        return TRUE if val else FALSE
    if x.op != 'ite':
        return x
    if x.args[0] is v:
        return assume(x.args[1 if val else 2], v, val)
    return ite(x.args[0], cof_atom(x.args[1], v, val), cof_atom(x.args[2], v, val))


def solve_linear(d, b):
    """Solve d == 0 for b when d is linear in b with unit coefficient."""
    p = to_poly(d)
    cb = None
    rest = {}
    for m, c in p.items():
        if m == ((b, 1),):
            cb = c
        else:
            if any(b in fv(a) for a, e in m):
                return None
            rest[m] = c
    if cb not in (1, -1):
        return None
    return from_poly({m: -c / cb for m, c in rest.items()})


def in_range(e, n):
    """0 <= e < n certainly?"""
    r = idx_range(e)
    if r is not None:
        if r is n or _nonneg(sub(n, r)):
            return True
    return (_nonneg(e) or _lower_nonneg(e)) and _upper_neg(sub(e, n))


@builder('sum')
def _b_sum(n, l):
    return lift(lambda n: sum_(n, l), n)


def prod_(n, l):
    (b,), body = l.args
    if n.op == 'num' and n.args[0].denominator == 1 and 0 <= n.args[0] <= 8:
        return mul(*[subst(body, {b: num(k)}) for k in range(int(n.args[0]))])
    return _prod_body(n, b, body)


def _prod_body(n, b, body):
    if body.op == 'unknown':
        return body
    if body is ONE:
        return ONE
    if body is ZERO:
        return raw('prod', n, lam((b,), body))
    if body.op == 'ite':
        c = body.args[0]
        for cc in _conds(body):
            if b not in fv(cc):
                return ite(cc, _prod_body(n, b, cof_atom(body, cc, True)), _prod_body(n, b, cof_atom(body, cc, False)))
        # multiplicative split of  ite(c, 1, f*g)
        hi, lo = body.args[1], body.args[2]
        if (hi is ONE or lo is ONE):
            f = lo if hi is ONE else hi
            parts = _mono_parts(f)
            if parts and len(parts) > 1:
                acc = ONE
                for a, e in parts:
                    if a.op == 'num':
                        cnt = sum_(n, lam((b,), ite(c, ZERO, ONE) if hi is ONE else ite(c, ONE, ZERO)))
                        acc = mul(acc, pow_(a, mul(cnt, num(e))))
                        continue
                    x = ite(c, ONE, a) if hi is ONE else ite(c, a, ONE)
                    acc = mul(acc, pow_(raw('prod', n, lam((b,), x)) if b in fv(x) else pow_(x, n), num(e)))
                return acc
            if parts and len(parts) == 1 and parts[0][1] != 1:
                a, e = parts[0]
                x = ite(c, ONE, a) if hi is ONE else ite(c, a, ONE)
                return pow_(raw('prod', n, lam((b,), x)), num(e))
        return raw('prod', n, lam((b,), body))
    parts = _mono_parts(body)
    if parts is not None:
        acc = ONE
        for a, e in parts:
            if a.op == 'num':
                acc = mul(acc, pow_(a, n))
            elif b in fv(a):
                acc = mul(acc, pow_(raw('prod', n, lam((b,), a)), num(e)))
            else:
                acc = mul(acc, pow_(pow_(a, n), num(e)))
        return acc
    return raw('prod', n, lam((b,), body))


def content(p):
    """Positive rational content of a polynomial (independent of the order of its terms)."""
    n = d = None
    for c in p.values():
        n = abs(c.numerator) if n is None else gcd(n, c.numerator)
        d = c.denominator if d is None else d * c.denominator // gcd(d, c.denominator)
    return Fraction(n, d)


def _mono_parts(f):
    p = to_poly(f)
    if len(p) != 1:
        # normalise sign/content:  -(x - y)  ->  (-1, y - x)
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: (min(e, d[a]) if e * d[a] > 0 else 0) if e > 0 or d.get(a, 0) > 0
                                               else max(e, d[a]) for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
        if common:
            cm = tuple((a, -e) for a, e in common.items())
            rest = from_poly({_mono_mul(m, tuple(sorted(cm, key=lambda x: key(x[0])))): c for m, c in p.items()})
            return sorted(common.items(), key=lambda x: key(x[0])) + _mono_parts(rest)
        items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
        lc = content(p)
        sign = -1 if items[0][1] < 0 else 1
        if lc * sign != 1:
            P = from_poly({m: c / lc / sign for m, c in p.items()})
            return [(raw('num', Fraction(x)), 1) for x in (lc, sign) if x != 1] + [(P, 1)]
        return [(f, 1)]
    (m, c), = p.items()
    parts = [(a, e) for a, e in m]
    if c != 1:
        parts.append((raw('num', c), 1))
    return parts


@builder('prod')
def _b_prod(n, l):
    return lift(lambda n: prod_(n, l), n)


# ---------------------------------------------------------------- any
def any_(n, l):
    (b,), body = l.args
    if body is FALSE:
        return FALSE
    if n.op == 'num' and n.args[0].denominator == 1 and 0 <= n.args[0] <= 16:
        return or_(*[subst(body, {b: num(k)}) for k in range(int(n.args[0]))])
    if body.op == 'unknown':
        return body
    if b not in fv(body):
        return and_(body, not_(lift(_eq0, n)))
    if body.op == 'ite':
        for cc in _conds(body):
            if b not in fv(cc):
                return ite(cc, any_(n, lam((b,), cof_atom(body, cc, True))),
                           any_(n, lam((b,), cof_atom(body, cc, False))))
    return raw('any', n, lam((b,), body))


@builder('any')
def _b_any(n, l):
    return lift(lambda n: any_(n, l), n)


# ---------------------------------------------------------------- canonicalisation
def canon(t):
    """Alpha-normalise binders (named by nesting depth) and rebuild so that all orderings are stable."""
    prev = None
    for _ in range(4):
        t = _canon(t, 0, {})
        if t is prev:
            break
        prev = t
    return t


def _canon(t, depth, memo):
    k = (t, depth)
    r = memo.get(k)
    if r is not None:
        return r
    if t.op in ('num', 'str', 'bool', 'none', 'sym', 'const', 'ellipsis', 'ref', 'fn', 'cls', 'ext', 'module', 'unknown',
                'bv'):
        r = t
    elif t.op == 'lam':
        bvs, body = t.args
        tmp = {}
        nb = []
        back = {}
        for i, b in enumerate(bvs):
            rng = b.args[2]
            if rng is not None:
                rng = _canon(subst(rng, tmp) if tmp else rng, depth, memo)
            f = fresh_bv(rng, b.args[1])
            tmp[b] = f
            back[f] = raw('bv', 'c%d' % (depth + i), b.args[1], rng)
            nb.append(back[f])
        body2 = _canon(subst(body, tmp), depth + len(bvs), memo)
        r = raw('lam', tuple(nb), subst(body2, back))
    elif t.op == 'poly':
        acc = ZERO
        for mono, c in t.args[0]:
            term = raw('num', c)
            for a, e in mono:
                term = mul(term, pow_(_canon(a, depth, memo), num(e)))
            acc = add(acc, term)
        r = acc
    elif t.op == 'ite':
        r = ite(_canon(t.args[0], depth, memo), _canon(t.args[1], depth, memo), _canon(t.args[2], depth, memo))
    else:
        def go(a):
            if isinstance(a, T):
                return _canon(a, depth, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        r = rebuild(t.op, tuple(go(a) for a in t.args))
    memo[k] = r
    return r


def deep_restrict(t, memo=None):
    """Use the decision of an ite inside nested lambdas of its branches."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('num', 'str', 'bool', 'none', 'bv', 'sym', 'const', 'ellipsis', 'ref', 'fn', 'cls', 'ext', 'module',
                'unknown'):
        return t
    if t.op == 'ite':
        v, a, b = t.args
        if contains(a, v):
            a = subst(a, {v: TRUE})
        if contains(b, v):
            b = subst(b, {v: FALSE})
        r = ite(deep_restrict(v, memo), deep_restrict(a, memo), deep_restrict(b, memo))
    elif t.op == 'lam':
        r = raw('lam', t.args[0], deep_restrict(t.args[1], memo))
    elif t.op == 'poly':
        acc = ZERO
        for mono, c in t.args[0]:
            term = raw('num', c)
            for a, e in mono:
                term = mul(term, pow_(deep_restrict(a, memo), num(e)))
            acc = add(acc, term)
        r = acc
    else:
        def go(a):
            if isinstance(a, T):
                return deep_restrict(a, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        na = tuple(go(a) for a in t.args)
        same = all(x is y if isinstance(x, T) else x == y for x, y in zip(na, t.args))
        r = t if same else rebuild(t.op, na)
    memo[t] = r
    return r


def _merged(v, a, b):
    """ite(x == e, a, b) where b at x == e is a anyway."""
    if v.op != 'eq0' or b.op == 'RAISE' or a.op == 'RAISE':
        return None
    p = to_poly(v.args[0])
    for m in sorted(p, key=_mono_key):
        if len(m) != 1 or m[0][1] != 1 or p[m] not in (1, -1):
            continue
        x = m[0][0]
        e = solve_linear(v.args[0], x)
        if e is None or not contains(b, x) and x not in fv(b):
            continue
        if canon(subst(a, {x: e})) is canon(subst(b, {x: e})):
            return b
    return None


def merge_cases(t, memo=None):
    """Remove case distinctions whose special case is an instance of the general one."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('num', 'str', 'bool', 'none', 'bv', 'sym', 'const', 'ellipsis', 'ref', 'fn', 'cls', 'ext', 'module',
                'unknown'):
        return t
    if t.op == 'ite':
        v, a, b = (merge_cases(x, memo) for x in t.args)
        r = ite(v, a, b)
        if r.op == 'ite' and not is_boolish(r):
            q = _merged(*r.args)
            if q is not None:
                r = q
    elif t.op == 'lam':
        r = raw('lam', t.args[0], merge_cases(t.args[1], memo))
    elif t.op == 'poly':
        acc = ZERO
        for mono, c in t.args[0]:
            term = raw('num', c)
            for a, e in mono:
                term = mul(term, pow_(merge_cases(a, memo), num(e)))
            acc = add(acc, term)
        r = acc
    else:
        def go(a):
            if isinstance(a, T):
                return merge_cases(a, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        na = tuple(go(a) for a in t.args)
        same = all(x is y if isinstance(x, T) else x == y for x, y in zip(na, t.args))
        r = t if same else rebuild(t.op, na)
    memo[t] = r
    return r


# ---------------------------------------------------------------- pretty printing
def pretty(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pretty(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    if o == 'num':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'bool':
        return str(a[0])
    if o == 'none':
        return 'None'
    if o in ('sym', 'const'):
        return a[0]
    if o == 'bv':
        return a[0]
    if o == 'poly':
        ts = []
        for m, c in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                s = pretty(x, d + 1)
                if x.op == 'poly':
                    s = '(' + s + ')'
                fs.append(s if e == 1 else '%s^%d' % (s, e))
            ts.append('*'.join(fs))
        return ' + '.join(ts)
    if o == 'ite':
        return 'if(%s, %s, %s)' % tuple(pretty(x, d + 1) for x in a)
    if o == 'lam':
        return 'λ%s.%s' % (','.join(b.args[0] for b in a[0]), pretty(a[1], d + 1))
    if o == 'elem':
        return '%s[%s]' % (pretty(a[0], d + 1), ','.join(pretty(x, d + 1) for x in a[1]))
    if o == 'eq0':
        return '(%s == 0)' % pretty(a[0], d + 1)
    if o == 'lt0':
        return '(%s < 0)' % pretty(a[0], d + 1)
    if o == 'attr':
        return '%s.%s' % (pretty(a[0], d + 1), a[1])
    if o == 'meth':
        return '%s.%s(%s)' % (pretty(a[1], d + 1), a[0], ', '.join(pretty(x, d + 1) for x in a[2:]))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(pretty(x, d + 1) for x in a[1:]))
    if o == 'item':
        return '%s[%s]' % (pretty(a[0], d + 1), pretty(a[1], d + 1))
    if o == 'tuple':
        return '(%s)' % ', '.join(pretty(x, d + 1) for x in a)
    if o == 'list':
        return '[%s]' % ', '.join(pretty(x, d + 1) for x in a[0])
    return '%s(%s)' % (o, ', '.join(pretty(x, d + 1) for x in a))
