"""Sequence and dictionary domain: finite displays, symbolic sequences, filters, concatenations."""
from terms import *
import terms as tm
import arrays as ar
from arrays import type_of, norm_index, is_arr, as_arr, elem

SEQ_OPS = {'list', 'seq', 'lcat', 'filt', 'flatmap', 'carry', 'tupleof'}


def is_seq(t):
    if t.op in SEQ_OPS:
        return True
    if t.op == 'ite':
        return is_seq(t.args[1]) and is_seq(t.args[2])
    return False


def mk_list(xs):
    for x in xs:
        if x.op == 'unknown':
            return raw('list', tuple(xs))
    return raw('list', tuple(xs))


def mk_seq(n, l):
    if n.op == 'unknown':
        return n
    if n.op == 'ite':
        return lift(lambda m: mk_seq(m, rerange(l, m)), n)
    (b,), body = l.args
    if n.op == 'num' and n.args[0] <= 8:
        return mk_list([subst(body, {b: num(k)}) for k in range(int(n.args[0]))])
    # eta: the elements of an opaque list, in order
    if body.op == 'item' and body.args[1] is b and b not in fv(body.args[0]) and n is length(body.args[0]) \
            and type_of(body.args[0]).startswith('list'):
        return body.args[0]
    return raw('seq', n, l)


def rerange(l, n):
    (b,), body = l.args
    if b.args[2] is n:
        return l
    nb = raw('bv', b.args[0], b.args[1], n)
    return lam((nb,), subst(body, {b: nb}))


@builder('seq')
def _b_seq(n, l):
    return lift(lambda m: mk_seq(m, rerange(l, m)), n)


def lcat(*parts):
    return lift(_lcat, *parts) if any(p.op == 'ite' for p in parts) else _lcat(*parts)


def _lcat(*parts):
    flat = []
    for p in parts:
        if p.op == 'unknown':
            return p
        if p.op == 'lcat':
            flat.extend(p.args[0])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p.op == 'list' and not p.args[0]:
            continue
        if p.op == 'list' and out and out[-1].op == 'list':
            out[-1] = mk_list(list(out[-1].args[0]) + list(p.args[0]))
        else:
            out.append(p)
    if not out:
        return mk_list([])
    if len(out) == 1:
        return out[0]
    pieces = [piece(p) for p in out]
    if all(p is not None for p in pieces):
        r = ar.coalesce(pieces)
        if r is not None:
            b = fresh_bv(r[0])
            return mk_seq(r[0], lam((b,), r[1](b)))
    return raw('lcat', tuple(out))


def piece(p):
    """Length and element function of a sequence of numbers."""
    if p.op == 'list':
        xs = p.args[0]
        if len(xs) == 1 and is_numeric(xs[0]):
            return ONE, lambda i: xs[0]
        st = step(xs)
        return (num(len(xs)), lambda i: add(xs[0], mul(st, i))) if st is not None else None
    if p.op == 'seq' and is_numeric(p.args[1].args[1]):
        return p.args[0], lambda i: open_lam(p.args[1], (i,))
    return None


@builder('lcat')
def _b_lcat(parts):
    return lcat(*parts)


@builder('list')
def _b_list(xs):
    return raw('list', tuple(xs))


def tcat(a, b):
    if a.op == 'tuple' and b.op == 'tuple':
        return raw('tuple', *(a.args + b.args))

    def s(x):
        return mk_list(list(x.args)) if x.op == 'tuple' else x.args[0] if x.op == 'tupleof' else x
    return raw('tupleof', lcat(s(a), s(b)))


def append(l, v):
    return lcat(l, mk_list([v]))


def filt(n, c, l):
    (b,), cond = c.args
    (b2,), body = l.args
    if cond is TRUE:
        return mk_seq(n, l)
    if cond is FALSE:
        return mk_list([])
    if cond.op == 'unknown':
        return cond
    if n.op == 'num' and n.args[0] <= 8:
        return lcat(*[ite(subst(cond, {b: num(k)}), mk_list([subst(body, {b2: num(k)})]), mk_list([]))
                      for k in range(int(n.args[0]))])
    if b not in fv(cond):
        return ite(cond, mk_seq(n, l), mk_list([]))
    return raw('filt', n, c, l)


@builder('filt')
def _b_filt(n, c, l):
    return lift(lambda m: filt(m, rerange(c, m), rerange(l, m)), n)


def flatmap(n, l):
    (b,), body = l.args
    if body.op == 'unknown':
        return body
    if n.op == 'num' and n.args[0] <= 8:
        return lcat(*[subst(body, {b: num(k)}) for k in range(int(n.args[0]))])
    if body.op == 'list':
        if not body.args[0]:
            return body
        if len(body.args[0]) == 1:
            return mk_seq(n, lam((b,), body.args[0][0]))
    if body.op == 'ite':
        for x, y, neg_ in ((body.args[1], body.args[2], False), (body.args[2], body.args[1], True)):
            if y.op == 'list' and not y.args[0] and x.op == 'list' and len(x.args[0]) == 1:
                c = not_(body.args[0]) if neg_ else body.args[0]
                return filt(n, lam((b,), c), lam((b,), x.args[0][0]))
    return raw('flatmap', n, l)


@builder('flatmap')
def _b_flatmap(n, l):
    return lift(lambda m: flatmap(m, rerange(l, m)), n)


def concrete(t):
    if t.op == 'list':
        return list(t.args[0])
    if t.op == 'tuple':
        return list(t.args)
    return None


def symbolic(t):
    """(n, lam) enumerating t (through its base range for a filter)."""
    if t.op == 'seq':
        return t.args
    if t.op == 'filt':
        return t.args[0], t.args[2]
    if t.op == 'list':
        return None, None
    if t.op == 'tupleof':
        return symbolic(t.args[0])
    if t.op in ('lcat', 'flatmap', 'carry'):
        n = length(t)
        if n.op == 'unknown' or t.op != 'lcat':
            return None, None
        b = fresh_bv(n)
        x = item(t, b)
        if x.op == 'unknown':
            return None, None
        return n, lam((b,), x)
    if t.op == 'unknown':
        return None, None
    n = length(t)
    b = fresh_bv(n)
    if type_of(t).startswith('dict'):
        return n, lam((b,), dkey(t, b))
    return n, lam((b,), item(t, b))


def dkey(d, i):
    return euf('dkey', d, i)


def key_index(k, b, k2):
    """The index e with k[b:=e] equal to k2, when keys at different indices differ; else None."""
    if k.op == 'dkey' and k2.op == 'dkey' and k.args[0] is k2.args[0] and k.args[1] is b:
        return k2.args[1]
    if is_numeric(k) and is_numeric(k2):
        if b not in fv(k):
            return None
        z = fresh_bv(None)
        return tm.solve_linear(sub(subst(k, {b: z}), k2), z)
    if k.op == 'fmt' and k2.op == 'fmt' and len(k.args[0]) == len(k2.args[0]):
        e = None
        for x, y in zip(k.args[0], k2.args[0]):
            if not isinstance(x, T) or not isinstance(y, T):
                if x == y:
                    continue
                return None
            if x is y and b not in fv(x):
                continue
            if e is not None or x.op != 'tostr' or y.op != 'tostr' or b not in fv(x):
                return None
            e = key_index(x.args[0], b, y.args[0])
            if e is None:
                return None
        return e
    return None


def distinct_keys(d):
    """(n, b, k, v) of a dict built from a sequence of pairs whose keys differ from each other."""
    if d.op == 'dictof' and d.args[0].op == 'seq':
        n, l = d.args[0].args
        (b,), t = l.args
        if t.op == 'tuple' and len(t.args) == 2 and key_index(t.args[0], b, t.args[0]) is b:
            return n, b, t.args[0], t.args[1]
    return None


def dict_item(d, k):
    q = distinct_keys(d)
    if q is not None:
        n, b, kk, v = q
        e = key_index(kk, b, k)
        if e is not None and tm.in_range(e, n):
            return subst(v, {b: e})
    return None


def opaque_seq(c):
    n, l = symbolic(c)
    if n is None:
        return unknown('iteration over %s' % c.op)
    return mk_seq(n, l)


def length(t):
    return lift(_length, t)


def _length(t):
    o = t.op
    if o == 'unknown':
        return t
    if o == 'list':
        return num(len(t.args[0]))
    if o == 'tuple':
        return num(len(t.args))
    if o == 'str':
        return num(len(t.args[0]))
    if o == 'tupleof':
        return length(t.args[0])
    if o == 'seq':
        return t.args[0]
    if o == 'lcat':
        return add(*[length(p) for p in t.args[0]])
    if o == 'filt':
        n, c, l = t.args
        (b,), cond = c.args
        return tm.sum_(n, lam((b,), ite(cond, ONE, ZERO)))
    if o == 'flatmap':
        n, l = t.args
        (b,), body = l.args
        return tm.sum_(n, lam((b,), length(body)))
    if o == 'dict':
        return num(len(t.args[0]))
    if o == 'set' and all(x.op == 'str' for x in t.args[0]):
        return num(len(set(t.args[0])))
    if o == 'typedlist':
        return t.args[2]
    return raw('len', t)


@builder('len')
def _b_len(t):
    return length(t)


def item(c, i):
    return lift(_item, c, i)


def step(xs):
    """Common difference of an arithmetic progression, if it is a number."""
    if len(xs) < 2 or not all(is_numeric(x) and x.op != 'ite' for x in xs):
        return None
    d = sub(xs[1], xs[0])
    if d is not ONE and len(xs) == 2 or d.op != 'num' or any(sub(y, x) is not d for x, y in zip(xs[1:], xs[2:])):
        return None
    return d


def _item(c, i):
    if c.op == 'unknown':
        return c
    if i.op == 'unknown':
        return i
    xs = concrete(c)
    if xs is not None:
        if i.op == 'num':
            k = int(i.args[0])
            if -len(xs) <= k < len(xs):
                return xs[k]
            return unknown('index out of range')
        if len(xs) == 1:
            return xs[0]
        if not xs:
            return unknown('index of empty')
        st = step(xs)
        if st is not None:
            return add(xs[0], mul(st, i))
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = ite(tm.eq(i, num(k)), xs[k], r)
        return r
    if c.op == 'tupleof':
        return item(c.args[0], i)
    if c.op == 'seq':
        n, l = c.args
        return open_lam(l, (norm_index(i, n),))
    if c.op == 'lcat':
        parts = list(c.args[0])
        if i.op == 'num' and i.args[0] < 0:
            k = i
            for p in reversed(parts):
                n = length(p)
                if n.op == 'num':
                    if -k.args[0] <= n.args[0]:
                        return item(p, k)
                    k = add(k, n)
                    continue
                if tm._nonneg(add(n, k)):
                    return item(p, k)
                return raw('item', c, i)
            return unknown('index out of range')
        ns = [length(p) for p in parts]
        if any(n.op == 'unknown' for n in ns):
            return unknown('length')
        off = ZERO
        offs = []
        for n in ns:
            offs.append(off)
            off = add(off, n)
        i = norm_index(i, off)
        conds = [tm.lt(i, add(o, n)) for o, n in zip(offs, ns)]
        r = None
        for p, o, cd in reversed(list(zip(parts, offs, conds))):
            if r is not None and cd is FALSE:
                continue
            v = item(p, sub(i, o)) if not (p.op == 'list' and len(p.args[0]) == 1) else p.args[0][0]
            r = v if r is None else ite(cd, v, r)
        return r
    if c.op == 'carry':
        return raw('item', c, i)
    if c.op in ('filt', 'flatmap'):
        return raw('item', c, i)
    if i.op == 'num' and i.args[0] < 0 or is_numeric(i):
        i = norm_index(i, length(c))
    return raw('item', c, i)


@builder('item')
def _b_item(c, i):
    if is_seq(c) or c.op in ('tuple', 'list') or type_of(c).startswith('list'):
        return item(c, i)
    if c.op == 'dictof':
        r = dict_item(c, i)
        if r is not None:
            return r
    return euf('item', c, i)


def slice_(c, lo, hi, st):
    lo = None if lo is NONE else lo
    hi = None if hi is NONE else hi
    st = None if st is NONE else st
    xs = concrete(c)
    if xs is not None and all(x is None or x.op == 'num' for x in (lo, hi, st)):
        f = lambda x: None if x is None else int(x.args[0])
        ys = xs[slice(f(lo), f(hi), f(st))]
        return raw('tuple', *ys) if c.op == 'tuple' else mk_list(ys)
    n = length(c)
    if n.op == 'unknown':
        return n
    b = ar.slice_bounds(lo, hi, st, n)
    if b is None:
        return None
    s, ln, step = b
    if c.op == 'filt':
        return None
    j = fresh_bv(ln)
    return mk_seq(ln, lam((j,), item(c, add(s, mul(step, j)))))


def list_store(l, k, v):
    if l.op == 'unknown':
        return l
    if l.op == 'list' and k.op == 'num':
        xs = list(l.args[0])
        i = int(k.args[0])
        if -len(xs) <= i < len(xs):
            xs[i] = v
            return mk_list(xs)
        return unknown('store out of range')
    if l.op == 'slice' or k.op == 'slice':
        return unknown('slice store')
    n = length(l)
    k = norm_index(k, n)
    if l.op in ('seq', 'lcat') or type_of(l).startswith('list'):
        b = fresh_bv(n)
        return raw('seq', n, lam((b,), ite(tm.eq(b, k), v, item(l, b))))
    return unknown('list store')


# ------------------------------------------------------------------ sets
def mk_set(xs):
    return raw('set', tuple(sorted(set(xs), key=key)))


def set_of(s):
    xs = concrete(s)
    if xs is not None:
        return mk_set(xs)
    if s.op == 'unknown':
        return s
    return raw('setof', s)


def is_set(a):
    return a.op in ('set', 'setof', 'setop')


def as_set(a):
    """The keys of a dict can be used like a set."""
    return set_of(a) if is_seq(a) else a


def subset(a, b):
    if a is b:
        return TRUE
    if a.op == 'set' and b.op == 'set' and all(const_like(x) for x in a.args[0] + b.args[0]):
        return TRUE if set(a.args[0]) <= set(b.args[0]) else FALSE
    return raw('subset', a, b)


def setop(op, a, b):
    if a.op == 'set' and b.op == 'set' and all(const_like(x) for x in a.args[0] + b.args[0]):
        x, y = set(a.args[0]), set(b.args[0])
        return mk_set({'|': x | y, '&': x & y, '-': x - y, '^': x ^ y}[op])
    if op in '|&^':
        a, b = sorted((a, b), key=key)
    return raw('setop', op, a, b)


# ------------------------------------------------------------------ filtered arrays
def mk_filt1(n, c, l):
    return raw('filt1', n, c, l)


def filt_ew(f, a, b):
    for x, y, rev in ((a, b, False), (b, a, True)):
        if x.op == 'filt1' and not is_arr(y) and y.op != 'filt1':
            n, c, l = x.args
            (v,), body = l.args
            return mk_filt1(n, c, lam((v,), f(y, body) if rev else f(body, y)))
    if a.op == 'filt1' and b.op == 'filt1' and canon(a.args[1]) is canon(b.args[1]):
        (v,), x = a.args[2].args
        (w,), y = b.args[2].args
        return mk_filt1(a.args[0], a.args[1], lam((v,), f(x, subst(y, {w: v}))))
    return unknown('filtered array arithmetic')


# ------------------------------------------------------------------ dictionaries
def dict_store(flow, d, k, v):
    if d.op == 'unknown':
        return d
    if d.op == 'dict':
        items = list(d.args[0])
        for j, (kk, _) in enumerate(items):
            if kk is k:
                items[j] = (k, v)
                return raw('dict', tuple(items))
        if const_key(k) and all(const_key(kk) for kk, _ in items) or not items:
            return raw('dict', tuple(items + [(k, v)]))
    return raw('dstore', d, k, v)


def dict_of_pairs(flow, s):
    def f(s):
        if s.op == 'unknown':
            return s
        xs = concrete(s)
        if xs is not None:
            d = raw('dict', ())
            for p in xs:
                c = concrete(flow.content(p)) if p.op != 'tuple' else list(p.args)
                if c is None or len(c) != 2:
                    return unknown('dict of pairs')
                d = dict_store(flow, d, c[0], c[1])
            return d
        return raw('dictof', s)
    return lift(f, s)
