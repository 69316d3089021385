"""Models of casadi expression-graph operations.

A casadi Function is its list of inputs and outputs; calling it substitutes the inputs in the outputs, which is also
what casadi.substitute does.  A matrix expression handed in by the caller is an unknown function of the caller's
symbols: substituting in it gives an uninterpreted term (csub) that records the substitution.
"""
from terms import *
import terms as tm
import arrays as ar
import seqs
from arrays import is_arr, as_arr, mk, elem, dim


def blocks_of(flow, v):
    """The matrix blocks of a structure (contract) or of a stacked value; None for anything else."""
    if v.op == 'blocks':
        return list(v.args[0])
    cls = flow.inst_class(v)
    if cls is not None and 'contract.' in cls.args[0]:
        vals = flow.call_method(v, 'values', [], {})
        return seqs.concrete(flow.content(vals))
    return None


def matrix(flow, v):
    """Two-dimensional casadi view of a value, or None."""
    b = blocks_of(flow, v)
    if b is not None:
        return None
    v = flow.as_cs(v)
    if is_arr(v) and v.op != 'ite':
        return ar.to_cs(v)
    if tm.is_numeric(v):
        return mk('cs', (ONE, ONE), lambda i, j: v)
    return None


def operand(flow, v):
    b = blocks_of(flow, v)
    if b is not None:
        bs = [matrix(flow, x) for x in b]
        return None if any(x is None for x in bs) else raw('blocks', tuple(bs))
    return matrix(flow, v)


# ------------------------------------------------------------------ substitution
def is_fresh(s):
    return isinstance(s.args[0], str) and s.args[0].startswith('mx')


def csub(base, pairs):
    """Caller's expression base with the caller's symbols replaced."""
    ps = {}
    for s, v in pairs:
        if is_fresh(s):
            continue      # an expression of the caller cannot contain a symbol the package made
        if ar.as_arr(s) is ar.as_arr(v) or s is v:
            continue
        ps[s] = v
    if not ps:
        return base
    items = tuple((s, ps[s]) for s in sorted(ps, key=key))
    return raw('typed', 'cs2', raw('csub', base, items), base.args[2])


def csubst(e, pairs):
    """The matrix expression e with symbols replaced by matrices."""
    pairs = list(pairs)
    m = dict(pairs)
    free = set()
    for v in m.values():
        free |= fv(v)
    memo = {}

    def items(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(items(x) for x in a)
        return a

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = go_(t)
        return r

    def go_(t):
        if t in m:
            return m[t]
        if t.op == 'lam':
            bvs, body = t.args
            if not free.isdisjoint(bvs):
                new = [fresh_bv(b.args[2], b.args[1]) for b in bvs]
                body = subst(body, dict(zip(bvs, new)))
                bvs = tuple(new)
            return raw('lam', bvs, go(body))
        if t.op == 'typed' and t.args[0] == 'cs2':
            nm = t.args[1]
            if not isinstance(nm, T):
                return csub(t, pairs)
            if nm.op == 'csub':
                base, ps = nm.args
                new = [(s, go(v)) for s, v in ps]
                have = {s for s, v in ps}
                return csub(base, new + [(s, v) for s, v in pairs if s not in have])
            if nm.op == 'root':
                var, unk, res = nm.args
                inner = [(s, v) for s, v in pairs if s not in unk.args[0]]
                return raw('typed', 'cs2', raw('root', var, unk, raw('bag', tuple(csubst(x, inner) for x in res.args[0]))), t.args[2])
            return t
        if t.op == 'poly':
            acc = ZERO
            for mono, c in t.args[0]:
                term = raw('num', c)
                for a, e in mono:
                    term = mul(term, pow_(go(a), num(e)))
                acc = add(acc, term)
            return acc
        if t.op == 'ite':
            return ite(*[go(x) for x in t.args])
        if not t.args or t.op in ('num', 'str', 'bool', 'none', 'bv', 'sym', 'const', 'mxsym'):
            return t
        na = tuple(items(a) for a in t.args)
        if all(x is y if isinstance(x, T) else x == y for x, y in zip(na, t.args)):
            return t
        return tm.rebuild(t.op, na)
    return go(e)


# ------------------------------------------------------------------ functions
def function(flow, a, kw):
    if any(x.op == 'star' for x in a) or len(a) < 3:
        return None
    if kw.keys() - {'opts'}:
        return None
    name = flow.frozen(a[0])
    second = flow.content(a[1])
    if second.op == 'dict':
        ins_n, outs_n = seqs.concrete(flow.content(a[2])), seqs.concrete(flow.content(a[3])) if len(a) > 3 else None
        if ins_n is None or outs_n is None:
            return None
        d = dict(second.args[0])
        if any(x not in d for x in ins_n + outs_n):
            return None
        ins, outs = [d[x] for x in ins_n], [d[x] for x in outs_n]
    else:
        ins, outs = seqs.concrete(second), seqs.concrete(flow.content(a[2]))
        if ins is None or outs is None:
            return None
        rest = [x for x in a[3:] if seqs.concrete(flow.content(x)) is not None]
        ins_n = seqs.concrete(flow.content(rest[0])) if rest else [string('i%d' % k) for k in range(len(ins))]
        outs_n = seqs.concrete(flow.content(rest[1])) if len(rest) > 1 else [string('o%d' % k) for k in range(len(outs))]
    if len(ins) != len(ins_n) or len(outs) != len(outs_n):
        return flow.unk('function definition')
    ins = [operand(flow, x) for x in ins]
    outs = [operand(flow, x) for x in outs]
    if any(x is None for x in ins + outs):
        return None
    return raw('csfun', name, tuple(symbol(x) for x in ins), tuple(outs), tuple(flow.frozen(x) for x in ins_n),
               tuple(flow.frozen(x) for x in outs_n))


def symbol(x):
    """The symbol behind a matrix that is exactly one symbol."""
    if x.op == 'blocks':
        return raw('blocks', tuple(symbol(y) for y in x.args[0]))
    if x.op == 'arr' and x.args[2].args[1].op == 'elem':
        s, idx = x.args[2].args[1].args
        if s.op == 'mxsym' and ar.is_identity(idx, x.args[2].args[0], x.args[1]) and tuple(s.args[2]) == tuple(x.args[1]):
            return s
    return x


def flat_pairs(ins, vals):
    """Pairs (symbol, value); None if an input is not a symbol or the blocks do not match."""
    out = []
    for s, v in zip(ins, vals):
        if s.op == 'blocks':
            if v.op != 'blocks' or len(v.args[0]) != len(s.args[0]):
                return None
            out += list(zip(s.args[0], v.args[0]))
        else:
            if v.op == 'blocks':
                return None
            out.append((s, v))
    return out if all(s.op == 'mxsym' for s, v in out) else None


def bind_args(flow, names, args, kw):
    if any(x.op == 'star' for x in args) or '**' in kw:
        return None
    if kw:
        by = {n.args[0] if n.op == 'str' else n: k for k, n in enumerate(names)}
        vals = [None] * len(names)
        for k, v in enumerate(args):
            vals[k] = v
        for k, v in kw.items():
            if k not in by:
                return None
            vals[by[k]] = v
    else:
        vals = list(args)
    if len(vals) != len(names) or any(v is None for v in vals):
        return None
    return vals


def results(flow, f, outs, by_name):
    if by_name:
        return flow.new_dict(raw('dict', tuple(zip(f.args[4], outs))))
    if len(outs) == 1:
        return outs[0]
    return raw('tuple', *outs)


def fit(v, shape):
    """Argument v for an input of the given shape (casadi accepts transposed vectors and 1-by-1 values)."""
    if v.op == 'blocks':
        return v
    r, c = shape
    if dim(v, 0) is r and dim(v, 1) is c:
        return v
    if r is ONE and dim(v, 1) is ONE and dim(v, 0) is c:
        return mk('cs', (r, c), lambda i, j: elem(v, (j, ZERO)))
    if c is ONE and dim(v, 0) is ONE and dim(v, 1) is r:
        return mk('cs', (r, c), lambda i, j: elem(v, (ZERO, i)))
    if dim(v, 0) is ONE and dim(v, 1) is ONE:
        return mk('cs', (r, c), lambda i, j: elem(v, (ZERO, ZERO)))
    return None


def shape2(s):
    return (dim(s, 0), dim(s, 1))


def call(flow, f, args, kw):
    if f.op == 'csfun':
        vals = bind_args(flow, f.args[3], args, kw)
        if vals is None:
            return flow.unk('arguments of a casadi function')
        vals = [operand(flow, v) for v in vals]
        if any(v is None for v in vals):
            return flow.unk('argument of a casadi function')
        vals = [v if s.op == 'blocks' else fit(v, shape2(s)) for s, v in zip(f.args[1], vals)]
        if any(v is None for v in vals):
            return flow.unk('argument shape')
        ps = flat_pairs(f.args[1], vals)
        if ps is None:
            return flow.unk('function of a non-symbol')
        return results(flow, f, [csubst(o, ps) for o in f.args[2]], bool(kw))
    if f.op == 'csmap':
        return call_map(flow, f, args, kw)
    if f.op == 'csroot':
        return call_root(flow, f, args, kw)
    return None


def call_map(flow, m, args, kw):
    f, n, reduce_in = m.args
    vals = bind_args(flow, f.args[3], args, kw)
    if vals is None:
        return flow.unk('arguments of a map')
    vals = [matrix(flow, v) for v in vals]
    if any(v is None for v in vals) or any(s.op != 'mxsym' for s in f.args[1]) or any(o.op == 'blocks' for o in f.args[2]):
        return flow.unk('argument of a map')
    wide = []
    for k, (s, v) in enumerate(zip(f.args[1], vals)):
        r, c = shape2(s)
        w = fit(v, (r, c) if k in reduce_in else (r, mul(c, n)))
        if w is None:
            return flow.unk('argument shape of a map')
        wide.append(w)
    outs = []
    for o in f.args[2]:
        r, c = shape2(o)

        def at(i, j, o=o, c=c):
            q, rem = tm.idiv(j, c), tm.imod(j, c)
            ps = []
            for k, (s, w) in enumerate(zip(f.args[1], wide)):
                sr, sc = shape2(s)
                if k in reduce_in:
                    ps.append((s, w))
                else:
                    ps.append((s, mk('cs', (sr, sc), lambda a, b, w=w, sc=sc: elem(w, (a, add(mul(q, sc), b))))))
            return elem(csubst(o, ps), (i, rem))
        outs.append(mk('cs', (r, mul(c, n)), at))
    return results(flow, f, outs, bool(kw))


def call_root(flow, rf, args, kw):
    f, = rf.args
    if kw or len(args) != len(f.args[1]) or len(f.args[2]) != 1:
        return flow.unk('arguments of a rootfinder')
    unk = f.args[1][0]
    unknowns = list(unk.args[0]) if unk.op == 'blocks' else [unk]
    vals = [operand(flow, v) for v in args[1:]]
    if any(v is None for v in vals) or any(u.op != 'mxsym' for u in unknowns):
        return flow.unk('argument of a rootfinder')
    vals = [v if s.op == 'blocks' else fit(v, shape2(s)) for s, v in zip(f.args[1][1:], vals)]
    if any(v is None for v in vals):
        return flow.unk('argument shape')
    ps = flat_pairs(f.args[1][1:], vals)
    if ps is None:
        return flow.unk('function of a non-symbol')
    res = csubst(f.args[2][0], ps)
    res = list(res.args[0]) if res.op == 'blocks' else [res]
    if unk.op == 'blocks':
        return raw('rootvec', tuple(unknowns), tuple(res))
    return root(unk, unknowns, res)


def root(var, unknowns, residuals):
    """Value of the unknown var in the solution of residuals == 0."""
    if var not in unknowns:
        return unknown('root of a known')
    residuals = [r for r in residuals if not any(d is ZERO for d in shape2(r))]
    return raw('typed', 'cs2', raw('root', var, raw('bag', tuple(unknowns)), raw('bag', tuple(residuals))), tuple(var.args[2]))


def rootparts(v):
    if v.op == 'rootvec':
        return [root(u, list(v.args[0]), list(v.args[1])) for u in v.args[0]]
    return None


def map_(flow, f, args, kw):
    """Function.map in the forms map(n[, par]) and map(name, par, n, reduce_in, reduce_out[, opts])."""
    if kw:
        return None
    if args and args[0].op in ('str', 'fmt') or len(args) >= 4:
        if len(args) < 5:
            return None
        n = args[2]
        red = seqs.concrete(flow.content(args[3]))
        rout = seqs.concrete(flow.content(args[4]))
        if red is None or rout is None or rout:
            return flow.unk('reduced outputs')
        idx = set()
        for x in red:
            if x.op == 'num':
                idx.add(int(x.args[0]))
            elif x.op == 'str' and x in f.args[3]:
                idx.add(f.args[3].index(x))
            else:
                return flow.unk('reduced input')
        return raw('csmap', f, n, tuple(sorted(idx)))
    if args and tm.is_numeric(args[0]):
        return raw('csmap', f, args[0], ())
    return None


def method(flow, f, name, args, kw):
    if f.op == 'csfun':
        if name in ('expand', 'wrap'):
            return f
        if name == 'map':
            return map_(flow, f, args, kw)
        if name in ('n_in', 'n_out') and not args:
            return num(len(f.args[1 if name == 'n_in' else 2]))
        if name in ('name_in', 'name_out'):
            ns = f.args[3 if name == 'name_in' else 4]
            if not args:
                return flow.new_list(seqs.mk_list(list(ns)))
            if args[0].op == 'num':
                return ns[int(args[0].args[0])]
        if name == 'name' and not args:
            return f.args[0]
    if name in ('__call__', 'call') and f.op in ('csfun', 'csmap', 'csroot'):
        if name == '__call__':
            return call(flow, f, args, kw)
    return None


def substitute(flow, a, kw):
    if len(a) != 3 or kw:
        return None
    lists = [seqs.concrete(flow.content(x)) for x in a]
    single = lists[0] is None
    if single:
        lists = [[x] if l is None else l for x, l in zip(a, lists)]
    if any(l is None for l in lists):
        return None
    es, ss, vs = lists
    es, ss, vs = [[matrix(flow, x) for x in l] for l in (es, ss, vs)]
    if any(x is None for x in es + ss + vs) or len(ss) != len(vs):
        return None
    ss = [symbol(s) for s in ss]
    if any(s.op != 'mxsym' for s in ss):
        return flow.unk('substitution for a non-symbol')
    vs = [fit(v, shape2(s)) for s, v in zip(ss, vs)]
    if any(v is None for v in vs):
        return flow.unk('substitution of another shape')
    out = [csubst(e, list(zip(ss, vs))) for e in es]
    return out[0] if single else flow.new_list(seqs.mk_list(out))
