"""Random interpretation of value terms (after Gulwani & Necula).

Two summaries with different normal forms may still denote the same function, because the
rewriting is incomplete.  Before a difference is reported, both terms are interpreted
under random assignments of their free symbols (sizes, elements, uninterpreted
functions); a pair that no assignment tells apart is reported as undecided, never as a
violation.  This looks at terms only: no code of the package is involved.
"""
import hashlib
from fractions import Fraction
from math import floor

from terms import *
import terms as tm
import arrays as ar
import lib


class Undefined(Exception):
    pass


class OutOfRange(Undefined):
    """Read at an index (the arguments) past the end."""
    def of(self, names):
        return any(x.args[0] in names for i in self.args for x in tm.find_ops(i, ('sym',)))


class TooBig(Exception):
    pass


POOL = [Fraction(x) for x in (0, 1, 2, -1)] + [Fraction(1, 2), Fraction(1, 3)]


def strings_in(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'str':
            out.add(x.args[0])
        stack.extend(tm._walk_args(x.args))
    return out


def ops_in(t, ops):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            out.add(x)
        stack.extend(tm._walk_args(x.args))
    return out


class Interp(object):
    def __init__(self, seed, terms):
        self.seed = str(seed)
        self.memo = {}
        self.steps = 0
        strs = set()
        self.types = set()
        self.sorted_names = set()
        self.ints = set()
        for t in terms:
            strs |= strings_in(t)
            for x in ops_in(t, ('isinstance',)):
                self.types.add(x.args[1])
            for x in ops_in(t, ('searchsorted',)):
                a = x.args[0]
                if a.op == 'typed':
                    self.sorted_names.add(a.args[1])
        self.strs = sorted(strs)[:40] + ['?a', '?b']
        self.types = sorted(str(x) for x in self.types) + ['?none']
        self.mode = self.h('mode') % 3
        # where a summary contains a tolerance, some interpretations take values that differ by less
        self.tiny = None
        small = [abs(x.args[0]) for t in terms for x in ops_in(t, ('num',)) if 0 < abs(x.args[0]) < Fraction(1, 100)]
        small += [abs(c) for t in terms for x in ops_in(t, ('poly',)) for c in tm.to_poly(x).values() if 0 < abs(c) < Fraction(1, 100)]
        if small and self.h('tiny') % 2:
            self.tiny = min(small)
            self.mode = 0
        self.busy = set()
        self.equations = {}
        for t in terms:
            for e in sorted(ops_in(t, ('eq0',)), key=tm.key):
                self.solve(e.args[0])
            for e in sorted(ops_in(t, ('lt0',)), key=tm.key):
                for k in (0, 1, 2, -1):
                    self.solve(tm.add(e.args[0], tm.num(k)))
        self.hints = {}
        for t in terms:
            for e in sorted(ops_in(t, ('eq0', 'lt0')), key=tm.key):
                self.threshold(e.args[0])
        # most interpretations lean towards one size and towards one truth value
        self.size = (None, None, 1, 1, 0)[self.h('size') % 5]
        self.big = self.h('big') % 6 == 0
        self.lean = (None, None, True, True, False)[self.h('lean') % 5]

    def threshold(self, p):
        """Note the sizes around which a comparison of one size with a number changes."""
        if p.op != 'poly':
            return
        p = tm.to_poly(p)
        c = p.pop((), 0)
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and m[0][0].args[1] in ('nat', 'pos'):
                v = floor(-c / k)
                if 2 <= v <= 9:
                    self.hints.setdefault(m[0][0], set()).update((v - 1, v, v + 1))

    def solve(self, p):
        """Note the sizes that an equation p == 0 determines."""
        if tm.fv(p):
            return
        p = tm.to_poly(p)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'sym' and m[0][0].args[1] in ('nat', 'pos'):
                s = m[0][0]
                rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
                if not any(a is s for mm in rest for a, e in mm) and tm.from_poly(rest) not in self.equations.get(s, ()):
                    self.equations.setdefault(s, []).append(tm.from_poly(rest))

    # ---------------------------------------------------------- hashing
    def h(self, *k):
        return int.from_bytes(hashlib.blake2b((self.seed + repr(k)).encode(), digest_size=8).digest(), 'big')

    def rat(self, *k):
        x = self.h('rat', *k)
        if self.mode == 0 or (self.mode == 1 and x % 3 == 0):
            v = POOL[(x // 7) % len(POOL)]
            return v if self.tiny is None else v + self.tiny * ((x // 13) % 3 - 1) / 2
        return Fraction((x // 11) % 199 - 99, 1 + (x // 5003) % 7)

    def integer(self, lo, *k):
        x = self.h('int', *k)
        if self.size is not None and lo <= self.size and (x // 3) % 8:
            return self.size
        return lo + x % (6 if self.big else 3)

    def boolean(self, *k):
        x = self.h('bool', *k)
        if self.lean is not None and (x // 2) % 8:
            return self.lean
        return bool(x % 2)

    def tok(self, *k):
        return ('tok',) + k

    # ---------------------------------------------------------- values
    def num(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, Fraction):
            return v
        if isinstance(v, tuple) and v and v[0] == 'A' and len(v[3]) == 1:
            return self.num(v[3][0])
        return self.rat('numof', v)

    def int(self, v):
        v = self.num(v)
        if v.denominator != 1:
            raise Undefined('integer')
        return int(v)

    def kind(self, v):
        if v is None:
            return 'NoneType'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, (Fraction, bool)):
            return 'int'
        if isinstance(v, tuple) and v and v[0] in ('L', 'T', 'D', 'S'):
            return {'L': 'list', 'T': 'tuple', 'D': 'dict', 'S': 'set'}[v[0]]
        if isinstance(v, tuple) and v and v[0] == 'A':
            return 'array'
        return self.types[self.h('kind', v) % len(self.types)]

    def seq(self, v):
        if isinstance(v, tuple) and v and v[0] in ('L', 'T', 'S'):
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'D':
            return tuple(k for k, x in v[1])
        if isinstance(v, tuple) and v and v[0] == 'A':
            sh = v[2]
            if len(sh) == 1:
                return v[3]
            n = 1
            for s in sh[1:]:
                n *= s
            return tuple(('A', v[1], sh[1:], v[3][i * n:(i + 1) * n]) for i in range(sh[0]))
        n = self.integer(0, 'len', v)
        return tuple(self.opq('item', v, Fraction(i)) for i in range(n))

    def opq(self, *k):
        """value of an uninterpreted application: mostly a token, sometimes a constant of the pool"""
        x = self.h('opq', *k)
        if self.mode and x % 4 == 0:
            return self.strs[(x // 16) % len(self.strs)]
        return self.tok(*k)

    # ---------------------------------------------------------- evaluation
    def ev(self, t, env):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.ev(x, env) for x in t)
            return t
        closed = not tm.fv(t)
        if closed:
            if t in self.memo:
                return self.memo[t]
        self.steps += 1
        if self.steps > 400000:
            raise TooBig()
        r = self.ev_(t, env)
        if closed:
            self.memo[t] = r
        return r

    def ev_(self, t, env):
        o = t.op
        m = getattr(self, 'o_' + o, None)
        if m is not None:
            return m(t, env)
        args = tuple(self.ev_lam(a, env) if isinstance(a, T) and a.op == 'lam' else self.ev(a, env) for a in t.args)
        if o in tm.BOOL_OPS:
            return self.boolean(o, args)
        if tm.is_int(t):
            return Fraction(self.integer(0, o, args))
        if tm.is_numeric(t):
            return self.rat(o, args)
        return self.opq(o, args)

    def ev_lam(self, l, env):
        bvs, body = l.args
        out = []
        for k in range(3):
            e = dict(env)
            for b in bvs:
                if b.args[1] == 'idx':
                    n = self.int(self.ev(b.args[2], env)) if b.args[2] is not None else 3
                    if n <= k:
                        break
                    e[b] = Fraction(k)
                elif b.args[1] == 'real':
                    e[b] = Fraction(3 * k + 1, 2)
                else:
                    e[b] = self.tok('bv', k)
            else:
                out.append(self.ev(body, e))
        return ('lam', tuple(out))

    def app(self, l, vals, env):
        bvs, body = l.args
        e = dict(env)
        for b, v in zip(bvs, vals):
            e[b] = v
        return self.ev(body, e)

    def rng(self, n, env):
        k = self.int(self.ev(n, env))
        if k > 30:
            raise TooBig()
        return [Fraction(i) for i in range(max(k, 0))]

    # leaves
    def o_num(self, t, env):
        return t.args[0]

    def o_str(self, t, env):
        return t.args[0]

    def o_bool(self, t, env):
        return t.args[0]

    def o_none(self, t, env):
        return None

    def o_const(self, t, env):
        if t.args[0] in ('inf', 'nan'):
            return self.tok('const', t.args[0])
        return self.rat('const', t.args[0])

    def o_bv(self, t, env):
        if t in env:
            return env[t]
        return self.tok('freebv', t.args[0])

    def o_lam(self, t, env):
        return self.ev_lam(t, env)

    def chosen(self, t, lo, env):
        """A size: one of the values that make an equation of the terms true, or any."""
        opts = self.equations.get(t)
        x = self.h('eq', t.args)
        if t in self.hints and x % 5 < 2:
            v = sorted(self.hints[t])
            return Fraction(max(lo, v[(x // 64) % len(v)]))
        if opts and t not in self.busy and x % 8:
            self.busy.add(t)
            try:
                v = self.num(self.ev(opts[(x // 8) % len(opts)], env))
                if t in self.memo:
                    return self.memo[t]     # the equation led back here
                if v.denominator == 1 and lo <= v <= 12:
                    return v
            except (Undefined, ZeroDivisionError):
                pass
            finally:
                self.busy.discard(t)
        return Fraction(self.integer(lo, 'sym', t.args[0]))

    def o_sym(self, t, env):
        name, ty = t.args
        if ty in ('pos', 'nat'):
            return self.chosen(t, 1 if ty == 'pos' else 0, env)
        if ty == 'int':
            return Fraction(self.h('sym', name) % 9 - 4)
        if ty == 'num':
            return self.rat('sym', name)
        if ty == 'str':
            return self.strs[self.h('sym', name) % len(self.strs)]
        return self.opq('sym', name)

    # arithmetic
    def o_poly(self, t, env):
        acc = Fraction(0)
        for mono, c in t.args[0]:
            x = c
            bad = None
            for a, e in mono:
                try:
                    v = self.num(self.ev(a, env))
                except OutOfRange as err:
                    bad = err
                    continue
                if e < 0 and v == 0:
                    raise Undefined('division')
                x = x * v ** e
            if bad is not None and x != 0:
                raise bad
            acc += x
        return acc

    def o_pow(self, t, env):
        b = self.num(self.ev(t.args[0], env))
        e = self.num(self.ev(t.args[1], env))
        if e.denominator != 1 or abs(e) > 40:
            return self.rat('pow', b, e)
        if b == 0 and e < 0:
            raise Undefined('division')
        return Fraction(b ** int(e))

    def o_div(self, t, env):
        a, b = self.num(self.ev(t.args[0], env)), self.num(self.ev(t.args[1], env))
        if b == 0:
            raise Undefined('division')
        return Fraction(floor(a / b))

    def o_mod(self, t, env):
        a, b = self.num(self.ev(t.args[0], env)), self.num(self.ev(t.args[1], env))
        if b == 0:
            raise Undefined('division')
        return a - b * floor(a / b)

    def o_minmax(self, t, env):
        xs = [self.num(self.ev(x, env)) for x in t.args[1]]
        return max(xs) if t.args[0] == 'max' else min(xs)

    def o_sum(self, t, env):
        return sum((self.num(self.app(t.args[1], (i,), env)) for i in self.rng(t.args[0], env)), Fraction(0))

    def o_prod(self, t, env):
        r = Fraction(1)
        for i in self.rng(t.args[0], env):
            r *= self.num(self.app(t.args[1], (i,), env))
        return r

    def o_any(self, t, env):
        return any(self.truth(self.app(t.args[1], (i,), env)) for i in self.rng(t.args[0], env))

    def o_fun1(self, t, env):
        if t.args[0] in tm.STEPS:
            return Fraction(tm.STEPS[t.args[0]](self.num(self.ev(t.args[1], env))))
        return self.rat('fun1', t.args[0], self.num(self.ev(t.args[1], env)))

    def poly_of(self, l, env):
        """coefficients (lowest first) of a polynomial function"""
        n = 9
        xs = [Fraction(i) for i in range(n)]
        ys = [self.num(self.app(l, (x,), env)) for x in xs]
        # Newton interpolation
        c = list(ys)
        for j in range(1, n):
            for i in range(n - 1, j - 1, -1):
                c[i] = (c[i] - c[i - 1]) / (xs[i] - xs[i - j])
        p = [Fraction(0)]
        for i in range(n - 1, -1, -1):
            q = [Fraction(0)] + p
            for k in range(len(p)):
                q[k] -= xs[i] * p[k]
            q[0] += c[i]
            p = q
        while len(p) > 1 and p[-1] == 0:
            p.pop()
        return p

    def o_integral(self, t, env):
        p = self.poly_of(t.args[0], env)
        x = self.num(self.ev(t.args[1], env))
        return sum(c / (k + 1) * x ** (k + 1) for k, c in enumerate(p))

    def o_deriv(self, t, env):
        p = self.poly_of(t.args[0], env)
        x = self.num(self.ev(t.args[1], env))
        return sum((k * c * x ** (k - 1) for k, c in enumerate(p) if k), Fraction(0))

    def o_papp(self, t, env):
        p = self.ev(t.args[0], env)
        x = self.num(self.ev(t.args[1], env))
        return sum(self.rat('papp', p, k) * x ** k for k in range(3))

    def o_poly1d(self, t, env):
        return ('P', tuple(self.poly_of(t.args[0], env)))

    def o_ncoef(self, t, env):
        return Fraction(len(self.ev(t.args[0], env)[1]))

    # conditions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Fraction):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple) and v and v[0] in ('L', 'T', 'D', 'S'):
            return bool(v[1])
        return self.boolean('truthy', v)

    def o_ite(self, t, env):
        try:
            c = self.truth(self.ev(t.args[0], env))
        except OutOfRange:
            # conjunctions are not ordered in normal form: no matter if both outcomes are the same
            x, y = self.ev(t.args[1], env), self.ev(t.args[2], env)
            if x != y:
                raise
            return x
        return self.ev(t.args[1] if c else t.args[2], env)

    def o_eq0(self, t, env):
        return self.num(self.ev(t.args[0], env)) == 0

    def o_lt0(self, t, env):
        return self.num(self.ev(t.args[0], env)) < 0

    def o_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return a == b

    def o_not(self, t, env):
        return not self.truth(self.ev(t.args[0], env))

    def o_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b is None and isinstance(a, tuple) and a[:1] == ('tok',):
            return self.kind(a) == 'NoneType' or ('NoneType' not in self.types and self.h('isnone', a) % 3 == 0)
        return a == b

    def o_truthy(self, t, env):
        return self.truth(self.ev(t.args[0], env))

    def o_isinstance(self, t, env):
        k = self.kind(self.ev(t.args[0], env))
        return tm.type_implies(k, t.args[1])

    def o_in(self, t, env):
        x, c = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(c, tuple) and c and c[0] in ('L', 'T', 'S', 'D'):
            return x in self.seq(c)
        return self.boolean('in', x, c)

    def o_subset(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return set(self.seq(a)) <= set(self.seq(b))

    def o_isdisjoint(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return not (set(self.seq(a)) & set(self.seq(b)))

    # sequences
    def o_list(self, t, env):
        return ('L', tuple(self.ev(x, env) for x in t.args[0]))

    def o_tuple(self, t, env):
        return ('T', tuple(self.ev(x, env) for x in t.args))

    def o_tupleof(self, t, env):
        return ('T', tuple(self.seq(self.ev(t.args[0], env))))

    def o_seq(self, t, env):
        return ('L', tuple(self.app(t.args[1], (i,), env) for i in self.rng(t.args[0], env)))

    def o_filt(self, t, env):
        return ('L', tuple(self.app(t.args[2], (i,), env) for i in self.rng(t.args[0], env)
                           if self.truth(self.app(t.args[1], (i,), env))))

    def o_lcat(self, t, env):
        out = ()
        for p in t.args[0]:
            out += tuple(self.seq(self.ev(p, env)))
        return ('L', out)

    def o_flatmap(self, t, env):
        out = ()
        for i in self.rng(t.args[0], env):
            out += tuple(self.seq(self.app(t.args[1], (i,), env)))
        return ('L', out)

    def o_first(self, t, env):
        for i in self.rng(t.args[0], env):
            if self.truth(self.app(t.args[1], (i,), env)):
                return self.app(t.args[2], (i,), env)
        raise Undefined('first')

    def o_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            return Fraction(len(v))
        if isinstance(v, tuple) and v and v[0] == 'A':
            return Fraction(v[2][0])
        return Fraction(len(self.seq(v)))

    def o_item(self, t, env):
        v, i = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(v, tuple) and v and v[0] == 'D':
            for k, x in v[1]:
                if k == i:
                    return x
            raise Undefined('key')
        if isinstance(i, Fraction) and i.denominator == 1 and isinstance(v, tuple) and v and v[0] in ('L', 'T'):
            s = v[1]
            k = int(i)
            if not -len(s) <= k < len(s):
                raise OutOfRange(t.args[1])
            return s[k]
        return self.opq('item', v, i)

    def o_set(self, t, env):
        return ('S', tuple(sorted({self.ev(x, env) for x in t.args[0]}, key=repr)))

    def o_setof(self, t, env):
        return ('S', tuple(sorted(set(self.seq(self.ev(t.args[0], env))), key=repr)))

    def o_setop(self, t, env):
        a, b = (set(self.seq(self.ev(x, env))) for x in t.args[1:])
        r = {'|': a | b, '&': a & b, '-': a - b, '^': a ^ b}[t.args[0]]
        return ('S', tuple(sorted(r, key=repr)))

    # dictionaries: insertion ordered
    def mkdict(self, pairs):
        d = {}
        for k, v in pairs:
            d[k] = v
        return ('D', tuple(d.items()))

    def o_dict(self, t, env):
        return self.mkdict([(self.ev(k, env), self.ev(v, env)) for k, v in t.args[0]])

    def pairs(self, v):
        if isinstance(v, tuple) and v and v[0] == 'D':
            return list(v[1])
        return [(k, self.opq('item', v, k)) for k in self.seq(v)]

    def o_dictof(self, t, env):
        out = []
        for p in self.seq(self.ev(t.args[0], env)):
            q = self.seq(p)
            if len(q) != 2:
                raise Undefined('pair')
            out.append((q[0], q[1]))
        return self.mkdict(out)

    def o_dstore(self, t, env):
        d, k, v = (self.ev(x, env) for x in t.args)
        return self.mkdict(self.pairs(d) + [(k, v)])

    def o_dupdate(self, t, env):
        a, b = (self.ev(x, env) for x in t.args)
        return self.mkdict(self.pairs(a) + self.pairs(b))

    def o_dkey(self, t, env):
        d, i = self.ev(t.args[0], env), self.int(self.ev(t.args[1], env))
        s = self.seq(d)
        if not 0 <= i < len(s):
            raise Undefined('key index')
        return s[i]

    # strings
    def o_fmt(self, t, env):
        out = ''
        for p in t.args[0]:
            out += p if isinstance(p, str) else self.text(self.ev(p, env))
        return out

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction) and v.denominator == 1:
            return str(int(v))
        return repr(v)

    def o_tostr(self, t, env):
        return self.text(self.ev(t.args[0], env))

    # arrays
    def o_arr(self, t, env):
        lib_, shape, l = t.args
        sh = tuple(self.int(self.ev(s, env)) for s in shape)
        n = 1
        for s in sh:
            n *= max(s, 0)
        if n > 200:
            raise TooBig()
        out = []

        def go(idx):
            if len(idx) == len(sh):
                out.append(self.app(l, idx, env))
                return
            for k in range(sh[len(idx)]):
                go(idx + (Fraction(k),))
        go(())
        return ('A', lib_, sh, tuple(out))

    def o_typed(self, t, env):
        lib_, name, shape = t.args
        sh = tuple(self.int(self.ev(s, env)) for s in shape)
        if isinstance(name, T) and name.op == 'coefs':
            p = self.ev(name.args[0], env)
            return ('A', lib_[:2], sh, tuple(reversed(p[1])))
        nm = self.ev(name, env)
        out = []

        def go(idx):
            if len(idx) == len(sh):
                out.append(self.rat('elem', nm, idx))
                return
            for k in range(sh[len(idx)]):
                go(idx + (k,))
        go(())
        if name in self.sorted_names:
            out.sort()
        return ('A', lib_[:2], sh, tuple(out))

    def o_mxsym(self, t, env):
        sh = tuple(self.int(self.ev(s, env)) for s in t.args[2])
        nm = self.ev(t.args[0], env)
        n = 1
        for s in sh:
            n *= s
        return ('A', 'cs', sh, tuple(self.rat('mx', nm, i) for i in range(n)))

    def o_mxnew(self, t, env):
        return self.o_mxsym(t, env)

    def o_elem(self, t, env):
        a = self.ev(t.args[0], env)
        idx = tuple(self.int(self.ev(i, env)) for i in t.args[1])
        if isinstance(a, tuple) and a and a[0] == 'A':
            k = 0
            if len(idx) != len(a[2]):
                raise Undefined('index')
            for i, n in zip(idx, a[2]):
                if not -n <= i < n:
                    raise OutOfRange(*t.args[1])
                k = k * n + (i % n)
            return a[3][k]
        if isinstance(a, tuple) and a and a[0] in ('L', 'T'):
            for i in idx:
                s = self.seq(a)
                if not -len(s) <= i < len(s):
                    raise OutOfRange(*t.args[1])
                a = s[i]
            return a
        return self.rat('elem', a, idx)

    def o_dim(self, t, env):
        a = self.ev(t.args[0], env)
        k = t.args[1] if not isinstance(t.args[1], T) else self.int(self.ev(t.args[1], env))
        if isinstance(a, tuple) and a and a[0] == 'A':
            return Fraction(a[2][int(k)])
        return Fraction(self.integer(0, 'dim', a, int(k)))

    def o_searchsorted(self, t, env):
        a, x, s = self.ev(t.args[0], env), self.num(self.ev(t.args[1], env)), self.ev(t.args[2], env)
        xs = [self.num(y) for y in self.seq(a)]
        if xs != sorted(xs):
            raise Undefined('unsorted')
        return Fraction(sum(1 for y in xs if (y <= x if s == 'right' else y < x)))

    def o_ordstat(self, t, env):
        xs = sorted(self.num(y) for y in self.seq(self.ev(t.args[0], env)))
        k = self.int(self.ev(t.args[1], env))
        if not 0 <= k < len(xs):
            raise Undefined('index')
        return xs[k]

    def o_ucount(self, t, env):
        return Fraction(len({self.num(y) for y in self.seq(self.ev(t.args[0], env))}))

    def o_ustat(self, t, env):
        xs = sorted({self.num(y) for y in self.seq(self.ev(t.args[0], env))})
        k = self.int(self.ev(t.args[1], env))
        if not 0 <= k < len(xs):
            raise Undefined('index')
        return xs[k]

    def o_filt1(self, t, env):
        v = tuple(self.app(t.args[2], (i,), env) for i in self.rng(t.args[0], env)
                  if self.truth(self.app(t.args[1], (i,), env)))
        return ('A', 'np', (len(v),), v)

    def o_bag(self, t, env):
        """Set of equations (or unknowns): order and sign do not matter."""
        out = []
        for x in t.args[0]:
            v = self.ev(x, env)
            if isinstance(v, tuple) and v and v[0] == 'A':
                w = tuple(-y if isinstance(y, Fraction) else y for y in v[3])
                v = min(v, v[:3] + (w,), key=repr)
            out.append(v)
        return ('bag', tuple(sorted(out, key=repr)))

    def o_RAISE(self, t, env):
        return self.tok('RAISE', t.args[0])


PAST = 'index out of range'


def norm_value(v):
    """Values compared up to array library of 1x1/scalars is not needed: arrays are compared as they are."""
    return v


def distinguish(a, b, guard=TRUE, seed=0, samples=60, ranges=None):
    """-> None if no random interpretation tells a and b apart, else (seed, value of a, value of b).

    Unless ranges is None, a also differs from b where it reads past the end of an array and b is defined (in several
    interpretations; reads of branches not taken, of terms with a zero factor and at indices that depend on one of the
    names in ranges are left out).
    """
    defined = 0
    past = []
    for k in range(samples):
        i = Interp('%s/%d' % (seed, k), (a, b, guard))
        unclear = False
        try:
            if guard is not TRUE and not i.truth(i.ev(guard, {})):
                continue
        except OutOfRange as e:
            unclear = True
            if ranges is None or e.of(ranges):
                continue
        except (Undefined, TooBig, ZeroDivisionError):
            continue
        try:
            va = i.ev(a, {})
        except OutOfRange as e:
            if ranges is None or e.of(ranges):
                continue
            va = PAST
        except (Undefined, TooBig, ZeroDivisionError):
            continue
        try:
            vb = i.ev(b, {})
        except (Undefined, TooBig, ZeroDivisionError):
            continue
        defined += 1
        if va is PAST:
            past.append((k, va, vb, defined))
            if len(past) == 3:
                return past[0]
        elif va != vb and not unclear:
            return k, va, vb, defined
    return None if defined else ()
