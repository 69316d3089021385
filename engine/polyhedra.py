"""Equality of summaries under the linear inequalities that hold on the way to each of their parts.

Two summaries can describe the same function with different case distinctions (a range test split at another place, an
index computed in another way).  Both are walked side by side; the bounds of index variables and the comparisons decided on
the way form a convex polyhedron over the integers.  Parts that differ only where that polyhedron is empty, or by terms that
are equal on all of it, are the same.  Emptiness is decided by Fourier-Motzkin elimination with integer tightening, within a
size limit; giving up counts as not empty.
"""
from fractions import Fraction
from math import gcd
from terms import *
import terms as tm

LIMIT = 220


class TooMany(Exception):
    pass


# ------------------------------------------------------------------ linear constraints: {monomial: coefficient} >= 0
def tighten(p, ints):
    """Scale to coprime integer coefficients; over the integers the constant is rounded down."""
    ks = [Fraction(c) for m, c in p.items() if m != ()]
    if not ks:
        return p
    den = 1
    for c in ks:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in ks:
        g = gcd(g, int(c * den))
    q = {m: Fraction(c) * den / g for m, c in p.items()}
    if ints and () in q:
        q[()] = Fraction(q[()].numerator // q[()].denominator)
        if not q[()]:
            del q[()]
    return q


def empty(cons):
    """Is the set of constraints certainly unsatisfiable over the integers?"""
    work = []
    seen = set()

    def put(p):
        p = tighten(p, True)
        if set(p) <= {()}:
            return p.get((), 0) < 0
        k = frozenset(p.items())
        if k not in seen:
            seen.add(k)
            work.append(p)
        return False
    for p in cons:
        if put(p):
            return True
    while True:
        ms = {}
        for p in work:
            for m, c in p.items():
                if m != ():
                    lo, hi, unit = ms.get(m, (0, 0, True))
                    ms[m] = (lo + (c > 0), hi + (c < 0), unit and abs(c) == 1)
        if not ms:
            return False
        m = min(ms, key=lambda m: (not ms[m][2], ms[m][0] * ms[m][1] - ms[m][0] - ms[m][1], tm._mono_key(m)))
        pos = [p for p in work if p.get(m, 0) > 0]
        neg_ = [p for p in work if p.get(m, 0) < 0]
        work = [p for p in work if m not in p]
        if len(pos) * len(neg_) + len(work) > LIMIT:
            return False
        for p in pos:
            for q in neg_:
                r = {}
                for k, c in p.items():
                    r[k] = r.get(k, 0) + c * -q[m]
                for k, c in q.items():
                    r[k] = r.get(k, 0) + c * p[m]
                r = {k: c for k, c in r.items() if c}
                if put(r):
                    return True


def plus(p, c):
    r = dict(p)
    r[()] = r.get((), 0) + c
    if not r[()]:
        del r[()]
    return r


def negated(p):
    return {m: -c for m, c in p.items()}


def atoms(p):
    return {a for m in p for a, e in m}


def background(ps):
    """What is known of the atoms of the constraints by what they are."""
    out = []
    done = set()
    todo = list(ps)
    while todo:
        p = todo.pop()
        for m in p:
            if m == () or m in done:
                continue
            done.add(m)
            if all(e > 0 and tm._nonneg(a) for a, e in m):
                out.append({m: Fraction(1)})
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                new = []
                if a.op == 'sym' and a.args[1] == 'pos':
                    new.append({m: Fraction(1), (): Fraction(-1)})
                if a.op == 'bv' and a.args[1] == 'idx' and a.args[2] is not None and is_int(a.args[2]):
                    new.append(_sum(to_poly(a.args[2]), {m: Fraction(-1), (): Fraction(-1)}))
                if a.op == 'div' and a.args[1].op == 'num' and a.args[1].args[0] > 0 and is_int(a.args[0]):
                    k = a.args[1].args[0]
                    x = to_poly(a.args[0])
                    new.append(_sum(x, {m: -k}))
                    new.append(_sum(negated(x), {m: k, (): k - 1}))
                if a.op == 'mod' and a.args[1].op == 'num':
                    new.append({m: Fraction(-1), (): a.args[1].args[0] - 1})
                if a.op == 'div' and a.args[1].op != 'num' and tm._nonneg(a.args[0]) and tm._nonneg(sub(a.args[1], ONE)):
                    x = to_poly(a.args[0])
                    d = to_poly(mul(a, a.args[1]))
                    new.append(_sum(x, negated(d)))
                    new.append(_sum(_sum(d, to_poly(sub(a.args[1], ONE))), negated(x)))
                out += new
                todo += new
    return out + products(done, list(ps) + out)


def products(ms, ps):
    """Constraints multiplied by a non-negative factor, where the product of two variables occurs."""
    two = [m for m in ms if len(m) == 2 and all(e == 1 for a, e in m) or len(m) == 1 and m[0][1] == 2]
    out = []
    for m in sorted(two, key=tm._mono_key):
        for x, y in ((m[0][0], m[-1][0]), (m[-1][0], m[0][0])):
            if not tm._nonneg(y):
                continue
            for p in ps:
                if ((x, 1),) in p and all(len(k) <= 1 and all(e == 1 for a, e in k) for k in p) and len(p) <= 4:
                    q = to_poly(mul(from_poly(p), y))
                    if all(k in ms or len(k) <= 1 for k in q):
                        out.append(q)
            if x is y:
                break
    return out[:40]


def _sum(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def linear_int(t):
    """Polynomial of an integer term without case distinctions, or None."""
    if t.op == 'ite' or not is_int(t):
        return None
    p = to_poly(t)
    return p if all(a.op != 'ite' for a in atoms(p)) else None


class Facts(object):
    """Conjunction of constraints; equations are two of them, disequations are kept apart."""

    def __init__(self, cons=(), diseq=()):
        self.cons = list(cons)
        self.diseq = list(diseq)
        self._empty = None

    def with_(self, *ps):
        return Facts(self.cons + list(ps), self.diseq)

    def apart(self, p):
        return Facts(self.cons, self.diseq + [p])

    def is_empty(self, *extra):
        return split_small(self.cons + list(extra), self.diseq)

    @staticmethod
    def _empty_of(cs_, diseq):
        ds = []
        # a disequation next to a bound shrinks the bound
        todo = list(diseq)
        changed = True
        base = cs_ + background(cs_ + todo)
        if empty(base):
            return True
        while changed and todo:
            changed = False
            for d in list(todo):
                if empty(base + [plus(negated(d), -1)]):
                    cs_ = cs_ + [plus(d, -1)]               # d <= -1 impossible -> d >= 1
                elif empty(base + [plus(d, -1)]):
                    cs_ = cs_ + [plus(negated(d), -1)]
                else:
                    continue
                base = cs_ + background(cs_ + todo)
                todo.remove(d)
                changed = True
            if changed and empty(base):
                return True
        return False


def split_small(cons, diseq):
    """Emptiness, one value at a time for an index with few values that occurs in a product."""
    for p in cons + diseq:
        for m in p:
            if len(m) < 2 and not (m and m[0][1] > 1):
                continue
            for a, e in m:
                if a.op == 'bv' and a.args[1] == 'idx' and a.args[2] is not None and a.args[2].op == 'num' and a.args[2].args[0] <= 4:
                    for k in range(int(a.args[2].args[0])):
                        v = {a: num(k)}
                        at = lambda p: to_poly(subst(from_poly(p), v))
                        cs_ = [at(p) if a in atoms(p) else p for p in cons]
                        ds = [at(p) if a in atoms(p) else p for p in diseq]
                        if not split_small(cs_, ds):
                            return False
                    return True
    return Facts._empty_of(cons, diseq)


def condition(v):
    """('lt', p) for p < 0, ('eq', p) for p == 0 over the integers, or None."""
    if v.op == 'eq0':
        p = to_poly(v.args[0])
        den = 1
        for c in p.values():
            den = den * c.denominator // gcd(den, c.denominator)
        t = mul(num(den), v.args[0])
        p = linear_int(t)
        return ('eq', p) if p is not None else None
    if v.op == 'lt0':
        p = linear_int(v.args[0])
        return ('lt', p) if p is not None else None
    return None


def decide(v, facts):
    """True / False if the facts settle the condition, else None."""
    c = condition(v)
    if c is None:
        return None
    kind, p = c
    if kind == 'lt':
        if facts.is_empty(p):
            return True
        if facts.is_empty(plus(negated(p), -1)):
            return False
        return None
    if facts.is_empty(p, negated(p)):
        return False
    if facts.is_empty(plus(p, -1)) and facts.is_empty(plus(negated(p), -1)):
        return True
    return None


def branch(v, facts):
    """Facts of the two branches of a condition."""
    c = condition(v)
    if c is None:
        return facts, facts
    kind, p = c
    if kind == 'lt':
        return facts.with_(plus(negated(p), -1)), facts.with_(p)
    return facts.with_(p, negated(p)), facts.apart(p)


# ------------------------------------------------------------------ comparison
LEAF = ('num', 'str', 'bool', 'none', 'bv', 'sym', 'const', 'ellipsis', 'ref', 'fn', 'cls', 'ext', 'module', 'unknown')


def alike(a, b, budget=1500):
    n = [0]

    def settle(t, facts):
        while t.op == 'ite':
            d = decide(t.args[0], facts)
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
        return t

    def go(a, b, facts):
        if a is b:
            return True
        n[0] += 1
        if n[0] > budget:
            raise TooMany()
        a, b = settle(a, facts), settle(b, facts)
        if a is b:
            return True
        if a.op == 'ite' or b.op == 'ite':
            v = (a if a.op == 'ite' else b).args[0]
            yes, no = branch(v, facts)
            return go(assume(a, v, True), assume(b, v, True), yes) and go(assume(a, v, False), assume(b, v, False), no)
        if is_numeric(a) and is_numeric(b):
            p, q = linear_int(a), linear_int(b)
            if p is not None and q is not None:
                d = _sum(p, negated(q))
                if facts.is_empty(plus(d, -1)) and facts.is_empty(plus(negated(d), -1)):
                    return True
        if parts(a, b, facts):
            return True
        return facts.is_empty()

    def parts(a, b, facts):
        if a.op != b.op or a.op in LEAF or len(a.args) != len(b.args):
            return False
        if a.op == 'lam':
            if len(a.args[0]) != len(b.args[0]):
                return False
            body = b.args[1]
            if a.args[0] != b.args[0]:
                if any(x.args[1] != y.args[1] or not same_range(x, y, facts) for x, y in zip(a.args[0], b.args[0])):
                    return False
                body = subst(body, dict(zip(b.args[0], a.args[0])))
            return go(a.args[1], body, facts)
        if a.op == 'poly':
            if set(m for m, c in a.args[0]) == set(m for m, c in b.args[0]):
                return False
            return products(a, b, facts)
        return all(arg(x, y, facts) for x, y in zip(a.args, b.args))

    def same_range(x, y, facts):
        return x.args[2] is y.args[2] or x.args[2] is not None and y.args[2] is not None and go(x.args[2], y.args[2], facts)

    def products(a, b, facts):
        """Sums of the same shape whose atoms are alike."""
        x, y = list(a.args[0]), list(b.args[0])
        if len(x) != len(y):
            return False
        for m, c in x:
            for k, (m2, c2) in enumerate(y):
                if c == c2 and len(m) == len(m2) and all(e == e2 and go(p, q, facts) for (p, e), (q, e2) in zip(m, m2)):
                    del y[k]
                    break
            else:
                return False
        return True

    def arg(x, y, facts):
        if isinstance(x, T) and isinstance(y, T):
            return go(x, y, facts)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(arg(p, q, facts) for p, q in zip(x, y))
        return x == y
    try:
        return go(a, b, Facts())
    except TooMany:
        return False
