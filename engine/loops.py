"""Summaries of loops over symbolic ranges: recurrence recognition on the values carried around the loop."""
import ast

from terms import *
import terms as tm
import arrays as ar
from arrays import is_arr, as_arr, elem, mk
import seqs
from vflow import OID, toks


def mentions(t, syms):
    """Does t contain any of the given state symbols?"""
    if not syms:
        return False
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x in syms:
            return True
        stack.extend(tm._walk_args(x.args))
    return False


def after_round(base, oid, end, breaks, b):
    """Shared places at the start of any round: those before the loop, and possibly those left by a previous round."""
    out = dict(oid)
    for st in ([end] if end is not None else []) + [x.st for x in breaks]:
        o = st.heap.get(OID)
        live = {p: t for p, t in (o[1].items() if o is not None else ()) if p[1] in base.heap and not (isinstance(p[2], T) and b in fv(p[2]))}
        count = {}
        for t in live.values():
            for x in toks(t):
                count[x] = count.get(x, 0) + 1
        for p, t in live.items():
            if out.get(p) != t and any(count[x] > 1 for x in toks(t)):
                # objects of different rounds
                known = {x for y in oid.values() for x in toks(y)}
                ts = (toks(out.get(p)) | toks(t)) & known
                out[p] = ('amb', ts | frozenset([('round', id(base))]))
    return out


def token_of(oid, st, c):
    o = st.heap.get(c[0])
    t = oid.get(('a' if o is not None and o[0] == 'inst' else 'v', c[0], c[1]))
    return t if not isinstance(t, tuple) else None


class Carried(object):
    """A cell carried around the loop: its value before the loop and the symbol standing for it in the body."""

    def __init__(self, flow, cell, v0, v1=None, b=None):
        self.cell = cell
        self.v0 = v0
        self.last = None
        nm = '$c%d' % next(flow.uid)
        self.name = nm
        if v0 is None or v0.op in ('undef', 'none'):
            self.kind = 'fresh'
            self.sym = sym(nm, 'opaque')
            self.val = self.sym
        elif v0.op == 'poly1d':
            self.kind = 'poly'
            self.sym = sym(nm, 'polyfun')
            x = fresh_bv(None, 'real')
            self.val = raw('poly1d', lam((x,), raw('papp', self.sym, x)))
        elif cell[1] is None and v1 is not None and v0.op == 'seq' and v1.op == 'seq' and v1.args[0] is v0.args[0]:
            # elements replaced, one per round: at the start of round b those from b on are still the old ones
            self.kind = 'elements'
            self.sym = sym(nm, 'opaque')
            k = fresh_bv(v0.args[0])
            self.val = raw('seq', v0.args[0], lam((k,), ite(tm.lt(k, b), raw('element', self.sym, k), seqs.item(v0, k))))
        elif cell[1] is None and (seqs.is_seq(v0) or v0.op == 'list'):
            self.kind = 'list'
            self.sym = raw('carry', nm)
            self.val = self.sym
            l0 = self.last_of(v0)
            if l0 is not None:
                self.last = self.like(nm + 'L', l0)
                self.last0 = l0
                self.val = seqs.lcat(self.sym, seqs.mk_list([self.last]))
        elif cell[1] is None:
            self.kind = 'dict'
            self.sym = raw('carryd', nm)
            self.val = self.sym
        elif is_arr(v0):
            self.kind = 'arr'
            a = as_arr(v0) if v0.op != 'ite' else None
            if a is None:
                self.kind = 'other'
                self.sym = sym(nm, 'opaque')
            else:
                self.sym = raw('typed', ar.type_of(a), nm, a.args[1])
            self.val = self.sym
        elif is_numeric(v0):
            self.kind = 'num'
            self.sym = sym(nm, 'int' if is_int(v0) else 'num')
            self.val = self.sym
        elif is_boolish(v0):
            self.kind = 'bool'
            self.sym = raw('truthy', sym(nm, 'opaque'))
            self.val = self.sym
        else:
            self.kind = 'other'
            self.sym = sym(nm, 'opaque')
            self.val = self.sym

    @staticmethod
    def last_of(v0):
        if v0.op == 'list' and v0.args[0]:
            return v0.args[0][-1]
        if v0.op == 'lcat' and v0.args[0][-1].op == 'list':
            return v0.args[0][-1].args[0][-1]
        return None

    @staticmethod
    def like(nm, v):
        if is_arr(v) and v.op != 'ite':
            a = as_arr(v)
            return raw('typed', ar.type_of(a), nm, a.args[1])
        if is_numeric(v):
            return sym(nm, 'int' if is_int(v) else 'num')
        return sym(nm, 'opaque')

    def syms(self):
        return {self.sym} | ({self.last} if self.last is not None else set())


def summarise(flow, s, dom, it):
    n, l = seqs.symbolic(dom)
    (b,), item = l.args
    guard = flow.dom_cond(dom, b)
    base = flow.st
    fr = flow.frames[-1][0]
    carried = {}
    mark = None
    oid0 = oid = flow.oids()
    for _ in range(12):
        mark = next(flow.addr)
        st = base.copy()
        st.alive = TRUE
        st.heap[OID] = ('oid', oid)
        for c, cr in carried.items():
            flow.set_cell(st, c, cr.val)
        pre = st.copy()
        flow.st = st
        flow.sinks.append([])
        exits = []
        if guard is not None:
            g = flow.st.copy()
            g.alive = guard
            flow.st = g
        flow.assign(s.target, item)
        flow.link_item(s.target, item, it, b)
        end, exits = flow.block(s.body, flow.st)
        conts = [e for e in exits if e.kind == 'continue']
        for e in conts:
            end = e.st if end is None else flow.merge(e.st.alive, e.st, end)
        if guard is not None:
            skip = pre.copy()
            skip.alive = not_(guard)
            end = skip if end is None else flow.merge(guard, end, skip)
        sink = flow.sinks.pop()
        breaks = [e for e in exits if e.kind == 'break']
        rets = [e for e in exits if e.kind == 'return']
        changed = set()
        for x in ([end] if end is not None else []) + [e.st for e in breaks + rets]:
            changed |= set(flow.changed_cells(pre, x))
        new = [c for c in changed if c not in carried]
        more = after_round(base, oid, end, breaks, b)
        if not new and more == oid:
            break
        oid = more
        for c in sorted(new, key=lambda c: (c[0].args[0] if isinstance(c[0], T) else 0, str(c[1]))):
            same = [k for k in carried if flow.get_cell(base, k) is flow.get_cell(base, c) and token_of(oid, base, k) is not None
                    and token_of(oid, base, k) == token_of(oid, base, c)]
            # one object under two names is carried once
            carried[c] = carried[same[0]] if same else \
                Carried(flow, c, flow.get_cell(base, c), flow.get_cell(end, c) if end is not None else None, b)
    else:
        flow.unk('loop does not stabilise')
        flow.st = base
        flow.havoc_assigned(s)
        return []

    ev = end.ev[len(base.ev):] if end is not None else ()
    allsyms = set()
    for cr in carried.values():
        allsyms |= cr.syms()

    # new value of every carried cell at the end of one iteration
    flow.st = end if end is not None else pre
    newv = {}
    for c, cr in carried.items():
        v = flow.get_cell(end, c) if end is not None else None
        newv[c] = flow.reify(v, mark) if v is not None else None
    targets = target_names(s.target)

    closed = {}     # state symbol -> value at the start of iteration b
    final = {}      # cell -> value after the loop
    flow.st = base.copy()
    pending = [c for c in carried]
    progress = True
    while pending and progress:
        progress = False
        for c in list(pending):
            cr = carried[c]
            v = newv[c]
            if v is None:
                r = None
            else:
                v = subst(v, closed)
                others = allsyms - cr.syms() - set(closed)
                if mentions(v, others):
                    continue
                r = classify(flow, cr, v, n, b)
            if r is None:
                continue
            fin, at = r
            final[c] = fin
            for k, x in at.items():
                closed[k] = x
            pending.remove(c)
            progress = True
    for c in pending:
        final[c] = flow.unk('value carried around the loop is not a recognised recurrence: %s' % (c[1],))
        cr = carried[c]
        for y in cr.syms():
            closed[y] = final[c]

    def close(t):
        return subst(t, closed)

    flow.st = base
    out = []
    # raises
    for x in sink:
        cnd = close(x.st.alive)
        cnd = tm.any_(n, lam((b,), cnd))
        if cnd.op == 'unknown':
            flow.note('raise condition in loop not summarised')
            continue
        sv, flow.loc = flow.loc, x.loc or flow.loc
        flow.raise_(cnd, x.val)
        flow.loc = sv
    if ev:
        flow.lift_events([(close(cc), close(e), l_) for cc, e, l_ in ev], n, b)
    # returns: the first iteration whose condition holds
    for x in rets:
        cnd = close(x.st.alive)
        val = close(flow.reify_in(x.st, x.val, mark))
        anyc = tm.any_(n, lam((b,), cnd))
        if anyc.op == 'unknown':
            val = anyc
            out.append(exit_(flow, 'return', TRUE, val))
            continue
        if b in fv(val):
            val = raw('first', n, lam((b,), cnd), lam((b,), val)) if len(rets) == 1 else flow.unk('several returns in loop')
        out.append(exit_(flow, 'return', anyc, val))
        flow.st.alive = and_(flow.st.alive, not_(anyc))
    if breaks:
        cnd = FALSE
        for x in breaks:
            cnd = or_(cnd, close(x.st.alive))
        stable = end is None or not [c for c in flow.changed_cells(pre, end)
                                     if not (c[0] is fr and c[1] in targets)]
        if stable and cnd.op != 'unknown':
            anyc = tm.any_(n, lam((b,), cnd))
            for c, cr in carried.items():
                vals = [(x.st.alive, flow.get_cell(x.st, c)) for x in breaks]
                v = vals[-1][1]
                for cc, vv in vals[:-1]:
                    v = ite(cc, vv, v)
                v = flow.reify_in(breaks[0].st, v, mark) if v is not None else cr.val
                if mentions(v, cr.syms()):
                    v = subst(v, {y: cr.v0 for y in cr.syms()}) if cr.v0 is not None and v is not cr.val else \
                        (cr.v0 if v is cr.val and cr.v0 is not None else flow.unk('break'))
                if mentions(v, allsyms):
                    v = flow.unk('value at break')
                if b in fv(v):
                    v = raw('first', n, lam((b,), cnd), lam((b,), v))
                old = final.get(c)
                if c[0] is fr and c[1] in targets:
                    flow.set_cell(flow.st, c, flow.unk('loop variable after break'))
                    continue
                o = cr.v0 if cr.v0 is not None else flow.unk('unbound')
                flow.set_cell(flow.st, c, ite(anyc, v, o))
            if s.orelse:
                flow.note('for-else with break')
                flow.havoc_assigned(ast.Module(body=s.orelse, type_ignores=[]))
            return out
        for c in carried:
            flow.set_cell(flow.st, c, flow.unk('break with carried values'))
        return out
    for c in carried:
        flow.set_cell(flow.st, c, final[c])
    if s.orelse and flow.st is not None:
        st, ex = flow.block(s.orelse, flow.st)
        flow.st = st
        out += ex
    return out


def exit_(flow, kind, cond, val):
    from vflow import Exit
    st = flow.st.copy()
    st.alive = and_(st.alive, cond)
    return Exit(kind, st, val, flow.loc)


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


# ------------------------------------------------------------------ classification of one carried value
def before(n, b, g, v0, comb):
    """Value at the start of iteration b of  v <- comb(v, g(b)):  combination over k < b."""
    k = fresh_bv(b)
    gk = subst(g, {b: k})
    return comb(v0, k, b, gk)


def _sum_upto(v0, k, m, g):
    return add(v0, sum_range(m, k, g))


def sum_range(m, k, g):
    """sum_{k<m} g; index-independent terms collapse to a multiple."""
    return lift(lambda gg: tm.sum_(m, lam((k,), gg)), g) if g.op != 'ite' else tm.sum_(m, lam((k,), g))


def classify(flow, cr, v, n, b):
    """-> (final value, {state symbol: value at start of iteration b}) or None."""
    own = cr.syms()
    if v.op == 'unknown':
        return v, {y: v for y in own}
    if not mentions(v, own):
        return last_value(flow, cr, v, n, b)
    if cr.kind == 'num':
        return acc_scalar(cr, v, n, b)
    if cr.kind == 'bool':
        return acc_bool(cr, v, n, b)
    if cr.kind == 'poly':
        return acc_poly(flow, cr, v, n, b)
    if cr.kind == 'arr':
        return acc_array(flow, cr, v, n, b)
    if cr.kind == 'elements':
        return acc_elements(cr, v, n, b)
    if cr.kind == 'list':
        return acc_list(flow, cr, v, n, b)
    if cr.kind == 'dict':
        return acc_dict(flow, cr, v, n, b)
    if cr.kind == 'other':
        if v is cr.sym:
            return cr.v0, {cr.sym: cr.v0}
        if v.op == 'ite' and all(x is cr.sym or not mentions(x, own) for x in leaves(v)):
            return None
    return None


def last_value(flow, cr, v, n, b):
    v0 = cr.v0
    nonempty = not_(lift(tm._eq0, n))
    fin = subst(v, {b: sub(n, ONE)}) if b in fv(v) else v
    if nonempty is not TRUE:
        fin = ite(nonempty, fin, v0) if v0 is not None and v0.op != 'undef' else fin
    prev = subst(v, {b: sub(b, ONE)}) if b in fv(v) else v
    if v0 is not None and v0.op != 'undef':
        at = ite(tm.eq(b, ZERO), v0, prev)
    else:
        at = unknown('value of previous iteration')
    return fin, {y: at for y in cr.syms()}


def acc_scalar(cr, v, n, b):
    S = cr.sym
    d = sub(v, S)
    if not mentions(d, {S}):
        k = fresh_bv(b)
        return add(cr.v0, tm.sum_(n, lam((b,), d))), {S: add(cr.v0, tm.sum_(b, lam((k,), subst(d, {b: k}))))}
    q = div(v, S)
    if not mentions(q, {S}):
        k = fresh_bv(b)
        return mul(cr.v0, tm.prod_(n, lam((b,), q))), {S: mul(cr.v0, tm.prod_(b, lam((k,), subst(q, {b: k}))))}
    return None


def acc_bool(cr, v, n, b):
    S = cr.sym
    hi, lo = tm.cof_atom(v, S, True), tm.cof_atom(v, S, False)
    if mentions(hi, {S}) or mentions(lo, {S}):
        return None
    if hi is TRUE:
        k = fresh_bv(b)
        return or_(cr.v0, tm.any_(n, lam((b,), lo))), {S: or_(cr.v0, tm.any_(b, lam((k,), subst(lo, {b: k}))))}
    if lo is FALSE:
        k = fresh_bv(b)
        return and_(cr.v0, not_(tm.any_(n, lam((b,), not_(hi))))), \
            {S: and_(cr.v0, not_(tm.any_(b, lam((k,), subst(not_(hi), {b: k})))))}
    return None


def acc_poly(flow, cr, v, n, b):
    def at(p, x):
        return lift(lambda q: open_lam(q.args[0], (x,)) if q.op == 'poly1d' else unknown('not a polynomial'), p)
    x = fresh_bv(None, 'real')
    S = raw('papp', cr.sym, x)
    body = at(v, x)
    v0 = at(cr.v0, x)
    if body.op == 'unknown':
        return None
    d = sub(body, S)
    if not mentions(d, {cr.sym}):
        return raw('poly1d', lam((x,), add(v0, tm.sum_(n, lam((b,), d))))), \
            {cr.sym: unknown('partial polynomial sum')}
    q = div(body, S)
    if not mentions(q, {cr.sym}):
        return raw('poly1d', lam((x,), mul(v0, tm.prod_(n, lam((b,), q))))), \
            {cr.sym: unknown('partial polynomial product')}
    return None


def acc_array(flow, cr, v, n, b):
    if not is_arr(v):
        return None
    if v.op == 'ite':
        # conditional update of the whole array
        sh = {ar.shape_of(as_arr(x)) for x in leaves(v) if is_arr(x)}
        if len(sh) != 1:
            return None
        shape = sh.pop()
    else:
        shape = as_arr(v).args[1]
    lib = ar.lib_of(leaves(v)[0])
    S = cr.sym
    if tuple(shape) != tuple(ar.shape_of(S)):
        return None
    bvs = [fresh_bv(d) for d in shape]
    idx = tuple(bvs)
    e = lift(lambda a: elem(as_arr(a), idx), v)
    s = elem(S, idx)
    e0 = elem(as_arr(cr.v0), idx)
    d = sub(e, s)
    if not mentions(d, {S}):
        fin = ar.arr(lib, shape, lam(bvs, add(e0, tm.sum_(n, lam((b,), d)))))
        k = fresh_bv(b)
        at = ar.arr(lib, shape, lam(bvs, add(e0, tm.sum_(b, lam((k,), subst(d, {b: k}))))))
        return fin, {S: at}
    # store of a region that identifies the iteration
    ls = leaves(e)
    if not all(x is s or not mentions(x, {S}) for x in ls):
        return None
    conds = tm._conds(e)
    if any(mentions(c, {S}) for c in conds):
        return None
    sol = solve_iteration(e, s, b, n, idx)
    if sol is None:
        return None
    r = subst(subst(e, {s: raw('$keep')}), {b: sol})
    inr = and_(not_(tm.lt(sol, ZERO)), tm.lt(sol, n))
    r = ite(inr, r, raw('$keep'))
    r = subst(r, {raw('$keep'): e0})
    return ar.arr(lib, shape, lam(bvs, r)), {S: unknown('partially stored array')}


def solve_iteration(e, s, b, n, idx):
    """Iteration number that stores to the element idx, from the store condition."""
    for c in tm._conds(e):
        if c.op == 'eq0' and b in fv(c):
            lo = tm.cof_atom(e, c, False)
            x = tm.solve_linear(c.args[0], b)
            if lo is s and x is not None:
                return x
    # block store: W*b <= i < W*b + W
    ats = [c.args[0] for c in tm._conds(e) if c.op == 'lt0' and b in fv(c)]
    for i in idx:
        for p in ats:
            for sign in (1, -1):
                q = mul(num(sign), p)
                w = sub(i, q)          # q = i - w
                ww = to_poly(w)
                cb = {m: c for m, c in ww.items() if any(a is b for a, _ in m)}
                if not cb or i in fv(w) or any(x in fv(w) for x in idx):
                    continue
                W = tm.div(from_poly(cb), b)
                if b in fv(W):
                    continue
                rest = sub(w, mul(W, b))
                if rest is not ZERO and rest is not num(-1):
                    continue
                sol = idiv(i, W)
                # no other iteration may store to the same element
                q_, r_, d_ = fresh_bv(None), fresh_bv(W), sym('$d', 'nat')
                ei = subst(e, {i: add(mul(W, q_), r_)})
                si = subst(s, {i: add(mul(W, q_), r_)})
                after = subst(ei, {b: add(q_, ONE, d_)})
                before_ = subst(ei, {b: sub(sub(q_, ONE), d_)})
                if after is not si or before_ is not si:
                    continue
                return sol
    return None


def acc_elements(cr, v, n, b):
    """v(b) replaces element b of the list and leaves the others."""
    if v.op != 'seq' or v.args[0] is not cr.v0.args[0]:
        return None
    size = v.args[0]
    d = sym('$d', 'nat')
    later = add(b, ONE, d)
    if seqs.item(v, later) is not seqs.item(cr.v0, later):
        return None
    earlier = sub(sub(b, ONE), d)
    if seqs.item(v, earlier) is not subst(raw('element', cr.sym, b), {b: earlier}):
        return None
    x = seqs.item(v, b)
    if mentions(x, cr.syms()):
        return None
    k = fresh_bv(size)

    def upto(m):
        return raw('seq', size, lam((k,), ite(tm.lt(k, m), subst(x, {b: k}), seqs.item(cr.v0, k))))
    return upto(n), {cr.sym: unknown('partly replaced list')}


def acc_list(flow, cr, v, n, b):
    S = cr.sym
    L = cr.last

    def tail(x):
        """appended part as a sequence, None if not an extension of the carried list."""
        if x is cr.val:
            return seqs.mk_list([])
        if x.op != 'lcat' or x.args[0][0] is not S:
            return None
        rest = list(x.args[0][1:])
        if L is not None:
            if rest[0].op != 'list' or rest[0].args[0][0] is not L:
                return None
            rest[0] = seqs.mk_list(list(rest[0].args[0][1:]))
        return seqs.lcat(*rest)
    ls = leaves(v)
    tails = {x: tail(x) for x in ls}
    if any(t is None for t in tails.values()):
        return None
    t = lift(lambda x: tails[x], v)
    if L is not None and mentions(t, {L}):
        # scan on the last element
        if t.op == 'list' and len(t.args[0]) == 1:
            x = t.args[0][0]
            l0 = cr.last0
            if is_arr(x) and x.op != 'ite':
                a = as_arr(x)
                la = as_arr(L)
                if tuple(a.args[1]) != tuple(la.args[1]):
                    return None
                bvs = [fresh_bv(d) for d in a.args[1]]
                d = sub(elem(a, tuple(bvs)), elem(L, tuple(bvs)))
                if mentions(d, {L, S}):
                    return None
                e0 = elem(as_arr(l0), tuple(bvs))

                def upto(m):
                    k = fresh_bv(m)
                    return ar.arr(a.args[0], a.args[1], lam(bvs, add(e0, tm.sum_(m, lam((k,), subst(d, {b: k}))))))
                return seqs.lcat(cr.v0, seqs.mk_seq(n, lam((b,), upto(add(b, ONE))))), \
                    {S: unknown('partial list'), L: upto(b)}
            d = sub(x, L)
            if not mentions(d, {L, S}):
                def up(m):
                    k = fresh_bv(m)
                    return add(l0, tm.sum_(m, lam((k,), subst(d, {b: k}))))
                return seqs.lcat(cr.v0, seqs.mk_seq(n, lam((b,), up(add(b, ONE))))), \
                    {S: unknown('partial list'), L: up(b)}
        return None
    if mentions(t, {S}):
        return None
    app = seqs.flatmap(n, lam((b,), t))
    at = {S: unknown('partial list')}
    if L is not None:
        if t.op == 'list' and t.args[0]:
            lastv = t.args[0][-1]
            prev = subst(lastv, {b: sub(b, ONE)}) if b in fv(lastv) else lastv
            at[L] = ite(tm.eq(b, ZERO), cr.last0, prev)
        else:
            at[L] = unknown('last element')
    return seqs.lcat(cr.v0, app), at


def acc_dict(flow, cr, v, n, b):
    S = cr.sym
    if v.op == 'dstore' and v.args[0] is S and not mentions(v.args[1], {S}) and not mentions(v.args[2], {S}):
        pairs = seqs.mk_seq(n, lam((b,), raw('tuple', v.args[1], v.args[2])))
        d = raw('dictof', pairs)
        if cr.v0.op == 'dict' and not cr.v0.args[0]:
            return d, {S: unknown('partial dict')}
        return raw('dupdate', cr.v0, d), {S: unknown('partial dict')}
    if v.op == 'ite':
        c = v.args[0]
        x, y = v.args[1], v.args[2]
        for keep, upd, cond in ((y, x, c), (x, y, not_(c))):
            if keep is S and upd.op == 'dstore' and upd.args[0] is S and not mentions(upd.args[1], {S}) \
                    and not mentions(upd.args[2], {S}) and not mentions(cond, {S}):
                pairs = seqs.filt(n, lam((b,), cond), lam((b,), raw('tuple', upd.args[1], upd.args[2])))
                d = raw('dictof', pairs)
                if cr.v0.op == 'dict' and not cr.v0.args[0]:
                    return d, {S: unknown('partial dict')}
                return raw('dupdate', cr.v0, d), {S: unknown('partial dict')}
    return None
