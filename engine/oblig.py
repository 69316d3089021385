"""Obligations: a function summary of the package against an independently written definition.

A spec file is Python source that is only parsed and analysed.  Each definition

    @holds('C14', 'PolynomialBasis(tau).interpolationMatrix(t)')
    def interpolation_matrix(tau: 'np1[n]', t: 'np1[q]'): ...

states that the access expression (analysed in the scope of the package) has the same
summary as the definition.
"""
import ast
import json
import os
import re
import sys
import time

sys.setrecursionlimit(20000)

from terms import *
import terms as tm
import arrays as ar
import seqs
import polyhedra
import lib
import csmodel
import vflow
from vflow import Flow, Undecidable
from project import Project, Module


class Obligation(object):
    def __init__(self, prop, name, expr, node, module, opts):
        self.prop = prop
        self.name = name
        self.expr = expr
        self.node = node
        self.module = module
        self.opts = opts
        self.id = module.name.rpartition('.')[2] + '.' + name

    def indices(self):
        """Names of the parameters that are integers, which nothing keeps within the size of an array."""
        a = self.node.args
        return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs
                if p.annotation is not None and getattr(p.annotation, 'value', None) in ('nat', 'pos', 'int')}


def load_specs(project, spec_dir):
    out = []
    for f in sorted(os.listdir(spec_dir)):
        if not f.endswith('.py'):
            continue
        m = project.add_source('spec.' + f[:-3], os.path.join(spec_dir, f))
        for n in m.tree.body:
            if not isinstance(n, ast.FunctionDef):
                continue
            decs = [d for d in n.decorator_list if isinstance(d, ast.Call) and isinstance(d.func, ast.Name)
                    and d.func.id == 'holds']
            n.decorator_list = [d for d in n.decorator_list if d not in decs]
            for k, d in enumerate(decs):
                props = ast.literal_eval(d.args[0])
                expr = ast.literal_eval(d.args[1])
                opts = {kw.arg: ast.literal_eval(kw.value) for kw in d.keywords}
                nm = n.name if len(decs) == 1 else '%s.%d' % (n.name, k)
                for p in props.split():
                    out.append(Obligation(p, nm, expr, n, m, opts))
    return out


# ------------------------------------------------------------------ parameters
def param_term(name, ann, flow, env):
    """Term for a parameter described by an annotation string."""
    if ann is None:
        return sym(name, 'opaque')
    m = re.match(r'^([^\[]+)(?:\[(.*)\])?$', ann)
    ty, shp = m.group(1), m.group(2)
    if ty == 'poly':
        x = fresh_bv(None, 'real')
        return raw('poly1d', lam((x,), raw('papp', sym(name, 'opaque'), x)))
    if ty in ('DM', 'MX', 'SX'):
        flow.kinds[name] = ty
        ty = 'cs2'
    elif ty == 'mx':
        flow.kinds[name] = 'MX'
    if shp is not None:
        shape = []
        for s in re.split(r',(?![^()]*\))', shp):
            shape.append(dim_expr(ast.parse(s.strip(), mode='eval').body, env))
        shape = tuple(shape)
        if ty.startswith('list:'):
            return typed_list(name, ty[5:], shape)
        if ty == 'mx':
            return raw('mxsym', name, string(name), shape)
        return raw('typed', ty, name, shape)
    return sym(name, ty)


def typed_list(name, ty, shape):
    n = shape[0]
    b = fresh_bv(n)
    if ty in ('np1', 'np2', 'cs2'):
        e = raw('typed', ty, raw('item', sym(name, 'list:' + ty), b), shape[1:])
    else:
        e = raw('item', sym(name, 'list:' + ty), b)
    return mk_seq_(n, b, e)


def mk_seq_(n, b, e):
    return seqs.mk_seq(n, lam((b,), e))


class Sizes(dict):
    """Sizes of one comparison; fixed numbers if a row is given (those of what is at least one, then the others)."""

    def __init__(self, row=None, values=None):
        self.row = row
        self.values = values or {}
        self.fixed = {}
        self.count = {}

    def get_size(self, name, kind):
        if name not in self:
            if self.row is None:
                self[name] = sym(name, kind)
            else:
                r = self.row[kind != 'pos']
                self.fixed[name] = r[self.count.setdefault(kind, 0) % len(r)]
                self.count[kind] += 1
                self[name] = num(self.fixed[name])
        return self[name]

    def show(self):
        return ', '.join(['%s=%s' % (k, pretty(v)) for k, v in sorted(self.values.items())] +
                         ['%s=%d' % x for x in sorted(self.fixed.items())])


ROWS = (((2, 3), (2, 1, 3)), ((5, 2), (1, 2, 2)), ((1, 3), (2, 3, 1)), ((3, 1), (0, 1, 2)), ((4, 4), (3, 2, 0)), ((11, 1), (1, 1, 1)))


def dim_expr(n, env):
    if isinstance(n, ast.Constant):
        return num(n.value)
    if isinstance(n, ast.Name):
        env.get_size(n.id, 'nat' if n.id.islower() else 'pos')
        return env[n.id]
    if isinstance(n, ast.BinOp):
        a, b = dim_expr(n.left, env), dim_expr(n.right, env)
        return {ast.Add: add, ast.Sub: sub, ast.Mult: mul}[type(n.op)](a, b)
    raise ValueError('shape')


# ------------------------------------------------------------------ running one obligation
class Outcome(object):
    pass


class Analysis(object):
    """Project + specs loaded once; one Flow per obligation."""

    def __init__(self, root='/repo', spec_dir=None, data=None):
        self.project = Project(root, 'casadi_extras')
        self.data = data or os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')
        self.casadi = json.load(open(os.path.join(self.data, 'casadi_names.json')))
        self.casadi_names = set(self.casadi['names'])
        self.package_modules = list(self.project.modules)
        self.contract = self.project.add_source('contract.structs', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                                                                                 'contracts', 'structs.py'))
        self.obligations = load_specs(self.project, spec_dir) if spec_dir else []

    def contracts(self, opts):
        """Structures are replaced by their contract everywhere but in the obligations about structures."""
        if opts.get('structures') == 'real':
            return None

        def made(name):
            def f(flow, args, kw):
                g = flow.in_module(self.contract, lambda: flow.global_name(self.contract, name))
                return flow.call(g, args, kw)
            return f

        def entry(flow, b):
            args, kw = flow.content(b.get('args', NONE)), flow.content(b.get('kwargs', NONE))
            a = list(args.args) if args.op == 'tuple' else seqs.concrete(args)
            names = [k.args[0] for k, v in kw.args[0]] if kw.op == 'dict' else None
            if a is None or len(a) != 1 or names not in ([], ['expr']):
                return flow.unk('entry other than entry(name, expr=...)')
            return made('Entry')(flow, [a[0], kw.args[0][0][1]], {}) if names else made('Bare')(flow, [a[0]], {})
        out = {'casadi_extras.structure3.MXVeccatStruct': made('struct_MX'), 'casadi_extras.structure3.entry': entry}
        if opts.get('trajectory') == 'parts':
            out['casadi_extras.collocation.piecewise_poly.PiecewisePoly'] = made('Trajectory')
        if opts.get('tableau') == 'any':
            out['casadi_extras.collocation.butcher.butcherTableuForCollocationPoints'] = \
                lambda flow, b: made('Tableau')(flow, [b['tau']], {})
        return out

    def flow(self, opts):
        fl = Flow(self.project, lib, opaque=opts.get('opaque', ()), contracts=self.contracts(opts),
                  casadi_names=self.casadi_names)
        fl.opts = opts
        fl.boxed = opts.get('structures') == 'real'
        fl.max_steps = opts.get('max_steps', fl.max_steps)
        return fl

    def cases(self, ob, tests):
        """Cases to fall back to: values of names and flags that the code tests, fixed sizes."""
        values = [{}]
        for p in ob.node.args.args:
            ann = p.annotation.value if p.annotation is not None else None
            if ann == 'bool':
                vs = [TRUE, FALSE]
            elif ann == 'str' and tests.get(p.arg):
                vs = [string(x) for x in sorted(tests[p.arg])[:4]] + [string('another ' + p.arg)]
            else:
                continue
            values = [dict(d, **{p.arg: v}) for d in values for v in vs]
        values = values[:12]
        if values != [{}]:
            for d in values:
                yield Sizes(None, d)
        for k, r in enumerate(ROWS):
            env = Sizes(r)
            self.params(ob, self.flow(ob.opts), env)
            if env.fixed:
                for d in values[k % 2::2] or values:
                    e = Sizes(r, d)
                    e.fixed = env.fixed
                    yield e

    def params(self, ob, fl, env):
        params = {}
        for p in ob.node.args.args:
            ann = p.annotation.value if p.annotation is not None else None
            if p.arg in env.values:
                params[p.arg] = env.values[p.arg]
                continue
            if ann in ('pos', 'nat') and env.row is not None:
                params[p.arg] = env.get_size(p.arg, ann)
                continue
            params[p.arg] = param_term(p.arg, ann, fl, env)
            if ann in ('pos', 'nat', 'int'):
                env[p.arg] = params[p.arg]
        for k, v in env.items():
            params.setdefault(k, v)
        return params

    def side(self, ob, what, sizes=None):
        fl = self.flow(ob.opts)
        params = self.params(ob, fl, Sizes() if sizes is None else Sizes(sizes.row, sizes.values))
        a = ob.node.args
        o = Outcome()
        o.flow = fl
        o.params = params

        def go():
            fr = fl.frames[-1][0]
            for k, v in params.items():
                # containers are given as fresh heap cells
                if seqs.is_seq(v):
                    v = fl.new_list(v)
                v = fl.box(v)
                fl.set_var(fr, k, v)
            if what == 'impl':
                v = fl.eval(ast.parse(ob.expr, mode='eval').body)
            else:
                ft = fl.make_fn(ob.node, ob.module, fr, None)
                f = fl.fns[ft]
                v = fl.run_fn(ft, f, {p.arg: fl.get_var(fr, p.arg) for p in a.args})
            return v
        v = fl.in_module(ob.module, go)
        o.raises = [(x.st.alive, fl.exc_name_of(x.val), x.loc) for x in fl.sinks[0]]
        o.alive = fl.st.alive
        o.value = fl.frozen(v) if fl.taint is None else fl.taint
        o.events = fl.st.ev
        o.heap = fl.st.heap
        return o

    # ---------------------------------------------------------- reporting
    def missing_anchor(self, ob):
        """First name of the access expression that the package no longer provides."""
        params = {x.arg for x in ob.node.args.args}
        fl = self.flow(ob.opts)
        for n in ast.walk(ast.parse(ob.expr, mode='eval')):
            if isinstance(n, ast.Name) and n.id not in params and n.id not in ('np', 'cs', 'ce'):
                bound = {x.id for x in ast.walk(ast.parse(ob.expr, mode='eval')) if isinstance(x, ast.Name)
                         and isinstance(x.ctx, ast.Store)} | {a.arg for x in ast.walk(ast.parse(ob.expr, mode='eval'))
                                                              if isinstance(x, ast.arguments) for a in x.args}
                if n.id in bound or n.id in params_dims(ob):
                    continue
                t = fl.in_module(ob.module, lambda: fl.global_name(ob.module, n.id))
                if t.op == 'unknown':
                    return n.id
        return None

    def anchor_location(self, ob, impl):
        """file:line of the last package function named in the access expression."""
        names = []
        for x in ast.walk(ast.parse(ob.expr, mode='eval')):
            if isinstance(x, ast.Attribute):
                names.append(x.attr)
            elif isinstance(x, ast.Name):
                names += [x.id, x.id + '.__init__']
            elif isinstance(x, ast.Call) and not isinstance(x.func, (ast.Name, ast.Attribute)):
                names.append('__call__')
            elif isinstance(x, ast.Subscript):
                names.append('__getitem__')
        best = None
        for q, (p, ln) in impl.flow.analysed.items():
            if p.startswith(self.project.root + '/casadi_extras') and best is None:
                best = (q, p, ln)
        for nm in names:
            for q, (p, ln) in impl.flow.analysed.items():
                if p.startswith(self.project.root + '/casadi_extras') and (q.endswith('.' + nm)):
                    return '%s:%d %s' % (os.path.relpath(p, self.project.root), ln, q)
        if best:
            return '%s:%d %s' % (os.path.relpath(best[1], self.project.root), best[2], best[0])
        return ''

    def locate(self, ob, impl, ds):
        """Best effort: the source line that introduced one of the differing subterms."""
        for x, y in ds:
            if not isinstance(x, T):
                continue
            for t, (p, ln, fn) in impl.flow.origin.items():
                if t is x and p.startswith(self.project.root + '/casadi_extras') and x.op not in ('num', 'str', 'bool', 'none'):
                    return '%s:%d' % (os.path.relpath(p, self.project.root), ln)
            if x.op == 'RAISE':
                for c, e, loc in impl.raises:
                    if x.args[0] in (e, 'an exception') and loc:
                        return '%s:%d' % (os.path.relpath(loc[0], self.project.root), loc[1])
        return None

    def symbols(self, t):
        """Names of uninterpreted operations in a term."""
        out = set()
        for x in find_ops(t, ('call', 'meth', 'attr', 'ext', 'extm', 'rcall', 'rec', 'new', 'op', 'getattr')):
            if x.op == 'attr':
                out.add('.' + str(x.args[1]))
            elif x.op == 'meth':
                out.add('.' + str(x.args[0]) + '()')
            elif isinstance(x.args[0], str):
                out.add(x.args[0])
        return out

    def own_names(self):
        """Attribute names the package itself defines."""
        if getattr(self, '_own', None) is None:
            out = set()
            for m in self.package_modules:
                for n in ast.walk(self.project.modules[m].tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        out.add(n.name)
            self._own = out
        return self._own

    def not_comparable(self, a, b):
        """Reason why a difference between the summary a and the definition b proves nothing, or None."""
        us = find_ops(a, ('unknown',))
        if us:
            return 'outside the modelled vocabulary: ' + str(list(us)[0].args[0])[:300]
        odd = find_ops(a, ('cycle', 'carry', 'carryd', 'noreturn_'))
        if odd:
            return 'loop not summarised'
        extra = self.symbols(a) - self.symbols(b)
        own = self.own_names()
        bad = []
        for s in sorted(extra):
            if s in lib.DISTINCT or s.lstrip('.').rstrip('()') in own or s.startswith('casadi_extras.'):
                continue
            bad.append(s)
        if bad:
            return 'operation without a model: ' + ', '.join(bad)
        return None


def params_dims(ob):
    out = set()
    for p in ob.node.args.args:
        if p.annotation is not None and isinstance(p.annotation.value, str):
            out |= set(re.findall(r'[A-Za-z_]\w*', p.annotation.value))
    return out


def outcome_term(o, raises):
    """ite(raised, RAISE(cls), value) as one term.

    raises: 'all' every exception by class; 'any' every exception, class disregarded; 'ignore' failed assertions are
    taken for misuse by the caller, any other exception counts; 'assume' no exception counts; class names: only these.
    """
    t = o.value
    if raises == 'assume' or o.flow.taint is not None:
        o.other = FALSE
        return t
    other = FALSE
    for c, e, loc in o.raises:
        if raises in ('all', 'any') or raises == 'ignore' and e != 'AssertionError' or e in raises.split():
            t = ite(c, raw('RAISE', 'an exception' if raises in ('any', 'ignore') else e), t)
        else:
            other = or_(other, c)
    o.other = other
    return t


def outcomes(impl, spec, opts):
    """The two outcomes and the condition under which they are compared."""
    mode = opts.get('raises', 'all')
    a = outcome_term(impl, mode)
    b = outcome_term(spec, mode)
    g = TRUE
    if mode == 'assume':
        g = and_(impl.alive, spec.alive)
    elif mode not in ('all', 'any'):
        g = and_(not_(impl.other), not_(spec.other))
    return a, b, g


def compare(impl, spec, opts):
    a, b, g = outcomes(impl, spec, opts)
    if g is not TRUE:
        a, b = restrict(a, g), restrict(b, g)
    a, b = norm(a, impl), norm(b, spec)
    if a is not b and (a.op == 'ite' or b.op == 'ite') and same(a, b):
        a = b
    if a is not b and polyhedra.alike(a, b):
        a = b
    if a is not b and alike_by_case(a, b, impl, spec):
        a = b
    return a, b, g


def alike_by_case(a, b, impl, spec, depth=3):
    """Equality in each case of the equations that occur inside loops without depending on their counters.

    Such an equation may stand inside the loop in one term and outside in the other.
    """
    if a is b:
        return True
    if depth == 0:
        return False
    for v in sorted({c for c in list(find_ops(a, ('eq0',))) + list(find_ops(b, ('eq0',))) if not has_op(c, ('bv',))}, key=key)[:1]:
        return all(alike_by_case(norm(subst(a, {v: x}), impl), norm(subst(b, {v: x}), spec), impl, spec, depth - 1)
                   for x in (TRUE, FALSE))
    return False


def only_raises(a, b):
    """The two outcomes reduced to whether they raise, if the rest of a cannot be compared because an object contains itself; else None."""
    if not has_op(a, ('cycle',)) or has_op(a, ('unknown', 'carry', 'carryd', 'noreturn_')):
        return None

    def f(t):
        if t.op == 'ite':
            return ite(t.args[0], f(t.args[1]), f(t.args[2]))
        return t if t.op == 'RAISE' else string('a value')
    x, y = f(a), f(b)
    return (x, y) if x is not y else None


def fresh_order(t, handles_only=False):
    """Symbols made by the analysed code, in order of appearance: first the public handles of a tuple, then the rest."""
    out = []
    seen = set()

    def hit(x):
        if x.op in ('mxsym', 'mxnew') and csmodel.is_fresh(x) and x not in out:
            out.append(x)

    def handle(x):
        if x.op == 'tuple':
            for y in x.args:
                handle(y)
        elif x.op == 'mxsym':
            hit(x)
        elif x.op == 'arr' and csmodel.symbol(x) is not x:
            hit(csmodel.symbol(x))
        elif x.op == 'typed' and isinstance(x.args[1], T) and x.args[1].op == 'root':
            hit(x.args[1].args[0])

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            hit(x)
            walk(x.args)
    handle(t)
    if not handles_only:
        walk(t)
    return out


def cross_checkable(t):
    """All symbols made by the code are public handles, so the two sides name them alike without normalisation."""
    return len(fresh_order(t)) == len(fresh_order(t, True))


def rename_fresh(t, keep_names):
    m = {}
    for k, s in enumerate(fresh_order(t)):
        m[s] = raw(s.op, '$%d' % k, s.args[1] if keep_names else NONE, *s.args[2:])
    return subst(t, m) if m else t


def sort_bags(t):
    """Equations of a root are a set, each up to its sign."""
    if not has_op(t, ('bag',)):
        return t
    m = {}
    for b in find_ops(t, ('bag',)):
        xs = []
        for x in b.args[0]:
            x = canon(sort_bags(x))
            if ar.is_arr(x) and x.op == 'arr':
                y = canon(ar.ew(neg, x))
                x = min(x, y, key=key)
            xs.append(x)
        m[b] = raw('bag', tuple(sorted(set(xs), key=key)))
    return subst(t, m)


class TooMany(Exception):
    pass


def reduce_poly(p, facts):
    """Remainder of a polynomial by linear facts (pivot monomial, polynomial with unit pivot)."""
    p = dict(p)
    for m, f in facts:
        c = p.get(m)
        if c:
            for mm, cc in f.items():
                v = p.get(mm, 0) - c * cc
                if v:
                    p[mm] = v
                else:
                    p.pop(mm, None)
    return p


def same(a, b, budget=4000):
    """Equality of two decision trees, using the equations decided on the way down."""
    n = [0]

    def pivot(p):
        ms = [m for m in p if m != ()]
        return max(ms, key=tm._mono_key)

    def go(a, b, facts, diseq):
        if a is b:
            return True
        n[0] += 1
        if n[0] > budget:
            raise TooMany()
        if a.op != 'ite' and b.op != 'ite':
            return False
        v = (a if a.op == 'ite' else b).args[0]
        yes, no = facts, diseq
        if v.op == 'eq0':
            p = reduce_poly(to_poly(v.args[0]), facts)
            if not p:
                return go(assume(a, v, True), assume(b, v, True), facts, diseq)
            if set(p) == {()}:
                return go(assume(a, v, False), assume(b, v, False), facts, diseq)
            m = pivot(p)
            u = {k: c / p[m] for k, c in p.items()}
            if any(reduce_poly(d, facts) in (u, {k: -c for k, c in u.items()}) for d in diseq):
                return go(assume(a, v, False), assume(b, v, False), facts, diseq)
            yes = [(k, reduce_poly(f, [(m, u)])) for k, f in facts] + [(m, u)]
            no = diseq + [u]
        return go(assume(a, v, True), assume(b, v, True), yes, diseq) and go(assume(a, v, False), assume(b, v, False), facts, no)
    try:
        return go(a, b, [], [])
    except TooMany:
        return False


def norm(t, o):
    """Canonical binder names; fresh symbols renamed by order of appearance."""
    t = rename_fresh(t, o.flow.opts.get('names') == 'keep')
    t = canon(t)
    for _ in range(3):
        t2 = canon(tm.merge_cases(deep_restrict(t)))
        if t2 is t:
            break
        t = t2
    if has_op(t, ('bag',)):
        t = canon(sort_bags(t))
    return t
