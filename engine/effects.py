"""Effect and alias analysis: which objects a function may change, in terms of what its caller handed to it.

Objects are abstracted by how they are reached:

    ('P', p)        the object passed for parameter p            ('F', p, a)   reachable through attribute a of it
    ('I', p)        its items                                    ('A', site, class)  created in this call
    ('G', m, x)     module-level object x of module m            ('C', c, a)   attribute a of class c itself
    ('D', f, p)     default value of parameter p of f
    ('FN', key) / ('CL', key) / ('BM', key, receivers) / ('X', name)   functions, classes, bound methods, external names

A function is interpreted once per round over environments that map names to sets of such objects (assignments replace,
branches join); calls inside the package apply the summary of the callee to the objects passed.  Rounds are repeated until
the summaries are stable.
"""
import ast
import os

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'extendleft', 'popleft', 'rotate',
            'fill', 'itemset', 'partition', 'resize', 'setflags', 'put', 'set_nz', 'erase', 'enlarge', '__setitem__', '__delitem__',
            '__setattr__', '__delattr__', '__iadd__', 'move_to_end'}
ITEM_METHODS = {'values', 'items', 'get', 'pop', 'setdefault', 'popitem', '__getitem__', '__iter__', 'popleft'}
SAME_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', '__enter__'}
NP_SAME = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes',
           'ascontiguousarray', 'asfortranarray', 'broadcast_to', 'expand_dims', 'flip', 'flipud', 'fliplr', 'moveaxis', 'rollaxis', 'diagonal',
           'require'}
NP_FIRST = {'put', 'fill_diagonal', 'copyto', 'place', 'putmask', 'put_along_axis'}
FIRST = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'random.shuffle', 'numpy.random.shuffle', 'operator.setitem', 'operator.delitem',
         'operator.iadd', 'operator.iconcat', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right', 'builtins.setattr', 'builtins.delattr'}
COPY = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'dict', 'iter', 'filter', 'min', 'max', 'next', 'sum',
        'OrderedDict', 'defaultdict', 'deque', 'chain', 'copy'}
NOT_ARRAY = ('arange', 'zeros', 'ones', 'full', 'eye', 'linspace', 'empty', 'isscalar', 'append')
EMPTY = frozenset()


class Func(object):
    def __init__(self, key, node, module, cls, closure=None):
        self.key = key
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.star = a.vararg.arg if a.vararg else None
        self.dstar = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.kind = 'method' if cls and closure is None else 'function'
        for d in getattr(node, 'decorator_list', ()):
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
            if n in ('staticmethod', 'classmethod', 'property', 'setter', 'cached_property', 'getter', 'deleter'):
                self.kind = n
        if self.kind == 'method' and node.name == '__new__':
            self.kind = 'classmethod'

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Summary(object):
    def __init__(self):
        self.effects = {}       # (node, what) -> (where, via)
        self.stores = set()     # (node, attribute, node)
        self.returns = set()

    def size(self):
        return (len(self.effects), len(self.stores), len(self.returns))


class Env(object):
    def __init__(self, names=None, fields=None):
        self.names = names or {}
        self.fields = fields or {}
        self.dead = False

    def copy(self):
        e = Env(dict(self.names), dict(self.fields))
        e.dead = self.dead
        return e

    def join(self, o):
        if o.dead:
            return self
        if self.dead:
            return o
        e = Env()
        for k in set(self.names) | set(o.names):
            e.names[k] = self.names.get(k, EMPTY) | o.names.get(k, EMPTY)
        for k in set(self.fields) | set(o.fields):
            # not assigned on one side: still what it was before the call
            a, b = self.fields.get(k), o.fields.get(k)
            e.fields[k] = (a if a is not None else {('old',)}) | (b if b is not None else {('old',)})
        return e

    def same(self, o):
        return self.names == o.names and self.fields == o.fields and self.dead == o.dead


class Effects(object):
    def __init__(self, project):
        self.project = project
        self.funcs = {}
        self.classes = {}        # key -> (node, module, {name: func key}, {class attribute: value expression}, [base expressions])
        self.by_method = {}
        for m in project.modules.values():
            self.collect(m, m.tree.body, m.name, None)
        self.subs = {}
        for c in self.classes:
            for b in self.mro(c)[1:]:
                self.subs.setdefault(b, set()).add(c)
        self.sum = {k: Summary() for k in self.funcs}
        self.calls = 0
        self.maybe = {}          # function -> objects that are handed to functions that treat them as arrays
        self.array_params = {}
        self.array_attrs = set()
        for f in self.funcs.values():
            names, attrs = self.array_uses(f)
            self.array_params[f.key] = names & set(f.pos + f.kwonly)
            self.array_attrs |= attrs

    # ------------------------------------------------------------------ program
    def collect(self, m, body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                k = prefix + '.' + n.name
                f = Func(k, n, m, cls)
                if f.kind in ('setter', 'deleter'):
                    k += '=' if f.kind == 'setter' else '~'
                    f.key = k
                self.funcs[k] = f
                if cls:
                    self.classes[cls][2][n.name + ('=' if f.kind == 'setter' else '~' if f.kind == 'deleter' else '')] = k
                    self.by_method.setdefault(n.name, []).append(k)
            elif isinstance(n, ast.ClassDef):
                k = prefix + '.' + n.name
                self.classes[k] = (n, m, {}, {}, n.bases)
                self.collect(m, n.body, k, k)
            elif isinstance(n, ast.Assign) and cls:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.classes[cls][3][t.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                for b in [n.body, getattr(n, 'orelse', []), getattr(n, 'finalbody', [])] + [h.body for h in getattr(n, 'handlers', [])]:
                    self.collect(m, b, prefix, cls)

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            k = todo.pop(0)
            if k in out or k not in self.classes:
                continue
            out.append(k)
            n, m, _, _, bases = self.classes[k]
            for b in bases:
                for x in self.resolve_global(m, b):
                    if x[0] == 'CL':
                        todo.append(x[1])
        return out

    def resolve_global(self, m, e):
        if isinstance(e, ast.Name):
            return self.global_(m, e.id)
        if isinstance(e, ast.Attribute):
            out = set()
            for b in self.resolve_global(m, e.value):
                if b[0] == 'X':
                    out.add(('X', b[1] + '.' + e.attr))
                elif b[0] == 'MOD':
                    out |= self.global_(self.project.modules[b[1]], e.attr)
                elif b[0] == 'CL' and b[1] + '.' + e.attr in self.classes:
                    out.add(('CL', b[1] + '.' + e.attr))
            return out
        return set()

    def global_(self, m, name, depth=0):
        k = m.name + '.' + name
        out = set()
        if depth > 6:
            return out
        for b in m.bindings.get(name, ()):
            if b[0] == 'def':
                out.add(('FN', k))
            elif b[0] == 'class':
                out.add(('CL', k))
            elif b[0] == 'import':
                out.add(('MOD', b[1]) if b[1] in self.project.modules else ('X', b[1]))
            elif b[0] == 'from':
                if b[1] + '.' + b[2] in self.project.modules:
                    out.add(('MOD', b[1] + '.' + b[2]))
                elif b[1] in self.project.modules:
                    out |= self.global_(self.project.modules[b[1]], b[2], depth + 1)
                else:
                    out.add(('X', b[1] + '.' + b[2]))
            elif b[0] in ('assign', 'assign_item'):
                v = b[2]
                r = self.resolve_global(m, v) if isinstance(v, (ast.Name, ast.Attribute)) else set()
                if any(x[0] in ('CL', 'FN', 'MOD', 'X') for x in r):
                    out |= r
                elif not isinstance(v, ast.Constant):
                    out.add(('G', m.name, name))
        if out:
            return out
        for s in m.stars:
            if s in self.project.modules:
                r = self.global_(self.project.modules[s], name, depth + 1)
                if r and not all(x[0] == 'X' and x[1].startswith('builtins.') for x in r):
                    return r
        import builtins
        if hasattr(builtins, name):
            return {('X', 'builtins.' + name)}
        for s in m.stars:
            if s not in self.project.modules:
                return {('X', s + '.' + name)}
        return out

    def array_uses(self, f):
        """Names and attributes handed to numpy functions, directly or as items: they may hold arrays."""
        names, attrs = set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in NOT_ARRAY \
                    and any(x[0] == 'X' and x[1].startswith('numpy') for x in self.resolve_global(f.module, n.func.value)):
                for a in n.args:
                    while isinstance(a, ast.Subscript):
                        a = a.value
                    if isinstance(a, ast.Name):
                        names.add(a.id)
                    elif isinstance(a, ast.Attribute):
                        attrs.add(a.attr)
        return names, attrs

    def run(self):
        for r in range(12):
            before = {k: s.size() for k, s in self.sum.items()}
            for k, f in self.funcs.items():
                Interp(self, f).go()
            if before == {k: s.size() for k, s in self.sum.items()}:
                break
        self.rounds = r + 1
        return self


def mutable_expr(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'frozenset', 'object', 'float', 'int', 'str', 'range', 'namedtuple'))


class Interp(object):
    def __init__(self, E, f, depth=0):
        self.E = E
        self.f = f
        self.s = E.sum[f.key] if f.key in E.sum else Summary()
        self.depth = depth
        self.arrays = set()
        self.env = Env()
        self.breaks = []
        self.conts = []
        self.busy = set()

    def where(self, n):
        return '%s:%d' % (os.path.relpath(self.f.module.path, self.E.project.root), n.lineno)

    # ------------------------------------------------------------------ objects
    def effect(self, nodes, what, n, via=None):
        for x in nodes:
            if x[0] in ('P', 'F', 'I', 'G', 'C', 'D'):
                self.s.effects.setdefault((x, what), (self.where(n), via or self.f.key))

    def fresh(self, n, cls=None):
        return ('A', (self.f.key, n.lineno, n.col_offset), cls)

    def classes_of(self, x):
        """Package classes an object may have, or None."""
        if x[0] == 'A':
            return [x[2]] if x[2] in self.E.classes else [] if x[2] else None
        if x[0] == 'P' and self.f.cls and self.f.pos and x[1] == self.f.pos[0] and self.f.kind in ('method', 'property', 'setter', 'cached_property'):
            return [self.f.cls] + sorted(self.E.subs.get(self.f.cls, ()))
        return None

    def method(self, c, name):
        for k in self.E.mro(c):
            if name in self.E.classes[k][2]:
                return self.E.classes[k][2][name]
        return None

    def old(self, x, attr):
        """What an attribute holds before this call."""
        if x[0] == 'P':
            out = {('F', x[1], attr)}
            for c in self.classes_of(x) or ():
                for k in self.E.mro(c):
                    v = self.E.classes[k][3].get(attr)
                    if v is not None:
                        if mutable_expr(v):
                            out.add(('C', k, attr))
                        break
            return out
        if x[0] in ('F', 'I', 'G', 'C', 'D'):
            return {x}
        return set()

    def attr(self, nodes, name, n, load=True):
        out = set()
        for x in nodes:
            if name == '__dict__':
                out.add(x)
                continue
            if x[0] == 'X':
                out.add(('X', x[1] + '.' + name))
                continue
            if x[0] == 'MOD':
                m = self.E.project.modules[x[1]]
                r = self.E.global_(m, name)
                out |= r
                if not r and x[1] + '.' + name in self.E.project.modules:
                    out.add(('MOD', x[1] + '.' + name))
                continue
            if x[0] == 'CL':
                k = self.method(x[1], name)
                if k:
                    f = self.E.funcs[k]
                    out.add(('BM', k, frozenset([x])) if f.kind == 'classmethod' and name != '__new__' else ('FN', k))
                    continue
                for c in self.E.mro(x[1]):
                    v = self.E.classes[c][3].get(name)
                    if v is not None:
                        if mutable_expr(v):
                            out.add(('C', c, name))
                        break
                if name in ('__new__',):
                    out.add(('X', 'new:' + x[1]))
                if x[1] + '.' + name in self.E.classes:
                    out.add(('CL', x[1] + '.' + name))
                continue
            if x[0] in ('FN', 'BM'):
                continue
            v = self.env.fields.get((x, name))
            if v is not None:
                out |= {y for y in v if y != ('old',)}
                if ('old',) not in v:
                    continue
            hit = False
            cs = self.classes_of(x)
            for c in cs or ():
                k = self.method(c, name)
                if k:
                    hit = True
                    f = self.E.funcs[k]
                    if f.kind in ('property', 'cached_property'):
                        out |= self.apply(k, [frozenset([x])], {}, n)
                    elif f.kind == 'staticmethod':
                        out.add(('FN', k))
                    else:
                        out.add(('BM', k, frozenset([x])))
            if not hit:
                out |= self.old(x, name)
                if x[0] == 'P' or x[0] == 'F':
                    g = [k for c in cs or () for k in [self.method(c, '__getattr__')] if k]
                    for k in g:
                        out |= self.apply(k, [frozenset([x]), EMPTY], {}, n)
        return frozenset(out)

    def items(self, nodes):
        out = set()
        for x in nodes:
            if x[0] == 'P':
                v = self.env.fields.get((x, '[]'))
                if v is not None:
                    out |= v - {('old',)}
                out.add(('I', x[1]))
            elif x[0] in ('F', 'I', 'G', 'C', 'D'):
                out.add(x)
            elif x[0] == 'A':
                out |= self.env.fields.get((x, '[]'), EMPTY) - {('old',)}
        return frozenset(out)

    def store(self, nodes, name, vals, strong):
        vals = frozenset(v for v in vals if v[0] != 'X')
        nodes = [x for x in nodes if x[0] not in ('FN', 'BM', 'X', 'MOD')]
        for x in nodes:
            k = (x, name)
            if strong and len(nodes) == 1 and name != '[]':
                self.env.fields[k] = vals
            else:
                o = self.env.fields.get(k)
                self.env.fields[k] = vals | (o if o is not None else {('old',)})
            if x[0] in ('P', 'A'):
                for v in vals:
                    self.s.stores.add((x, name, v))

    def container(self, n, vals, cls='container'):
        a = self.fresh(n, cls)
        self.store([a], '[]', vals, False)
        return frozenset([a])

    # ------------------------------------------------------------------ calls
    def apply(self, k, args, kw, n, star=EMPTY):
        """Call of a package function with the sets of objects passed."""
        E = self.E
        E.calls += 1
        f = E.funcs[k]
        b = {}
        rest = set(star)
        for i, a in enumerate(args):
            if i < len(f.pos):
                b[f.pos[i]] = frozenset(a)
            else:
                rest |= a
        for name, a in kw.items():
            if name in f.pos or name in f.kwonly:
                b[name] = b.get(name, EMPTY) | frozenset(a)
            elif name is not None:
                rest |= a
        if None in kw or star:
            for p in f.pos + f.kwonly:
                if p not in b:
                    b[p] = frozenset(kw.get(None, EMPTY)) | frozenset(star)
        given = set(b)
        for p in E.array_params.get(k, ()):
            E.maybe.setdefault(self.f.key, set()).update(b.get(p, ()))
        for p in (f.star, f.dstar):
            if p:
                b[p] = self.container(n, rest | (kw.get(None, EMPTY)))
        s = E.sum[k]

        def image(x):
            if x[0] == 'P':
                return b.get(x[1], EMPTY)
            if x[0] == 'F':
                return self.reach(b.get(x[1], EMPTY), x[2], n)
            if x[0] == 'I':
                return self.items(b.get(x[1], EMPTY))
            if x[0] == 'A':
                return {('A', (self.f.key, n.lineno, n.col_offset, x[1][-1] if len(x[1]) > 3 else x[1]), x[2])}
            if x[0] == 'D':
                return EMPTY if x[2] in given else {x}
            if x[0] == 'BM':
                return {('BM', x[1], frozenset(z for y in x[2] for z in image(y)))}
            return {x}
        for (x, what), (w, via) in list(s.effects.items()):
            for y in image(x):
                if y[0] in ('P', 'F', 'I', 'G', 'C', 'D'):
                    self.s.effects.setdefault((y, what), (w, via))
        for x, name, v in list(s.stores):
            self.store([y for y in image(x)], name, image(v), False)
        out = set()
        for x in s.returns:
            out |= image(x)
        return frozenset(out)

    def reach(self, nodes, attr, n):
        k = (nodes, attr)
        if k in self.busy:
            return EMPTY
        self.busy.add(k)
        try:
            return self.attr(nodes, attr, n)
        finally:
            self.busy.discard(k)

    def call(self, fs, args, kw, star, n):
        out = set()
        for g in fs:
            if g[0] == 'FN':
                if g[1] in self.E.funcs:
                    out |= self.apply(g[1], args, kw, n, star)
                else:
                    out |= self.inline(g, args, kw, n)
            elif g[0] == 'BM':
                out |= self.apply(g[1], [g[2]] + list(args), kw, n, star)
            elif g[0] == 'CL':
                a = self.fresh(n, g[1])
                out.add(a)
                for m in ('__new__', '__init__'):
                    k = self.method(g[1], m)
                    if k:
                        first = frozenset([g]) if m == '__new__' else frozenset([a])
                        r = self.apply(k, [first] + list(args), kw, n, star)
                        if m == '__new__':
                            out |= r
                if not self.method(g[1], '__init__') and not self.method(g[1], '__new__'):
                    self.store([a], '[]', set().union(star, *args, *kw.values()), False)
            elif g[0] == 'X':
                out |= self.external(g[1], args, kw, star, n)
            else:
                for c in self.classes_of(g) or ():
                    k = self.method(c, '__call__')
                    if k:
                        out |= self.apply(k, [frozenset([g])] + list(args), kw, n, star)
        return frozenset(out)

    def inline(self, g, args, kw, n):
        f = CLOSURES[g[1]]
        if self.depth > 2:
            return EMPTY
        return self.body_of(f, args, kw, n)

    def body_of(self, f, args, kw, n):
        """Body of a nested function or lambda, in the environment of its definition."""
        save = self.env
        env = save.copy()
        for k, v in f.closure.names.items():
            env.names.setdefault(k, v)
        for p in f.pos + f.kwonly + [f.star, f.dstar]:
            if p:
                env.names[p] = EMPTY
        for p, a in zip(f.pos, args):
            env.names[p] = frozenset(a)
        for p, a in kw.items():
            if p in f.pos + f.kwonly:
                env.names[p] = frozenset(a)
        for p, d in f.defaults.items():
            if not env.names.get(p):
                env.names[p] = self.ev(d)
        self.env = env
        self.depth += 1
        rets, self.s.returns = self.s.returns, set()
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
            else:
                self.block(f.node.body)
                r = frozenset(self.s.returns)
        finally:
            self.depth -= 1
            self.s.returns = rets
        fields = self.env.fields
        self.env = save
        for k, v in fields.items():
            if save.fields.get(k) != v:
                save.fields[k] = v | save.fields.get(k, frozenset([('old',)]))
        return r

    def external(self, name, args, kw, star, n):
        short = name.rpartition('.')[2]
        a0 = args[0] if args else EMPTY
        allv = frozenset().union(star, *args, *kw.values())
        if 'out' in kw:
            self.effect(kw['out'], 'out= argument', n)
        if name.startswith('new:'):
            return frozenset([self.fresh(n, name[4:])])
        if name == 'builtins.getattr':
            c = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '*'
            return self.attr(a0, c, n) | (args[2] if len(args) > 2 else EMPTY)
        if name in ('builtins.setattr', 'builtins.delattr') or name == 'builtins.object.__setattr__':
            c = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '*'
            self.effect(a0, 'attribute ' + str(c), n)
            self.store(a0, str(c), args[2] if len(args) > 2 else EMPTY, True)
            return EMPTY
        if name == 'builtins.vars':
            return a0
        if name in ('builtins.super',):
            return frozenset([('SUPER',)])
        if name.startswith('numpy.') and short in NP_FIRST or name in FIRST:
            self.effect(a0, short + '()', n)
            return EMPTY
        if name.startswith('numpy.') and short in NP_SAME:
            self.arrays |= a0
            return a0
        if name == 'numpy.array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords):
            self.arrays |= a0
            return a0
        if name == 'copy.deepcopy':
            return self.container(n, EMPTY)
        if name in ('builtins.map', 'functools.reduce', 'functools.partial', 'builtins.filter') and args:
            r = self.call(args[0], [self.items(a) for a in args[1:]] if short != 'partial' else list(args[1:]), {}, EMPTY, n)
            return self.container(n, r)
        if name in ('builtins.next',):
            return self.items(a0)
        if short in COPY and (name.startswith('builtins.') or name.split('.')[0] in ('collections', 'itertools', 'copy')):
            vals = set()
            for a in list(args) + [star]:
                vals |= self.items(a)
            if name == 'builtins.dict':
                for a in kw.values():
                    vals |= a
            if short in ('min', 'max'):
                return frozenset(vals | allv)
            return self.container(n, vals)
        # functions passed along may be called
        for v in allv:
            if v[0] == 'FN' and v[1] in CLOSURES:
                self.body_of(CLOSURES[v[1]], [], {}, n)
        return self.container(n, EMPTY, 'external')

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return EMPTY
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return frozenset(m(e))
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return EMPTY

    def e_Name(self, e):
        if e.id in self.env.names:
            return self.env.names[e.id]
        return self.E.global_(self.f.module, e.id)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        if ('SUPER',) in b:
            out = set()
            for c in self.E.mro(self.f.cls)[1:] if self.f.cls else ():
                k = self.E.classes[c][2].get(e.attr)
                if k:
                    out.add(('BM', k, self.env.names.get(self.f.pos[0], EMPTY)))
                    break
            return out
        return self.attr(b, e.attr, e)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        self.ev(e.slice)
        sl = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        out = set()
        for x in b:
            if x in self.arrays:
                # elements of an array are values; parts of it share its memory
                if any(isinstance(s, ast.Slice) or isinstance(s, ast.Constant) and s.value is Ellipsis for s in sl):
                    out.add(x)
            elif x[0] == 'A' and isinstance(x[2], tuple) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
                out |= self.component([x], e.slice.value, None)
            elif isinstance(e.slice, ast.Slice) and x[0] in ('P', 'I', 'F'):
                out |= self.container(e, self.items([x]))
            else:
                cs = self.classes_of(x)
                ks = {k for c in cs or () for k in [self.method(c, '__getitem__')] if k}
                for k in ks:
                    out |= self.apply(k, [frozenset([x]), EMPTY], {}, e)
                if not ks:
                    out |= self.items([x])
        return out

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            self.ev(x)
        return EMPTY

    def e_Starred(self, e):
        return self.items(self.ev(e.value))

    def seq(self, e):
        vals = set()
        for x in e.elts:
            vals |= self.ev(x)
        return self.container(e, vals)
    e_List = e_Set = seq

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seq(e)
        vs = [self.ev(x) for x in e.elts]
        out = self.container(e, set().union(*vs), ('tuple', len(vs)))
        for i, v in enumerate(vs):
            self.store(out, '#%d' % i, v, True)
        return out

    def component(self, nodes, i, n):
        """Objects at position i; n: number of positions, None if not known."""
        out = set()
        for x in nodes:
            k = x[2] if x[0] == 'A' else None
            if isinstance(k, tuple) and (n is None or k[1] == n) and i < k[1]:
                out |= self.env.fields.get((x, '#%d' % i), EMPTY) - {('old',)}
            else:
                out |= self.items([x])
        return frozenset(out)

    def e_Dict(self, e):
        vals = set()
        for k, v in zip(e.keys, e.values):
            self.ev(k)
            vals |= self.ev(v) if k is not None else self.items(self.ev(v))
        return self.container(e, vals)

    def comp(self, e):
        names = dict(self.env.names)
        for g in e.generators:
            self.bind(g.target, self.items(self.ev(g.iter)), e)
            for i in g.ifs:
                self.ev(i)
        r = self.ev(e.elt) if not isinstance(e, ast.DictComp) else self.ev(e.value) | self.ev(e.key)
        for k in list(self.env.names):
            if k not in names:
                del self.env.names[k]
        self.env.names.update(names)
        return self.container(e, r)
    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_BoolOp(self, e):
        out = set()
        for v in e.values:
            out |= self.ev(v)
        return out

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env.names[e.target.id] = v
        return v

    def e_Lambda(self, e):
        return self.closure(e)

    def closure(self, node):
        k = ('closure', self.f.key, node.lineno, node.col_offset)
        CLOSURES[k] = Func(k, node, self.f.module, self.f.cls, self.env.copy())
        return frozenset([('FN', k)])

    def e_Yield(self, e):
        self.s.returns |= self.container(e, self.ev(e.value))
        return EMPTY

    def e_YieldFrom(self, e):
        self.s.returns |= self.ev(e.value)
        return EMPTY

    def e_Await(self, e):
        return self.ev(e.value)

    def e_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.Add, ast.Mult)):
            # concatenation keeps the elements
            if any(x[0] == 'A' and (x[2] == 'container' or isinstance(x[2], tuple)) for x in l | r):
                return self.container(e, self.items(l) | self.items(r))
        return EMPTY

    def e_Call(self, e):
        args, star = [], EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = star | self.items(self.ev(a.value))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                v = self.items(v)
            kw[k.arg] = kw.get(k.arg, EMPTY) | v
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value)
            name = e.func.attr
            fs = self.ev(e.func) if ('SUPER',) in recv else self.attr(recv, name, e)
            known = {g for g in fs if g[0] in ('FN', 'BM', 'CL', 'X')}
            out = set(self.call(known, args, kw, star, e))
            plain = [x for x in recv if x[0] in ('P', 'F', 'I', 'G', 'C', 'D', 'A') and not any(g[0] == 'BM' and x in g[2] for g in known)]
            # a class of the package that does not define the method inherits it from outside
            unknown = [x for x in plain if self.classes_of(x) is None and x[0] != 'A']
            ks = self.E.by_method.get(name, ())
            if name in MUTATORS and plain:
                typed = [x for x in plain if self.classes_of(x)]
                self.effect([x for x in plain if x not in typed], '%s()' % name, e)
                for x in plain:
                    if x[0] == 'A' or x[0] == 'P':
                        vals = set().union(star, *args, *kw.values())
                        if name in ('extend', 'update'):
                            vals = set().union(star, *[self.items(a) for a in args], *kw.values())
                        self.store([x], '[]', vals, False)
            elif unknown and ks and not known and not name.startswith('__'):
                for k in ks:
                    f = self.E.funcs[k]
                    if f.kind == 'method':
                        out |= self.apply(k, [frozenset(unknown)] + list(args), kw, e, star)
            if name in ITEM_METHODS and plain:
                r = self.items(plain)
                out |= self.container(e, r) | r
            if name in SAME_METHODS and not known:
                out |= set(plain)
                self.arrays |= {x for x in plain if name != '__enter__'}
            if name in ('copy', 'flatten', 'astype', 'tolist', 'split', 'keys') and not known:
                out |= self.container(e, self.items(plain) if name == 'copy' else EMPTY)
            if 'out' in kw:
                self.effect(kw['out'], 'out= argument', e)
            for v in set().union(star, *args, *kw.values()):
                if v[0] == 'FN' and v[1] in CLOSURES and not known:
                    self.body_of(CLOSURES[v[1]], [], {}, e)
            return out
        fs = self.ev(e.func)
        return self.call(fs, args, kw, star, e)

    # ------------------------------------------------------------------ statements
    def bind(self, t, v, n):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.effect([('G', self.f.module.name, t.id)], 'rebinding', n)
            self.env.names[t.id] = frozenset(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.items(v)
            if not any(isinstance(x, ast.Starred) for x in t.elts):
                for i, x in enumerate(t.elts):
                    self.bind(x, self.component(v, i, len(t.elts)), n)
                return
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, its if not isinstance(x, ast.Starred) else self.container(n, its), n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            for x in b:
                done = False
                for c in self.classes_of(x) or ():
                    k = self.method(c, t.attr + '=')
                    if k:
                        done = True
                        self.apply(k, [frozenset([x]), v], {}, n)
                if not done:
                    if x[0] == 'CL':
                        self.s.effects.setdefault((('C', x[1], t.attr), 'attribute ' + t.attr), (self.where(n), self.f.key))
                    elif x[0] in ('MOD', 'X'):
                        self.s.effects.setdefault((('G', x[1], t.attr), 'rebinding'), (self.where(n), self.f.key))
                    self.effect([x], 'attribute ' + t.attr, n)
            self.store(b, t.attr, v, True)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.effect(b, 'item', n)
            for x in b:
                for c in self.classes_of(x) or ():
                    k = self.method(c, '__setitem__')
                    if k:
                        self.apply(k, [frozenset([x]), EMPTY, v], {}, n)
            self.store([x for x in b if x[0] in ('A', 'P')], '[]', v, False)

    def block(self, body):
        for s in body:
            if self.env.dead:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            m(s)
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) \
                    and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                for x, y in zip(t.elts, [self.ev(y) for y in s.value.elts]):
                    self.bind(x, y, s)
            else:
                self.bind(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        listy = isinstance(s.value, (ast.List, ast.ListComp)) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('list', 'sorted')
        if isinstance(s.target, ast.Name):
            t = self.ev(s.target)
            hit = [x for x in t if x in self.arrays or listy and isinstance(s.op, ast.Add) or s.target.id in self.array_names
                   or x in self.E.maybe.get(self.f.key, ()) or x[0] == 'F' and x[2] in self.E.array_attrs]
            self.effect(hit, 'in-place operation', s)
            if listy:
                self.store([x for x in t if x[0] in ('A', 'P')], '[]', self.items(v), False)
            if s.target.id in self.globals:
                self.effect([('G', self.f.module.name, s.target.id)], 'rebinding', s)
            self.env.names[s.target.id] = frozenset(x for x in t if x in self.arrays or x[0] == 'A' or x in hit)
        else:
            b = self.ev(s.target)
            if isinstance(s.target, ast.Attribute):
                self.effect(self.ev(s.target.value), 'in-place attribute ' + s.target.attr, s)
            else:
                self.effect(self.ev(s.target.value), 'in-place item', s)
            self.bind(s.target, b | v, s)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.effect(self.ev(t.value), 'attribute ' + t.attr, s)
            elif isinstance(t, ast.Subscript):
                self.effect(self.ev(t.value), 'item', s)
            elif isinstance(t, ast.Name):
                self.env.names.pop(t.id, None)

    def s_Return(self, s):
        self.s.returns |= self.ev(s.value)
        self.env.dead = True

    def s_Raise(self, s):
        self.ev(s.exc)
        self.env.dead = True

    def s_Break(self, s):
        if self.breaks:
            self.breaks[-1].append(self.env.copy())
        self.env.dead = True

    def s_Continue(self, s):
        if self.conts:
            self.conts[-1].append(self.env.copy())
        self.env.dead = True

    def s_If(self, s):
        self.ev(s.test)
        a = self.env.copy()
        self.block(s.body)
        b, self.env = self.env, a
        self.block(s.orelse)
        self.env = b.join(self.env)

    def loop(self, s, start):
        self.breaks.append([])
        outs = []
        for _ in range(4):
            before = self.env.copy()
            self.conts.append([])
            start()
            self.block(s.body)
            e = self.env
            for c in self.conts.pop():
                e = e.join(c)
            e = before.join(e)
            e.dead = False
            self.env = e
            if e.same(before):
                break
        self.block(s.orelse)
        for b in self.breaks.pop():
            b.dead = False
            self.env = self.env.join(b)

    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(s, lambda: self.bind(s.target, self.items(it), s))

    def s_While(self, s):
        self.loop(s, lambda: self.ev(s.test))

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        a = self.env.copy()
        self.block(s.body)
        self.block(s.orelse)
        ends = [self.env]
        for h in s.handlers:
            self.env = a.join(ends[0]).copy()
            self.env.dead = False
            if h.name:
                self.env.names[h.name] = EMPTY
            self.block(h.body)
            ends.append(self.env)
        e = ends[0]
        for x in ends[1:]:
            e = e.join(x)
        self.env = e
        dead, self.env.dead = self.env.dead, False
        self.block(s.finalbody)
        self.env.dead = self.env.dead or dead

    def s_FunctionDef(self, s):
        self.env.names[s.name] = self.closure(s)
        # the function may be called later with objects that are not known here
        if self.depth <= 2:
            self.body_of(CLOSURES[('closure', self.f.key, s.lineno, s.col_offset)], [], {}, s)

    def s_ClassDef(self, s):
        self.env.names[s.name] = EMPTY

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            self.env.names[n] = frozenset([('X', a.name if a.asname else n)])

    def s_ImportFrom(self, s):
        m = self.f.module._abs(s)
        for a in s.names:
            if m in self.E.project.modules:
                self.env.names[a.asname or a.name] = frozenset(self.E.global_(self.E.project.modules[m], a.name))
            else:
                self.env.names[a.asname or a.name] = frozenset([('X', m + '.' + a.name)])

    def s_Global(self, s):
        pass
    s_Nonlocal = s_Global

    def go(self):
        f = self.f
        self.globals = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        self.array_names = self.E.array_uses(f)[0]
        for p in f.pos + f.kwonly:
            v = {('P', p)}
            d = f.defaults.get(p)
            if d is not None and mutable_expr(d):
                v.add(('D', f.key, p))
            self.env.names[p] = frozenset(v)
        for p in (f.star, f.dstar):
            if p:
                # a new container for every call; what it holds belongs to the caller
                a = ('A', (f.key, 0, p), 'container')
                self.env.names[p] = frozenset([a])
                self.env.fields[(a, '[]')] = frozenset([('I', p)])
        if f.kind == 'classmethod' and f.pos:
            self.env.names[f.pos[0]] = frozenset([('CL', f.cls)])
        self.block(f.node.body)


CLOSURES = {}
