"""Reference analysis: names, attributes, call signatures and format strings of the package all refer to things that exist.

Plain resolution over the syntax tree; no values are computed.  Every rule claims a definite defect only:
a reference is reported when nothing that could define it exists anywhere it could come from.
"""
import ast
import builtins as _b
import json
import os
import re
import string

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Cls(object):
    def __init__(self, name, qual, module, node, scope):
        self.name = name
        self.qual = qual
        self.module = module
        self.node = node
        self.scope = scope          # enclosing local classes by name
        self.bases = []             # Cls
        self.ext = []               # external base names
        self.unknown_base = False
        self.subs = []
        self.members = {}           # name -> FunctionDef | expr | None
        self.fields = {}            # self.<x> stores: name -> [value expr or None, function]
        self.open = False           # setattr(self, <dynamic>)
        self.ctor_keywords = set()
        self.nt_fields = None


class Refs(object):
    def __init__(self, project, data_dir):
        self.project = project
        self.cas = json.load(open(os.path.join(data_dir, 'casadi_names.json')))
        self.npd = json.load(open(os.path.join(data_dir, 'numpy_names.json')))
        self.results = []           # (rule, instance, verdict, where, message)
        self.counts = {}
        self.funcs = []             # (module, qual, node, cls)
        self.classes = []
        self.mods = {m: project.modules[m] for m in project.modules if m.split('.')[0] == project.package}
        for m in self.mods.values():
            self.collect(m, m.tree.body, m.name, None, {})
        self.link()
        self.all_attr_names = self.attr_universe()

    # ------------------------------------------------------------------ structure
    def collect(self, m, body, qual, cls, local_classes):
        """Registers functions and classes, nested ones included."""
        local = dict(local_classes)
        for n in body:
            for x in self.shallow(n):
                if isinstance(x, ast.ClassDef):
                    c = Cls(x.name, qual + '.' + x.name, m, x, local)
                    self.classes.append(c)
                    local[x.name] = c
                    for y in x.body:
                        if isinstance(y, FUNC):
                            c.members[y.name] = y
                        elif isinstance(y, ast.Assign):
                            for t in y.targets:
                                if isinstance(t, ast.Name):
                                    c.members[t.id] = y.value
                        elif isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name):
                            c.members[y.target.id] = y.value
                        elif isinstance(y, ast.ClassDef):
                            c.members[y.name] = y
                    self.collect(m, x.body, c.qual, c, local)
                elif isinstance(x, FUNC):
                    q = qual + '.' + x.name
                    self.funcs.append((m, q, x, cls))
                    self.collect(m, x.body, q, None, local)

    def shallow(self, n):
        """The definitions directly in a statement (descending into if/try/with/for, not into defs)."""
        if isinstance(n, (ast.ClassDef,) + FUNC):
            yield n
            return
        for f in ast.iter_child_nodes(n):
            if isinstance(f, ast.stmt) or isinstance(f, ast.excepthandler):
                for x in self.shallow(f):
                    yield x

    def link(self):
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b, c.scope)
                if isinstance(r, Cls):
                    c.bases.append(r)
                    r.subs.append(c)
                elif isinstance(r, tuple) and r[0] == 'ext':
                    k = r[1].split('.')
                    # casadi hands on builtins such as object
                    own = k[0] != 'casadi' or k[-1] in self.cas['classes'] or k[-1] not in self.npd['members']
                    c.ext.append(r[1] if own else k[-1])
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'namedtuple' and len(b.args) == 2 \
                        and isinstance(b.args[1], (ast.List, ast.Tuple)):
                    c.nt_fields = [e.value for e in b.args[1].elts if isinstance(e, ast.Constant)]
                    c.ext.append('tuple')
                else:
                    c.unknown_base = True
        for c in self.classes:
            for f in c.node.body:
                if isinstance(f, FUNC) and f.args.args and not self.is_static(f):
                    s = f.args.args[0].arg
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == s:
                            c.fields.setdefault(x.attr, []).append((self.stored_value(f, x), f))
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and x.args \
                                and isinstance(x.args[0], ast.Name) and x.args[0].id == s:
                            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                                c.fields.setdefault(x.args[1].value, []).append((None, f))
                            else:
                                c.open = True
                        elif isinstance(x, ast.Attribute) and x.attr == '__dict__' and isinstance(x.value, ast.Name) and x.value.id == s:
                            c.open = True
        self.find_stray()
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call):
                    r = self.resolve_expr(m, x.func, self.local_classes_of(m))
                    if isinstance(r, Cls):
                        for k in x.keywords:
                            if k.arg is None:
                                r.unknown_kw = True
                            else:
                                r.ctor_keywords.add(k.arg)

    def find_stray(self):
        """Attributes stored on something other than a method's own first parameter: they may belong to any class."""
        self.stray, self.stray_open = set(), False

        def visit(node, own):
            for k in ast.iter_child_nodes(node):
                o = own
                if isinstance(node, ast.ClassDef) and isinstance(k, FUNC) and k.args.args and not self.is_static(k):
                    o = own | {k.args.args[0].arg}
                elif isinstance(k, FUNC):
                    o = own - {a.arg for a in k.args.args}
                elif isinstance(k, ast.ClassDef):
                    o = frozenset()
                elif isinstance(k, ast.Attribute) and isinstance(k.ctx, ast.Store):
                    if not (isinstance(k.value, ast.Name) and k.value.id in own):
                        self.stray.add(k.attr)
                elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'setattr' and len(k.args) > 1:
                    if not (isinstance(k.args[0], ast.Name) and k.args[0].id in own):
                        if isinstance(k.args[1], ast.Constant):
                            self.stray.add(k.args[1].value)
                        else:
                            self.stray_open = True
                visit(k, o)
        for m in self.mods.values():
            visit(m.tree, frozenset())

    def local_classes_of(self, m):
        return {c.name: c for c in self.classes if c.module is m}

    @staticmethod
    def is_static(f):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)

    @staticmethod
    def stored_value(f, target):
        for x in ast.walk(f):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if t is target:
                        return x.value
        return None

    # ------------------------------------------------------------------ resolution
    def resolve_global(self, m, name, seen=()):
        """Cls | ('func', module, node) | ('module', dotted) | ('ext', dotted) | ('value',) | None"""
        if (m.name, name) in seen:
            return ('value',)
        seen = seen + ((m.name, name),)
        bs = m.bindings.get(name)
        if bs:
            b = bs[-1]
            if b[0] == 'def':
                return ('func', m, b[1])
            if b[0] == 'class':
                for c in self.classes:
                    if c.node is b[1]:
                        return c
                return ('value',)
            if b[0] == 'import':
                return ('module', b[1])
            if b[0] == 'from':
                return self.module_attr(b[1], b[2], seen)
            if b[0] == 'assign' and isinstance(b[2], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(m, b[2], {}, seen)
                return r if r is not None else ('value',)
            return ('value',)
        for s in m.stars:
            r = self.module_attr(s, name, seen, star=True)
            if r is not None:
                return r
        for s in self.walrus(m):
            if s == name:
                return ('value',)
        if name in self.npd['builtins'] or name in ('__name__', '__file__', '__doc__', '__class__', '__package__', '__path__', '__spec__'):
            return ('ext', name)
        return None

    def walrus(self, m):
        if not hasattr(m, '_top_stores'):
            out = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    out |= set(n.names)
            for n in m.tree.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(n, (ast.ClassDef,) + FUNC):
                        out.add(x.id)
            m._top_stores = out
        return m._top_stores

    def module_attr(self, dotted, name, seen=(), star=False):
        if dotted in self.mods:
            m = self.mods[dotted]
            if star and name.startswith('_'):
                return None
            r = self.resolve_global(m, name, seen)
            if r is not None and not (r[0] == 'ext' and r[1] == name if isinstance(r, tuple) else False):
                return r
            if dotted + '.' + name in self.mods:
                return ('module', dotted + '.' + name)
            return None
        if dotted == 'casadi' or dotted.startswith('casadi.'):
            if name == 'casadi':
                return ('module', 'casadi')
            if name in self.cas['names']:
                return ('ext', 'casadi.' + name)
            return None
        if dotted in self.npd:
            return ('ext', dotted + '.' + name) if name in self.npd[dotted] else (
                ('module', dotted + '.' + name) if dotted + '.' + name in self.npd else None)
        return ('ext', dotted + '.' + name)

    def resolve_expr(self, m, e, local, seen=()):
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            return self.resolve_global(m, e.id, seen)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value, local, seen)
            if isinstance(r, tuple) and r[0] == 'module':
                if r[1] + '.' + e.attr in self.mods or r[1] + '.' + e.attr in self.npd:
                    return ('module', r[1] + '.' + e.attr)
                return self.module_attr(r[1], e.attr, seen)
            if isinstance(r, tuple) and r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
            if isinstance(r, Cls) and e.attr in r.members and isinstance(r.members[e.attr], ast.ClassDef):
                for c in self.classes:
                    if c.node is r.members[e.attr]:
                        return c
            return ('value',)
        return ('value',)

    def mro(self, c):
        out, st = [], [c]
        while st:
            x = st.pop(0)
            if x not in out:
                out.append(x)
                st.extend(x.bases)
        return out

    def related(self, c):
        """Every class whose definitions can be on the instance that a method of c runs on."""
        subs, st = [], [c]
        while st:
            x = st.pop()
            if x not in subs:
                subs.append(x)
                st.extend(x.subs)
        out = []
        for s in subs:
            for x in self.mro(s):
                if x not in out:
                    out.append(x)
        return out

    def class_has(self, cs, attr):
        """True / False / None (cannot know)"""
        if attr in self.stray or self.stray_open:
            return None
        for c in cs:
            if attr in c.members or attr in c.fields or (c.nt_fields and attr in c.nt_fields):
                return True
            if '__getattr__' in c.members or '__getattribute__' in c.members:
                return None
        for c in cs:
            for e in c.ext:
                if e.startswith('casadi.'):
                    d = self.cas['classes'].get(e.split('.')[-1])
                    if d is None or self.cas_member(e.split('.')[-1], attr):
                        return True if d is not None else None
                elif e in self.npd['members']:
                    if attr in self.npd['members'][e]:
                        return True
                else:
                    return None
            if c.unknown_base:
                return None
        if attr in self.npd['members']['object'] or attr in ('__dict__', '__name__', '__qualname__', '__module__'):
            return True
        if any(c.open for c in cs):
            kw = set()
            for c in cs:
                if getattr(c, 'unknown_kw', False):
                    return None
                kw |= c.ctor_keywords
            return attr in kw
        return False

    def cas_member(self, cls, attr):
        seen, st = set(), [cls]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            d = self.cas['classes'].get(k)
            if d is None:
                return attr in self.npd['members']['object']
            if attr in d['members']:
                return True
            st.extend(d['bases'])
        return attr in self.npd['members']['object']

    def attr_universe(self):
        out = set()
        for v in self.npd['members'].values():
            out |= set(v)
        for v in self.cas['classes'].values():
            out |= set(v['members'])
        for k in ('numpy', 'numpy.linalg', 'operator', 'collections', 'collections.abc', 'builtins'):
            out |= set(self.npd[k])
        out |= set(self.cas['names'])
        for c in self.classes:
            out |= set(c.members) | set(c.fields) | set(c.nt_fields or ()) | c.ctor_keywords
        for m in self.mods.values():
            out |= set(m.bindings)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
        out |= {'version_info', 'dump', 'load', 'dumps', 'loads', 'modules', 'path', 'maxsize', '__name__'}
        return out

    # ------------------------------------------------------------------ reporting
    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def bad(self, rule, qual, what, m, node, msg):
        # keyed by the class or module-level function, so that moving code between methods keeps the key
        rest = qual[len(m.name) + 1:].split('.')[0]
        key = m.name + ('.' + rest if rest else '')
        self.results.append((rule, '%s: %s' % (key, what), 'violation',
                             '%s:%d %s' % (os.path.relpath(m.path, self.project.root), node.lineno, qual), msg))

    # ------------------------------------------------------------------ the rules
    def run(self):
        for m in self.mods.values():
            self.check_imports(m)
            self.check_scope(m, m.tree, m.name, [self.module_scope(m)], None)
        for m, q, f, c in self.funcs:
            if c is not None and f.name in c.fields:
                continue            # every instance replaces this method in its constructor
            self.check_assigned(m, q, f)
            self.check_body(m, q, f, c)
        for m in self.mods.values():
            self.check_body(m, m.name, m.tree, None)
        return self.results

    def module_scope(self, m):
        return None

    def check_imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                d = m._abs(n)
                for a in n.names:
                    if a.name == '*':
                        continue
                    self.count('imported-name-exists')
                    if d.split('.')[0] == self.project.package and d not in self.mods:
                        self.bad('imported-name-exists', m.name, '%s' % d, m, n, 'module %s does not exist' % d)
                    elif self.module_attr(d, a.name) is None:
                        self.bad('imported-name-exists', m.name, '%s.%s' % (d, a.name), m, n,
                                 'module %s has no name %s' % (d, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.count('imported-name-exists')
                    if a.name.split('.')[0] == self.project.package and a.name not in self.mods:
                        self.bad('imported-name-exists', m.name, a.name, m, n, 'module %s does not exist' % a.name)

    def locals_of(self, f):
        """Names bound in a function's own scope."""
        out, glob, nonloc = set(), set(), set()
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.add(x.arg)

        def go(n):
            if isinstance(n, (ast.ClassDef,) + FUNC):
                out.add(n.name)
                for d in n.decorator_list:
                    go(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, COMP):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonloc.update(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in (f.body if isinstance(f.body, list) else [f.body]):
            go(s)
        return (out - glob) - nonloc

    def check_scope(self, m, node, qual, scopes, cls):
        """Every loaded name is bound in an enclosing scope, the module, or the builtins."""
        def bound(name, scopes):
            for s in scopes:
                if s is not None and name in s:
                    return True
            return self.resolve_global(m, name) is not None

        def go(n, scopes, qual):
            if isinstance(n, FUNC) or isinstance(n, ast.Lambda):
                a = n.args
                for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                    go(d, scopes, qual)
                if isinstance(n, FUNC):
                    for d in n.decorator_list:
                        go(d, scopes, qual)
                    for x in a.posonlyargs + a.args + a.kwonlyargs:
                        if x.annotation is not None:
                            go(x.annotation, scopes, qual)
                    if n.returns is not None:
                        go(n.returns, scopes, qual)
                # a class body's names are not visible in its methods
                inner = [s for s in scopes if not isinstance(s, frozenset)] + [self.locals_of(n)]
                q = qual + '.' + (n.name if isinstance(n, FUNC) else '<lambda>')
                for s in (n.body if isinstance(n.body, list) else [n.body]):
                    go(s, inner, q)
                return
            if isinstance(n, ast.ClassDef):
                for b in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                    go(b, scopes, qual)
                names = set()
                for s in n.body:
                    for x in self.shallow_names(s):
                        names.add(x)
                for s in n.body:
                    go(s, scopes + [frozenset(names)], qual + '.' + n.name)
                return
            if isinstance(n, COMP):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                go(n.generators[0].iter, scopes, qual)
                inner = scopes + [own]
                for k, g in enumerate(n.generators):
                    if k:
                        go(g.iter, inner, qual)
                    for i in g.ifs:
                        go(i, inner, qual)
                if isinstance(n, ast.DictComp):
                    go(n.key, inner, qual)
                    go(n.value, inner, qual)
                else:
                    go(n.elt, inner, qual)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                self.count('name-is-defined')
                if not bound(n.id, scopes):
                    self.bad('name-is-defined', qual, n.id, m, n, 'name %s is not defined anywhere' % n.id)
                return
            for c in ast.iter_child_nodes(n):
                go(c, scopes, qual)
        for s in node.body:
            go(s, [], qual)

    def shallow_names(self, s):
        if isinstance(s, (ast.ClassDef,) + FUNC):
            yield s.name
            return
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                yield x.id

    def check_assigned(self, m, qual, f):
        """A local variable is assigned on the way to its use.

        State: None (unreachable) or (may, must) where `may` are the locals assigned on some path and `must` those assigned on
        every path through plain conditionals; loops, try and with are taken to run.  Inside a conditional branch a variable
        that is only sometimes assigned is given the benefit of the doubt (correlated conditions).
        """
        loc = self.locals_of(f)
        params = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + ([f.args.vararg] if f.args.vararg else [])
                  + ([f.args.kwarg] if f.args.kwarg else [])}
        reported = set()
        single = {}

        def single_if(name):
            """All assignments of the variable are inside one conditional statement."""
            if name not in single:
                stores = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                ok = False
                for i in ast.walk(f):
                    if isinstance(i, ast.If):
                        inside = {id(x) for x in ast.walk(i)}
                        if all(id(x) in inside for x in stores):
                            ok = True
                single[name] = ok and bool(stores)
            return single[name]

        def use(e, st):
            if st is None or e is None:
                return
            for n in self.own_names(e):
                if n.id in loc and n.id not in params:
                    self.count('local-is-assigned')
                    if n.id in reported:
                        continue
                    if n.id not in st[0]:
                        reported.add(n.id)
                        self.bad('local-is-assigned', qual, n.id, m, n, 'local variable %s is used before any assignment' % n.id)
                    elif n.id not in st[1] and single_if(n.id):
                        reported.add(n.id)
                        self.bad('local-is-assigned', qual, n.id, m, n,
                                 'local variable %s is assigned in one branch only but used on all paths' % n.id)

        def add(st, names):
            if st is None:
                return None
            names = set(names)
            return (st[0] | names, st[1] | names)

        def targets(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    yield x.id

        def wal(e):
            return [x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)] if e is not None else []

        def join(a, b):
            if a is None:
                return b
            if b is None:
                return a
            return (a[0] | b[0], a[1] & b[1])

        def optimistic(st):
            return None if st is None else (st[0], set(st[0]) | set(st[1]))

        def block(body, st):
            for s in body:
                st = stmt(s, st)
            return st

        def all_stores(body):
            out = set()
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, (ast.ClassDef,) + FUNC):
                        out.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for al in x.names:
                            out.add((al.asname or al.name).split('.')[0])
            return out

        def stmt(s, st):
            if st is None:
                return None
            if isinstance(s, ast.Assign):
                use(s.value, st)
                st = add(st, wal(s.value))
                for t in s.targets:
                    use(t, st)
                for t in s.targets:
                    st = add(st, targets(t))
                return st
            if isinstance(s, ast.AugAssign):
                use(s.value, st)
                if isinstance(s.target, ast.Name):
                    n = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
                    use(n, st)
                    return add(st, [s.target.id])
                use(s.target, st)
                return st
            if isinstance(s, ast.AnnAssign):
                use(s.value, st)
                if s.value is not None and isinstance(s.target, ast.Name):
                    return add(st, [s.target.id])
                return st
            if isinstance(s, (ast.Return, ast.Raise)):
                for e in ast.iter_child_nodes(s):
                    use(e, st)
                return None
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, ast.If):
                use(s.test, st)
                st = add(st, wal(s.test))
                a = block(s.body, optimistic(st))
                b = block(s.orelse, optimistic(st)) if s.orelse else st
                if isinstance(s.test, ast.Constant):
                    return a if s.test.value else b
                # drop the benefit of the doubt again
                def back(x):
                    if x is None:
                        return None
                    new = x[0] - st[0]
                    return (x[0], (x[1] & new) | st[1] | (x[1] & assigned_in))
                assigned_a = all_stores(s.body)
                assigned_b = all_stores(s.orelse)
                assigned_in = assigned_a
                a = back(a)
                assigned_in = assigned_b
                b = back(b) if s.orelse else b
                return join(a, b)
            if isinstance(s, (ast.For, ast.AsyncFor)):
                use(s.iter, st)
                inner = add(st, targets(s.target))
                names = all_stores(s.body) | set(targets(s.target))
                block(s.body, (inner[0] , inner[1]) if first_pass_ok(s, inner) else add(inner, names))
                st2 = add(st, names)
                return block(s.orelse, st2)
            if isinstance(s, ast.While):
                use(s.test, st)
                names = all_stores(s.body)
                block(s.body, add(st, wal(s.test)))
                st2 = add(st, names | set(wal(s.test)))
                return block(s.orelse, st2)
            if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
                body = block(s.body, st)
                may = st[0] | all_stores(s.body)
                outs = [block(s.orelse, body)]
                for h in s.handlers:
                    hs = (set(may), set(may))
                    if h.name:
                        hs = add(hs, [h.name])
                    outs.append(block(h.body, hs))
                r = None
                for o in outs:
                    if o is not None:
                        r = o if r is None else (r[0] | o[0], r[1] | o[1])
                if s.finalbody:
                    block(s.finalbody, (set(may), set(may)))
                    r = add(r, all_stores(s.finalbody))
                return r
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    use(i.context_expr, st)
                    if i.optional_vars is not None:
                        st = add(st, targets(i.optional_vars))
                return block(s.body, st)
            if isinstance(s, (ast.ClassDef,) + FUNC):
                for d in s.decorator_list:
                    use(d, st)
                return add(st, [s.name])
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                return add(st, [(al.asname or al.name).split('.')[0] for al in s.names])
            if isinstance(s, ast.Delete):
                return st
            if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
                return st
            if isinstance(s, (ast.Expr, ast.Assert)):
                for e in ast.iter_child_nodes(s):
                    use(e, st)
                    st = add(st, wal(e))
                return st
            return add(st, all_stores([s]))

        def first_pass_ok(s, inner):
            # a variable first assigned later in the body may come from an earlier iteration only if the body
            # can be reached again; the first iteration still needs it, unless under a conditional (benefit of the doubt)
            return True

        block(f.body, (set(params), set(params)))

    def own_names(self, e):
        """Names loaded when the expression itself is evaluated (deferred bodies are left out)."""
        out = []

        def go(n, hidden):
            if isinstance(n, ast.Lambda) or isinstance(n, (ast.ClassDef,) + FUNC):
                if isinstance(n, ast.Lambda):
                    for d in n.args.defaults:
                        go(d, hidden)
                return
            if isinstance(n, COMP):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                own |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
                go(n.generators[0].iter, hidden)
                h = hidden | own
                if isinstance(n, ast.GeneratorExp):
                    return
                for k, g in enumerate(n.generators):
                    if k:
                        go(g.iter, h)
                    for i in g.ifs:
                        go(i, h)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    go(x, h)
                return
            if isinstance(n, ast.NamedExpr):
                go(n.value, hidden)
                return
            if isinstance(n, ast.BoolOp):
                go(n.values[0], hidden)
                for v in n.values[1:]:
                    go(v, hidden | {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)})
                return
            if isinstance(n, ast.IfExp):
                go(n.test, hidden)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in hidden:
                out.append(n)
                return
            for c in ast.iter_child_nodes(n):
                go(c, hidden)
        go(e, set())
        return out

    # ------------------------------------------------------------------ attributes, calls and formats in a body
    def own_nodes(self, f):
        """Nodes of a function or module body without nested function and class bodies (lambdas and comprehensions included)."""
        st = list(f.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.ClassDef,) + FUNC):
                st.extend(n.decorator_list)
                continue
            yield n
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.ClassDef,) + FUNC):
                    for d in c.decorator_list:
                        st.append(d)
                    continue
                st.append(c)
        # statements that are definitions themselves are skipped by the caller

    def local_types(self, m, f, c):
        """Locals of f that are bound exactly once, by constructing a package class."""
        if not isinstance(f, FUNC):
            return {}
        stores = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            elif isinstance(n, ast.arg):
                stores[n.arg] = stores.get(n.arg, 0) + 1
        out = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and stores.get(n.targets[0].id) == 1 and isinstance(n.value, ast.Call):
                r = self.resolve_in(m, f, n.value.func)
                if isinstance(r, Cls):
                    out[n.targets[0].id] = r
        return out

    def resolve_in(self, m, f, e):
        """Resolution of a callee inside function f: locals shadow globals."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name):
            return ('value',)
        if isinstance(f, FUNC) and self.is_local_name(f, root.id):
            for c in self.classes:
                if c.module is m and c.name == root.id and isinstance(e, ast.Name) and any(x is c.node for x in ast.walk(f)):
                    return c
            return ('value',)
        return self.resolve_expr(m, e, {})

    def is_local_name(self, f, name):
        k = id(f)
        if not hasattr(self, '_loc'):
            self._loc = {}
            self._outer = {}
            for m, q, g, c in self.funcs:
                inner = {x.id for n in ast.walk(g) if isinstance(n, COMP) for k in n.generators for x in ast.walk(k.target)
                         if isinstance(x, ast.Name)}
                inner |= {x.arg for n in ast.walk(g) if isinstance(n, ast.Lambda) for x in ast.walk(n.args) if isinstance(x, ast.arg)}
                self._loc[id(g)] = self.locals_of(g) | inner
                for x in ast.walk(g):
                    if x is not g and isinstance(x, FUNC):
                        self._outer.setdefault(id(x), []).append(g)
        if name in self._loc.get(k, ()):
            return True
        return any(name in self._loc[id(g)] for g in self._outer.get(k, ()))

    def check_body(self, m, qual, f, cls):
        types = self.local_types(m, f, cls)
        selfname = None
        if cls is not None and isinstance(f, FUNC) and f.args.args and not self.is_static(f):
            selfname = f.args.args[0].arg
            if any(isinstance(n, ast.Name) and n.id == selfname and isinstance(n.ctx, ast.Store) for n in ast.walk(f)):
                selfname = None
        is_cls_method = cls is not None and isinstance(f, FUNC) and (
            any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decorator_list) or f.name == '__new__')
        for n in self.own_nodes(f):
            if isinstance(n, (ast.ClassDef,) + FUNC):
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.check_attr(m, qual, f, cls, selfname, is_cls_method, types, n)
            elif isinstance(n, ast.Call):
                self.check_call(m, qual, f, cls, selfname, is_cls_method, types, n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.check_percent(m, qual, n)

    def comp_shadow(self, f, name):
        return False

    def instance_type(self, m, f, cls, selfname, types, e):
        """Package class of an expression's value, if certain."""
        if isinstance(e, ast.Name):
            if e.id in types:
                return types[e.id]
            return None
        if isinstance(e, ast.Call):
            r = self.resolve_in(m, f, e.func)
            return r if isinstance(r, Cls) else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and selfname and e.value.id == selfname and cls is not None:
            if e.attr in self.stray or self.stray_open:
                return None
            ts = set()
            for c in self.related(cls):
                if e.attr in c.members:
                    return None
                for v, g in c.fields.get(e.attr, ()):
                    if v is None:
                        return None
                    mm = c.module
                    t = None
                    if isinstance(v, ast.Call):
                        t = self.resolve_in(mm, g, v.func)
                    elif isinstance(v, ast.Name):
                        t = self.local_types(mm, g, c).get(v.id)
                    if not isinstance(t, Cls):
                        return None
                    ts.add(t)
            if len(ts) == 1:
                return list(ts)[0]
        return None

    def check_attr(self, m, qual, f, cls, selfname, is_cls, types, n):
        rule = 'attribute-exists'
        self.count(rule)
        txt = ast.unparse(n)
        # hasattr-guarded accesses are the code's own business
        if isinstance(n.value, ast.Name) and selfname and n.value.id == selfname:
            if cls.node.name and self.class_has(self.related(cls), n.attr) is False:
                self.bad(rule, qual, '%s.%s' % (cls.name, n.attr), m, n, 'no class of the hierarchy of %s ever defines %s' % (cls.name, n.attr))
            return
        r = self.resolve_in(m, f, n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else ('value',)
        if isinstance(r, tuple) and r[0] == 'module':
            x = self.resolve_expr(m, n, {})
            if x is None:
                self.bad(rule, qual, txt, m, n, 'module %s has no name %s' % (r[1], n.attr))
            return
        if isinstance(r, tuple) and r[0] == 'ext':
            k = r[1].split('.')
            if k[0] == 'casadi' and k[-1] in self.cas['classes'] and len(k) == 2:
                if not self.cas_member(k[-1], n.attr) and n.attr not in self.npd['members']['type']:
                    self.bad(rule, qual, txt, m, n, 'casadi class %s has no member %s' % (k[-1], n.attr))
                return
            if len(k) == 1 and k[0] in self.npd['members']:
                if n.attr not in self.npd['members'][k[0]] and n.attr not in self.npd['members']['type']:
                    self.bad(rule, qual, txt, m, n, 'builtin %s has no member %s' % (k[0], n.attr))
                return
        if isinstance(r, Cls):
            if self.class_has(self.mro(r), n.attr) is False and n.attr not in self.npd['members']['type']:
                self.bad(rule, qual, txt, m, n, 'class %s has no member %s' % (r.name, n.attr))
            return
        t = self.instance_type(m, f, cls, selfname, types, n.value)
        if t is not None and not (isinstance(n.value, ast.Name) and self.comp_shadow(f, n.value.id)):
            if self.class_has(self.mro(t), n.attr) is False:
                self.bad(rule, qual, '%s.%s' % (t.name, n.attr), m, n, 'an instance of %s has no attribute %s' % (t.name, n.attr))
            return
        if n.attr not in self.all_attr_names:
            self.bad(rule, qual, txt, m, n, 'no known type has an attribute %s' % n.attr)

    def ctor(self, c):
        """('init'|'new', FunctionDef) of a class, None when there is no own constructor, False when it cannot be known."""
        for x in self.linear(c):
            for nm in ('__init__', '__new__'):
                if nm in x.members:
                    return x.members[nm] if isinstance(x.members[nm], FUNC) else False
            if x.ext or x.unknown_base:
                if x.ext == ['object']:
                    continue
                return False
        return None

    def linear(self, c):
        out = [c]
        for b in c.bases:
            for x in self.linear(b):
                if x not in out:
                    out.append(x)
        return out

    def check_call(self, m, qual, f, cls, selfname, is_cls, types, n):
        rule = 'call-matches-signature'
        txt = ast.unparse(n.func)
        # string formatting
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            s = self.const_str(n.func.value)
            if s is not None:
                self.check_format(m, qual, n, s)
                return
        cand = []           # (FunctionDef, number of implicit arguments)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and selfname and n.func.value.id == selfname and not is_cls:
            rel = self.related(cls)
            if any(n.func.attr in c.fields for c in rel):
                return
            for c in rel:
                g = c.members.get(n.func.attr)
                if g is not None:
                    if not isinstance(g, FUNC):
                        return
                    cand.append((g, 0 if self.is_static(g) else 1))
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) \
                and n.func.value.func.id == 'super' and cls is not None:
            for c in self.linear(cls)[1:]:
                if n.func.attr in c.members:
                    g = c.members[n.func.attr]
                    if isinstance(g, FUNC):
                        cand.append((g, 0 if n.func.attr == '__new__' else 1))
                    break
                if c.ext or c.unknown_base:
                    break
        else:
            r = self.resolve_in(m, f, n.func)
            if isinstance(r, Cls):
                g = self.ctor(r)
                if g is False:
                    return
                if g is None:
                    self.count(rule)
                    if (n.args or n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                        self.bad(rule, qual, txt, m, n, 'class %s takes no arguments' % r.name)
                    return
                cand.append((g, 1))
            elif isinstance(r, tuple) and r[0] == 'func':
                cand.append((r[2], 0))
            elif isinstance(r, tuple) and r[0] == 'ext' and r[1] in self.npd['signatures']:
                self.check_ext(m, qual, n, r[1])
                return
            elif isinstance(n.func, ast.Attribute):
                rr = self.resolve_in(m, f, n.func.value) if isinstance(n.func.value, (ast.Name, ast.Attribute)) else ('value',)
                if isinstance(rr, Cls):
                    for c in self.linear(rr):
                        if n.func.attr in c.members:
                            g = c.members[n.func.attr]
                            if isinstance(g, FUNC):
                                cand.append((g, 1 if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in g.decorator_list) else 0))
                            break
                        if c.ext and c.ext != ['object']:
                            break
                else:
                    t = self.instance_type(m, f, cls, selfname, types, n.func.value)
                    if t is not None:
                        for c in self.linear(t):
                            if n.func.attr in c.fields:
                                return
                            if n.func.attr in c.members:
                                g = c.members[n.func.attr]
                                if isinstance(g, FUNC):
                                    cand.append((g, 0 if self.is_static(g) else 1))
                                break
                    elif n.func.attr not in self.outside_attr_names():
                        # the attribute exists in the package only: every definition of it is a candidate
                        defs = []
                        for c in self.classes:
                            if n.func.attr in c.fields:
                                return
                            if n.func.attr in c.members:
                                g = c.members[n.func.attr]
                                if not isinstance(g, FUNC):
                                    return
                                defs.append((g, 0 if self.is_static(g) else 1))
                        if any(isinstance(k, ast.FunctionDef) and k.name == n.func.attr for mm in self.mods.values() for k in mm.tree.body):
                            return
                        cand.extend(defs)
        if not cand:
            return
        self.count(rule)
        why = []
        for g, k in cand:
            if any(not self.transparent(d) for d in g.decorator_list):
                return
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in g.decorator_list):
                return
            w = self.mismatch(n, [(a.arg, 'P', False) for a in ()], g, k)
            if w is None:
                return
            why.append(w)
        self.bad(rule, qual, txt.split('.')[-1] + '()', m, n, 'call does not match the signature of %s: %s' % (cand[0][0].name, '; '.join(sorted(set(why)))))

    def outside_attr_names(self):
        if not hasattr(self, '_outside'):
            out = set()
            for v in self.npd['members'].values():
                out |= set(v)
            for v in self.cas['classes'].values():
                out |= set(v['members'])
            for k in ('numpy', 'numpy.linalg', 'operator', 'collections', 'collections.abc', 'builtins'):
                out |= set(self.npd[k])
            out |= set(self.cas['names'])
            self._outside = out
        return self._outside

    @staticmethod
    def transparent(d):
        if isinstance(d, ast.Call):
            d = d.func
        return isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod', 'deprecated')

    def mismatch(self, call, _, g, implicit):
        a = g.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ndef = len(a.defaults)
        required = pos[:len(pos) - ndef]
        kwonly = [x.arg for x in a.kwonlyargs]
        kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = len(call.args) + implicit
        if not star and a.vararg is None and npos > len(pos):
            return '%d positional arguments for %d parameters' % (npos - implicit, len(pos) - implicit)
        given = set(pos[:npos]) if not star else set()
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
                return 'unexpected keyword %s' % k.arg
            if k.arg in given and not star:
                return 'parameter %s given twice' % k.arg
        if not star and not dstar:
            names = given | {k.arg for k in call.keywords}
            miss = [r for r in required + kwreq if r not in names]
            if miss:
                return 'missing argument %s' % ', '.join(miss)
        return None

    def check_ext(self, m, qual, n, name):
        rule = 'call-matches-signature'
        ps = self.npd['signatures'][name]
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        self.count(rule)
        pos = [p for p in ps if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
        if not any(p[1] == 'VAR_POSITIONAL' for p in ps) and len(n.args) > len(pos):
            self.bad(rule, qual, ast.unparse(n.func) + '()', m, n, 'too many positional arguments for %s' % name)
            return
        names = {p[0] for p in ps if p[1] in ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY')}
        for k in n.keywords:
            if k.arg not in names and not any(p[1] == 'VAR_KEYWORD' for p in ps):
                self.bad(rule, qual, ast.unparse(n.func) + '()', m, n, 'unexpected keyword %s for %s' % (k.arg, name))
                return
        given = {p[0] for p in pos[:len(n.args)]} | {k.arg for k in n.keywords}
        miss = [p[0] for p in ps if not p[2] and p[1] not in ('VAR_POSITIONAL', 'VAR_KEYWORD') and p[0] not in given]
        if miss:
            self.bad(rule, qual, ast.unparse(n.func) + '()', m, n, 'missing argument %s for %s' % (', '.join(miss), name))

    def const_str(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.const_str(e.left), self.const_str(e.right)
            if a is not None and b is not None:
                return a + b
        return None

    def check_format(self, m, qual, n, s):
        rule = 'format-matches-values'
        self.count(rule)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        try:
            fields = [x[1] for x in string.Formatter().parse(s) if x[1] is not None]
        except ValueError as e:
            self.bad(rule, qual, '%r.format' % s[:60], m, n, 'invalid format string: %s' % e)
            return
        auto = 0
        names = {k.arg for k in n.keywords}
        for x in fields:
            base = re.split(r'[.\[]', x, maxsplit=1)[0]
            if base == '':
                idx = auto
                auto += 1
            elif base.isdigit():
                idx = int(base)
            else:
                if base not in names:
                    self.bad(rule, qual, '%r.format' % s[:60], m, n, 'format field {%s} has no value' % base)
                    return
                continue
            if idx >= len(n.args):
                self.bad(rule, qual, '%r.format' % s[:60], m, n, 'format field %d has no value' % idx)
                return

    def check_percent(self, m, qual, n):
        rule = 'format-matches-values'
        s = self.const_str(n.left)
        if s is None:
            return
        self.count(rule)
        convs = [c for c in re.findall(r'%(\(\w*\))?[-#0 +]*(\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', s) if c[2] != '%']
        if len(re.findall(r'%', re.sub(r'%(\(\w*\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa%]', '', s))):
            self.bad(rule, qual, '%r %%' % s[:60], m, n, 'invalid conversion in format string')
            return
        need = len(convs) + sum(1 for c in convs if c[1] == '*')
        what = '%r %%' % s[:60]
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            if any(c[0] for c in convs):
                self.bad(rule, qual, what, m, n, 'named conversion with a tuple of values')
            elif len(n.right.elts) != need:
                self.bad(rule, qual, what, m, n, '%d conversions, %d values' % (need, len(n.right.elts)))
            return
        if any(c[0] for c in convs) or isinstance(n.right, ast.Dict):
            return
        if need == 0:
            self.bad(rule, qual, what, m, n, 'no conversion for the value')
        elif need > 1 and self.not_tuple(n.right):
            self.bad(rule, qual, what, m, n, '%d conversions, one value' % need)

    @staticmethod
    def not_tuple(e):
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Compare)):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', 'len', 'list', 'int', 'float', 'set', 'dict')
