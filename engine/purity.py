"""C28: no function changes what it was given, except where changing it is what the function is for."""
import ast
import json
import os

import effects

HERE = os.path.dirname(os.path.abspath(__file__))
SELF = ('__init__', '__new__', '__setstate__', '__setitem__', '__delitem__', '__setattr__', '__delattr__', 'buildMap')
# what defines a structure, shared by all objects built on it: item assignment must leave it alone
DEFINITION = ('struct', 'entries', 'order', 'canonicalIndices', 'getCanonicalIndex', 'labels', 'getLabel')
# assignment through a power index: the dispatcher that carries the target writes into the target
WRITERS = {'casadi_extras.structure3.SetterDispatcher.__call__': ('self', 'master'),
           'casadi_extras.structure3.SetterDispatcher.callableOuter': ('self', 'master'),
           'casadi_extras.structure3.Structure.traverseByPowerIndex': ('dispatcher', 'master'),
           'casadi_extras.structure3.StructEntry.traverseByPowerIndex': ('dispatcher', 'master')}
LOSSY = ('len', 'id', 'type', 'round', 'int', 'bool', 'hash')


class Purity(object):
    def __init__(self, project, entries):
        self.E = effects.Effects(project).run()
        self.entries = entries
        self.readers = {}       # attribute -> functions that read it
        self.callers = {}       # function name -> functions that mention it
        for k, f in self.E.funcs.items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        self.readers.setdefault(n.attr, set()).add(k)
                        self.callers.setdefault(n.attr, set()).add(k)
                elif isinstance(n, ast.Name):
                    self.callers.setdefault(n.id, set()).add(k)

    def is_entry(self, k):
        n = k.rstrip('=~').rpartition('.')[2]
        if self.entries is not None and k not in self.entries:
            return False
        return not n.startswith('_') or n.startswith('__') and n.endswith('__')

    def own(self, f):
        return f.pos[0] if f.cls and f.pos and f.kind in ('method', 'property', 'setter', 'deleter', 'cached_property') else None

    def allowed(self, f, x, what):
        own = self.own(f)
        if x[0] in ('P', 'F', 'I') and x[1] == own and (f.name in SELF or f.kind in ('setter', 'deleter')):
            if f.name == '__setitem__' and x[0] == 'F' and x[2] in DEFINITION:
                # a view on part of a structured object writes into that object
                return f.cls.endswith('.Prefixer') and x[2] == 'struct' and '__setitem__' in what or 'item' == what and f.cls.endswith('.Prefixer')
            return True
        w = WRITERS.get(f.key)
        return w is not None and x[0] == 'F' and x[1:] == w

    def cache(self, via, what, x):
        """None when the function `via` merely keeps a result of its own for later, else the reason it is not that."""
        g = self.E.funcs.get(via)
        if g is None:
            return 'changed outside the package functions'
        own = self.own(g)
        hit = [y for (y, w) in self.E.sum[via].effects if w == what and (y[0] == 'P' and y[1] == own or y[0] == 'F' and y[1] == own or y[0] == 'G')]
        if own is None and x[0] != 'G' or not hit:
            return ''
        if what.startswith('in-place'):
            return 'every call changes it further'
        y = hit[0]
        if y[0] == 'P':
            if not what.startswith('attribute '):
                return ''
            attr = what[len('attribute '):]
            readers = self.readers.get(attr, set())
        elif y[0] == 'F':
            if what not in ('item', 'setdefault()', 'update()'):
                return ''
            attr = y[2]
            readers = self.readers.get(attr, set())
        else:
            if what not in ('item', 'setdefault()', 'update()', 'rebinding'):
                return ''
            attr = y[2]
            readers = self.callers.get(attr, set())
        inits = {k for k in readers if k.rpartition('.')[2] in ('__init__', '__setstate__', '__new__')}
        callers = self.callers.get(g.name, set())
        callees = {k for k in readers if g.key in self.callers.get(self.E.funcs[k].name, set())}
        others = readers - {via} - inits - callers - callees
        if others:
            return 'also read by %s' % ', '.join(sorted(o.split('.', 1)[1] for o in others))
        if not self.readers.get(attr) and y[0] != 'G':
            return None
        return self.keyed(g, attr, own)

    def keyed(self, g, attr, own):
        """A kept result must be found again only for the same arguments."""
        dep = {p: {p} for p in g.pos + g.kwonly + [g.star, g.dstar] if p and p != own}

        def names(e, lossless=False):
            out = set()
            todo = [e]
            while todo:
                n = todo.pop()
                if lossless and isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in LOSSY:
                    continue
                if lossless and isinstance(n, ast.Attribute) and n.attr in ('shape', 'size', 'ndim', 'dtype', '__class__'):
                    continue
                if isinstance(n, ast.Name):
                    out |= dep.get(n.id, set())
                todo.extend(ast.iter_child_nodes(n))
            return out
        full = {k: set(v) for k, v in dep.items()}
        exact = {k: set(v) for k, v in dep.items()}
        for _ in range(3):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for m in ast.walk(t):
                            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                                dep = full
                                a = names(n.value)
                                dep = exact
                                b = names(n.value, True)
                                full.setdefault(m.id, set()).update(a)
                                exact.setdefault(m.id, set()).update(b)
        tests = set()
        dep = exact
        for n in ast.walk(g.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                tests |= names(n.test, True)
            elif isinstance(n, ast.ExceptHandler):
                pass
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    base = t.value if isinstance(t, ast.Subscript) else t
                    hit = isinstance(base, ast.Attribute) and base.attr == attr or isinstance(base, ast.Name) and base.id == attr
                    if not hit:
                        continue
                    dep = full
                    need = names(n.value)
                    dep = exact
                    have = tests | (names(t.slice, True) if isinstance(t, ast.Subscript) else set())
                    if need - have:
                        return 'kept without regard to argument %s' % ', '.join(sorted(need - have))
        return None

    def run(self):
        """[(rule, instance, verdict, where, message)]"""
        out = []
        E = self.E
        for k in sorted(E.funcs):
            f = E.funcs[k]
            if not self.is_entry(k):
                continue
            where = '%s:%d' % (os.path.relpath(f.module.path, E.project.root), f.node.lineno)
            seen = set()
            for (x, what), (loc, via) in sorted(E.sum[k].effects.items(), key=str):
                if self.allowed(f, x, what):
                    continue
                why = self.cache(via, what, x)
                if why is None:
                    continue
                obj = {'P': 'argument %s', 'I': 'an item of argument %s', 'F': 'what argument %s holds in %s', 'G': 'module-level %s.%s',
                       'C': 'class attribute %s.%s', 'D': 'the default value of %s of %s'}[x[0]]
                obj = obj % (x[2], x[1]) if x[0] == 'D' else obj % x[1:]
                if x[0] in ('P', 'I', 'F') and x[1] == self.own(f):
                    obj = 'the object itself' if x[0] == 'P' else 'its items' if x[0] == 'I' else 'what it holds in ' + x[2]
                if (x, loc) in seen:
                    continue
                seen.add((x, loc))
                out.append(('no-side-effects', '%s: %s' % (k, obj), 'violation', loc,
                            '%s changes %s (%s in %s)%s' % (k, obj, what, via, '; ' + why if why else '')))
            if not seen:
                out.append(('no-side-effects', k, 'held', where, ''))
            # a default value kept in the object and changed there is shared between objects
            own = self.own(f)
            for (x, attr, v) in sorted(E.sum[k].stores, key=str):
                if v[0] == 'D' and x == ('P', own):
                    for h in sorted(E.funcs):
                        g = E.funcs[h]
                        if g.cls and (g.cls == f.cls or g.cls in E.subs.get(f.cls, ())):
                            for (y, what), (loc, via) in E.sum[h].effects.items():
                                if y == ('F', self.own(g), attr):
                                    out.append(('default-not-shared', '%s: %s' % (k, v[2]), 'violation', loc,
                                                'the default value of %s is kept as %s and changed by %s' % (v[2], attr, h)))
        return out


def entries():
    with open(os.path.join(HERE, '..', 'data', 'functions.json')) as f:
        return set(json.load(f))
