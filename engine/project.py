"""Source model of the package under analysis: modules, classes, functions and their resolution."""
import ast
import os


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.bindings = {}      # name -> list of ('def', node) | ('class', node) | ('import', dotted) | ('from', mod, name) | ('assign', node, expr)
        self.stars = []         # modules imported with *
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._collect(tree.body)

    def _pkg(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def _abs(self, node):
        if not node.level:
            return node.module or ''
        base = self._pkg().split('.')
        base = base[:len(base) - (node.level - 1)]
        if node.module:
            base = base + node.module.split('.')
        return '.'.join(base)

    def _bind(self, name, b):
        self.bindings.setdefault(name, []).append(b)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(n.name, ('def', n))
            elif isinstance(n, ast.ClassDef):
                self._bind(n.name, ('class', n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self._bind(a.asname, ('import', a.name))
                    else:
                        self._bind(a.name.split('.')[0], ('import', a.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                m = self._abs(n)
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(m)
                    else:
                        self._bind(a.asname or a.name, ('from', m, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, ('assign', n, n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._bind(e.id, ('assign_item', n, n.value, k))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self._bind(n.target.id, ('assign', n, n.value))
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect(h.body)
                self._collect(n.orelse)
                self._collect(n.finalbody)


class Project(object):
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                self.load(rel, p)

    def load(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        self.modules[name] = m
        return m

    def add_source(self, name, path):
        return self.load(name, path)
