"""Value-flow analysis of a Python subset: abstract interpretation over value terms
(global value numbering with gated joins).

Every expression is given a value number: a term in normal form (terms.py, arrays.py).
Control-flow merges join the reaching definitions with gated phi nodes; loops over
symbolic ranges are summarised by recognising recurrences; calls are replaced by the
summary of the callee.  Nothing is executed and no path is enumerated.  DESIGN.md says
how this relates to symbolic execution.
"""
import ast
import itertools

from terms import *
import terms as tm
import arrays as ar
from arrays import is_arr, as_arr, type_of, elem, mk, ew
import seqs
from seqs import mk_list, mk_seq
import spmodel

MAX_UNROLL = 24
MAX_DEPTH = 90


class Undecidable(Exception):
    pass


class Fn(object):
    __slots__ = ('node', 'module', 'frame', 'cls', 'name', 'defaults', 'kwdefaults', 'ident', 'heapframe')

    def __init__(self, node, module, frame, cls, name):
        self.node = node
        self.module = module
        self.frame = frame      # address of the enclosing frame or None
        self.cls = cls
        self.name = name
        self.defaults = None
        self.kwdefaults = None


class Cls(object):
    def __init__(self, name, module, node, bases, frame):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases      # list of terms
        self.frame = frame
        self.attrs = {}         # name -> term (functions raw, with decorators applied), or ('property', fn)


class St(object):
    __slots__ = ('heap', 'alive', 'ev')

    def __init__(self, heap=None, alive=TRUE, ev=()):
        self.heap = {} if heap is None else heap
        self.alive = alive
        self.ev = ev

    def copy(self):
        return St(dict(self.heap), self.alive, self.ev)


UNDEF = raw('undef')
OID = ('oid',)


class Exit(object):
    __slots__ = ('kind', 'st', 'val', 'loc')

    def __init__(self, kind, st, val=None, loc=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.loc = loc


# ---------------------------------------------------------------------------------
class Flow(object):
    def __init__(self, project, lib, opaque=(), contracts=None, casadi_names=()):
        self.project = project
        self.lib = lib
        self.opaque = set(opaque)
        self.contracts = contracts or {}
        self.casadi_names = casadi_names
        self.fns = {}
        self.classes = {}
        self.cls_by_node = {}
        self.fn_by_key = {}
        self.globals_memo = {}
        self.module_heap = {}
        self.addr = itertools.count(1)
        self.uid = itertools.count(1)
        self.st = St()
        self.sinks = [[]]
        self.stack = []
        self.origin = {}
        self.loc = ('?', 0)
        self.steps = 0
        self.analysed = {}      # qualname -> (file, line)
        self.call_sites = 0
        self.joins = 0
        self.loops = 0
        self.notes = []
        self.kinds = {}         # symbol or parameter name -> DM, MX or SX
        self.syms = []          # symbols created by MX.sym
        self.module_loading = set()
        self.max_steps = 400000
        self.frames = []        # stack of (frame addr, module, cls, fn)
        self.rewritten = {}

    # ---- bookkeeping
    taint = None
    boxed = False           # matrices are heap cells (obligations about structures), so that stores are seen by every alias

    def note(self, msg):
        m = '%s:%s %s' % (self.loc[0], self.loc[1], msg)
        if m not in self.notes:
            self.notes.append(m)

    def unk(self, why):
        self.note(why)
        return unknown('%s (%s:%s)' % (why, self.loc[0], self.loc[1]))

    # ---- heap
    def alloc(self, obj):
        a = raw('ref', next(self.addr))
        self.st.heap[a] = obj
        return a

    def new_list(self, content):
        return self.alloc(('list', content))

    def new_dict(self, content):
        return self.alloc(('dict', content))

    def deref(self, r):
        o = self.st.heap.get(r)
        if o is None and r in self.module_heap:
            o = self.st.heap[r] = self.module_heap[r]
        return o

    def content(self, t):
        """Value content of list/dict refs."""
        if t.op == 'ref':
            o = self.deref(t)
            if o is not None and o[0] in ('list', 'dict', 'set', 'mat'):
                return o[1]
            if o is not None and o[0] == 'inst' and '__base__' in o[2]:
                return self.content(o[2]['__base__'])
        return t

    # ---- matrices as cells
    def box(self, t, kind=None):
        """Cell holding a matrix value."""
        if not self.boxed or t.op == 'ref' or not spmodel.is_matrix(t):
            return t
        return self.alloc(('mat', t, kind or spmodel.kind(self, t)))

    def unbox(self, t):
        if t.op == 'ref':
            o = self.st.heap.get(t)
            if o is not None and o[0] == 'mat':
                return o[1]
        elif t.op == 'ite' and self.boxed:
            return lift(self.unbox, t)
        return t

    def is_box(self, t):
        return t.op == 'ref' and self.st.heap.get(t, ('',))[0] == 'mat'

    def mat_kind(self, t):
        if self.is_box(t):
            return self.st.heap[t][2]
        return spmodel.kind(self, t)

    def join_kinds(self, ts):
        """Kind of the result of an operation on the given operands."""
        ks = {self.mat_kind(t) for t in ts if self.is_box(t) or is_arr(t) and lib_is_cs(t)}
        if None in ks:
            return None
        for k in ('MX', 'SX'):
            if k in ks:
                return k
        return 'DM' if ks else None

    def mats_out(self, t):
        """Argument of an external function: matrix cells are replaced by their values."""
        if not self.boxed or not tm.has_op(t, ('ref',)):
            return t
        return self._freeze(t, lambda r: self.st.heap.get(r, ('',))[0] in ('mat', 'list', 'dict'), set(), {})

    # ---- identity of arrays and polynomials, which are values otherwise: places that hold the same object
    #
    # heap[OID] maps a place to a token.  Places with one token hold the same object, so a change made through one of them is
    # written to all.  ('view', token): shares memory with the objects of that token; ('amb', tokens): one of these, not known
    # which.  A change through or under such a place makes the others unknown.
    def is_obj(self, v):
        return not self.boxed and (v.op == 'poly1d' or is_arr(v) and v.op != 'ite')

    def oids(self):
        o = self.st.heap.get(OID)
        return o[1] if o is not None else {}

    def peek(self, n):
        """Value of a name or attribute, without evaluating anything that could have effects."""
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return num(n.value)
        p = self.place_of(n)
        return self.read_place(p) if p is not None else None

    def place_of(self, n):
        if isinstance(n, ast.Name):
            f = self.frames[-1][0]
            while f is not None:
                o = self.st.heap.get(f)
                if o is None:
                    return None
                if n.id in o[1]:
                    return ('v', f, n.id)
                f = o[2] if len(o) > 2 else None
            return None
        if isinstance(n, ast.Attribute):
            v = self.peek(n.value)
            if v is not None and v.op == 'ref':
                o = self.deref(v)
                if o is not None and o[0] == 'inst' and n.attr in o[2]:
                    return ('a', v, n.attr)
            return None
        if isinstance(n, ast.Subscript):
            v = self.peek(n.value)
            if v is not None and v.op == 'ref':
                o = self.deref(v)
                i = self.peek(n.slice)
                if o is not None and o[0] == 'list' and i is not None and is_int(i):
                    return ('l', v, i)
        return None

    def read_place(self, p):
        k, a, x = p
        o = self.st.heap.get(a)
        if o is None:
            return None
        if k == 'v':
            return o[1].get(x)
        if k == 'a':
            return o[2].get(x)
        return None

    def write_place(self, p, v):
        k, a, x = p
        o = self.st.heap.get(a)
        if o is None:
            return
        if k == 'v':
            self.set_var(a, x, v)
        elif k == 'a':
            d = dict(o[2])
            d[x] = v
            self.st.heap[a] = ('inst', o[1], d)
        else:
            self.st.heap[a] = ('list', lift(lambda l: seqs.list_store(l, x, v), o[1]))

    def token(self, p):
        d = self.oids()
        t = d.get(p)
        if t is None:
            t = next(self.uid)
            self.set_oid(p, t)
        return t

    def set_oid(self, p, t):
        d = dict(self.oids())
        if t is None:
            if p not in d:
                return
            del d[p]
        else:
            d[p] = t
        self.st.heap[OID] = ('oid', d)

    def link(self, p, src, view=False):
        """The place p was just given the object held by the place src (or a view of it)."""
        if p is None or src is None or p == src:
            return
        t = self.token(src)
        if view and not isinstance(t, tuple):
            t = ('view', t)
        self.set_oid(p, t)

    def unlink(self, p):
        if p in self.oids():
            self.set_oid(p, None)

    def view_source(self, n):
        """Place whose memory the value of an expression shares."""
        if isinstance(n, ast.Subscript):
            return self.place_of(n.value) or self.view_source(n.value)
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            return self.place_of(n.value) or self.view_source(n.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ('reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal') and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy')):
                return self.place_of(n.func.value) or self.view_source(n.func.value)
            if n.func.attr in ('asarray', 'atleast_1d', 'atleast_2d', 'asanyarray', 'ravel', 'reshape', 'squeeze', 'transpose') and n.args:
                return self.place_of(n.args[0]) or self.view_source(n.args[0])
        return None

    def mutate(self, node, v):
        """The object held by the place `node` changes to v."""
        p = self.place_of(node)
        t = self.oids().get(p) if p is not None else None
        if p is not None and p[0] == 'l':
            self.write_place(p, v)
        else:
            self.assign(node, v)
        if p is not None and p[0] == 'l':
            self.shared_element(p[1], p[2], v)
        if t is None:
            return
        self.set_oid(p, t)
        mine = {t} if not isinstance(t, tuple) else set(t[1]) if t[0] == 'amb' else {t[1]}
        for q, u in self.oids().items():
            if q == p:
                continue
            if u == t and not isinstance(t, tuple):
                self.write_place(q, v)
                if q[0] == 'l':
                    self.shared_element(q[1], q[2], v)
            elif mine & ({u} if not isinstance(u, tuple) else set(u[1]) if u[0] == 'amb' else {u[1]}):
                self.write_place(q, self.unk('changed through another name'))

    def shared_element(self, r, i, v):
        """The object at index i of a list changed: lists copied from it, or it from them, hold the same object."""
        t = self.oids().get(('e', r, None))
        if t is None:
            return
        for q, u in self.oids().items():
            if q[0] == 'e' and q[1] is not r and toks(u) & toks(t):
                a, b = self.deref(r)[1], self.deref(q[1])[1]
                if u == t and not isinstance(t, tuple) and a.op != 'unknown' and b.op != 'unknown' and seqs.length(a) is seqs.length(b):
                    self.write_place(('l', q[1], i), v)
                else:
                    self.st.heap[q[1]] = ('list', self.unk('an element is changed through another list'))

    def get_var(self, frame, name):
        o = self.st.heap[frame]
        return o[1].get(name)

    def get_var_in(self, st, frame, name):
        o = st.heap.get(frame)
        return o[1].get(name) if o is not None else None

    def reify_in(self, st, t, mark):
        saved, self.st = self.st, st
        try:
            return self.reify(t, mark)
        finally:
            self.st = saved

    def as_matrix(self, x):
        return None

    def as_cs(self, x):
        """Value of x used as a matrix operand."""
        c = self.content(x)
        if seqs.is_seq(c):
            return self.lib.to_array(self, x)
        cls = self.inst_class(x)
        if cls is not None and cls.args[0].startswith('contract.'):
            r = self.getattr_opt(x, 'cat')
            return x if r is None else r
        if cls is not None and self.boxed and x.op == 'ref':
            for k in spmodel.KINDS:
                m = self.getattr_opt(x, '__%s__' % k)
                if m is not None:
                    return self.unbox(self.call(m, [], {}))
        return self.unbox(x)

    def set_var(self, frame, name, val):
        o = self.st.heap[frame]
        d = dict(o[1])
        d[name] = val
        self.st.heap[frame] = ('frame', d) + o[2:]

    # ---- raising
    def raise_(self, cond, exc):
        """Record that an exception is raised under cond (relative to the current function)."""
        c = and_(self.st.alive, cond)
        if c is FALSE:
            return
        s = self.st.copy()
        s.alive = c
        self.sinks[-1].append(Exit('raise', s, exc, self.loc))
        self.st.alive = and_(self.st.alive, not_(cond))

    # ---- merging
    def merge(self, c, s1, s2):
        """Join of two states; c selects s1."""
        self.joins += 1
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if s1.alive is FALSE:
            return s2
        if s2.alive is FALSE:
            return s1
        heap = {}
        for a in list(s1.heap) + [a for a in s2.heap if a not in s1.heap]:
            o1 = s1.heap.get(a)
            o2 = s2.heap.get(a)
            if o1 is o2:
                heap[a] = o1
            elif o1 is None:
                heap[a] = o2
            elif o2 is None:
                heap[a] = o1
            else:
                heap[a] = self.merge_obj(c, o1, o2)
        # events: common prefix + both suffixes
        n = 0
        for x, y in zip(s1.ev, s2.ev):
            if x is y:
                n += 1
            else:
                break
        ev = s1.ev[:n] + s1.ev[n:] + s2.ev[n:]
        return St(heap, or_(s1.alive, s2.alive), ev)

    def merge_obj(self, c, o1, o2):
        k = o1[0]
        if k == 'oid':
            return ('oid', merge_oids(o1[1], o2[1]))
        if k != o2[0]:
            return ('list', self.unk('merge of different objects'))
        if k in ('frame', 'inst'):
            d = {}
            p = 1 if k == 'frame' else 2
            d1, d2 = o1[p], o2[p]
            for n in list(d1) + [n for n in d2 if n not in d1]:
                v1 = d1.get(n, UNDEF)
                v2 = d2.get(n, UNDEF)
                if v1 is v2:
                    d[n] = v1
                elif v1 is UNDEF:
                    d[n] = raw('maybe', v2) if False else v2
                elif v2 is UNDEF:
                    d[n] = v1
                else:
                    d[n] = ite(c, v1, v2)
            if k == 'frame':
                return ('frame', d) + o1[2:]
            return ('inst', o1[1], d)
        if k == 'mat':
            return (k, ite(c, o1[1], o2[1]), o1[2] if o1[2] == o2[2] else None)
        return (k, ite(c, o1[1], o2[1]))

    def branch(self, c, f1, f2):
        """Evaluate f1 under c and f2 under not c (each returns a value) and join."""
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        if c.op == 'unknown':
            # join of unknown selection: anything changed is unknown
            base = self.st
            self.st = base.copy()
            v1 = f1()
            s1 = self.st
            self.st = base.copy()
            v2 = f2()
            s2 = self.st
            self.st = self.merge(c, s1, s2)
            return v1 if v1 is v2 else c
        base = self.st
        self.st = base.copy()
        self.st.alive = and_(base.alive, c)
        if self.st.alive is FALSE:
            v1, s1 = None, None
        else:
            v1 = f1()
            s1 = self.st
        self.st = base.copy()
        self.st.alive = and_(base.alive, not_(c))
        if self.st.alive is FALSE:
            v2, s2 = None, None
        else:
            v2 = f2()
            s2 = self.st
        if s1 is None and s2 is None:
            self.st = base
            return NONE
        if s1 is None:
            self.st = s2
            return v2
        if s2 is None:
            self.st = s1
            return v1
        self.st = self.merge(c, s1, s2)
        if s1.alive is FALSE:
            return v2
        if s2.alive is FALSE:
            return v1
        return v1 if v1 is v2 else self.ite_val(c, v1, v2)

    def ite_val(self, c, a, b):
        return ite(c, a, b)

    # =============================================================== names
    def lookup(self, name):
        fr, module, cls, fn = self.frames[-1]
        f = fr
        while f is not None:
            o = self.deref(f)
            if o is None:
                break
            if name in o[1]:
                return o[1][name]
            f = o[2]
        return self.global_name(module, name)

    def global_name(self, module, name):
        k = (module.name, name)
        if k in self.globals_memo:
            return self.globals_memo[k]
        b = module.bindings.get(name)
        if b:
            if k in self.module_loading:
                return self.unk('circular global %s' % name)
            self.module_loading.add(k)
            try:
                v = self.eval_binding(module, b[-1], name)
            finally:
                self.module_loading.discard(k)
            self.globals_memo[k] = v
            return v
        for s in module.stars:
            m = self.project.modules.get(s)
            if m is not None:
                v = self.global_name_opt(m, name)
                if v is not None:
                    return v
            elif s == 'casadi':
                if name in self.casadi_names or name == 'casadi':
                    return raw('ext', 'casadi' if name == 'casadi' else 'casadi.' + name)
            elif s == 'verif' and 'verif.' + name in self.lib.MODELS:
                return raw('ext', 'verif.' + name)
        if name == 'Ellipsis':
            return ELLIPSIS
        if name in self.lib.BUILTINS:
            return self.lib.BUILTINS[name] if isinstance(self.lib.BUILTINS, dict) else raw('ext', 'builtins.' + name)
        if name == '__name__':
            return string(module.name)
        return self.unk('unresolved name %s' % name)

    def global_name_opt(self, module, name):
        if name in module.bindings:
            return self.global_name(module, name)
        for s in module.stars:
            m = self.project.modules.get(s)
            if m is not None:
                v = self.global_name_opt(m, name)
                if v is not None:
                    return v
        return None

    def eval_binding(self, module, b, name):
        kind = b[0]
        if kind == 'def':
            return self.in_module(module, lambda: self.make_fn(b[1], module, None, None))
        if kind == 'class':
            return self.in_module(module, lambda: self.make_class(b[1], module, None))
        if kind == 'import':
            return self.module_term(b[1])
        if kind == 'from':
            m = self.project.modules.get(b[1])
            if m is not None:
                if b[2] in m.bindings:
                    return self.global_name(m, b[2])
                sub_ = self.project.modules.get(b[1] + '.' + b[2])
                if sub_ is not None:
                    return raw('module', sub_.name)
                v = self.global_name_opt(m, b[2])
                if v is not None:
                    return v
                return self.unk('cannot import %s from %s' % (b[2], b[1]))
            return raw('ext', self.ext_name(b[1] + '.' + b[2]))
        if kind == 'assign':
            return self.in_module(module, lambda: self.eval(b[2]))
        if kind == 'assign_item':
            return self.in_module(module, lambda: self.getitem(self.eval(b[2]), num(b[3])))
        return self.unk('binding')

    def in_module(self, module, f):
        saved, self.st_loc = self.loc, None
        old = set(self.st.heap)
        fr = raw('ref', next(self.addr))
        self.st.heap[fr] = ('frame', {}, None)
        self.frames.append((fr, module, None, None))
        try:
            return f()
        finally:
            # what a module defines exists from the start, whatever path first refers to it
            self.module_heap.update((a, o) for a, o in self.st.heap.items() if a not in old)
            self.frames.pop()
            self.loc = saved

    def module_term(self, dotted):
        if dotted in self.project.modules:
            return raw('module', dotted)
        return raw('ext', self.ext_name(dotted))

    def ext_name(self, d):
        if d.startswith('casadi.casadi'):
            d = 'casadi' + d[len('casadi.casadi'):]
        return self.lib.ALIASES.get(d, d)

    # =============================================================== functions / classes
    def make_fn(self, node, module, frame, cls, name=None):
        f = Fn(node, module, frame, cls, name or getattr(node, 'name', '<lambda>'))
        k = (id(node), frame)
        t = self.fn_by_key.get(k)
        if t is None:
            t = raw('fn', '%s.%s%s#%d' % (module.name, (cls.name.rpartition('.')[2] + '.') if cls else '', f.name,
                                          len(self.fns)))
            self.fn_by_key[k] = t
            self.fns[t] = f
        f = self.fns[t]
        f.defaults = [self.eval(d) for d in node.args.defaults]
        f.kwdefaults = [self.eval(d) if d is not None else None for d in node.args.kw_defaults]
        res = t
        for d in reversed(getattr(node, 'decorator_list', [])):
            res = self.apply_decorator(d, res)
        return res

    def apply_decorator(self, d, fterm):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            return raw('propset', fterm)
        dv = self.eval(d)
        if dv.op == 'ext':
            n = dv.args[0]
            if n == 'builtins.property':
                return raw('property', fterm)
            if n in ('builtins.staticmethod',):
                return raw('static', fterm)
            if n == 'builtins.classmethod':
                return raw('classm', fterm)
            if n in ('functools.wraps', 'functools.lru_cache', 'functools.cache', 'functools.cached_property'):
                if n == 'functools.cached_property':
                    return raw('property', fterm)
                return fterm
        if dv.op == 'call' and (dv.args[0].startswith('deprecated.') or dv.args[0].startswith('functools.')):
            return fterm
        if dv.op == 'fn':
            return self.call(dv, [fterm], {})
        return self.unk('decorator')

    def qual(self, f):
        return '%s.%s%s' % (f.module.name, (f.cls.name.rpartition('.')[2] + '.') if f.cls else '', f.name)

    def make_class(self, node, module, frame):
        k = (id(node), frame)
        if k in self.cls_by_node:
            return self.cls_by_node[k]
        outer = self.frames[-1][2]
        q = module.name + '.' + (outer.name.rpartition(module.name + '.')[2] + '.' if outer is not None and frame is None and False else '') + node.name
        t = raw('cls', q)
        c = Cls(q, module, node, [], frame)
        self.classes[t] = c
        self.cls_by_node[k] = t
        c.bases = [self.eval(b) for b in node.bases]
        cf = self.alloc(('frame', {}, frame))
        self.frames.append((cf, module, c, None))
        try:
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    v = self.make_fn(s, module, frame, c)
                    if v.op == 'propset':
                        c.attrs.setdefault('__set__' + s.name, v.args[0])
                        continue
                    c.attrs[s.name] = v
                    self.set_var(cf, s.name, v)
                elif isinstance(s, ast.ClassDef):
                    v = self.make_class(s, module, frame)
                    c.attrs[s.name] = v
                    self.set_var(cf, s.name, v)
                elif isinstance(s, ast.Assign):
                    v = self.eval(s.value)
                    for tg in s.targets:
                        if isinstance(tg, ast.Name):
                            c.attrs[tg.id] = v
                            self.set_var(cf, tg.id, v)
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    v = self.eval(s.value)
                    c.attrs[s.target.id] = v
                    self.set_var(cf, s.target.id, v)
        finally:
            self.frames.pop()
        tm.register_class(q, [x.name if isinstance(x, Cls) else x for x in self.mro_names(t)], True if self.class_attr(t, '__call__') is not None else False)
        return t

    def mro(self, t):
        """List of class terms (depth first, duplicates removed keeping the last, as C3 does for simple diamonds)."""
        c = self.classes.get(t)
        out = [t]
        if c is not None:
            for b in c.bases:
                out.extend(self.mro(b))
        res = []
        for i, x in enumerate(out):
            if x in out[i + 1:]:
                continue
            res.append(x)
        return res

    def mro_names(self, t):
        return [x.args[0] for x in self.mro(t)]

    def class_attr(self, t, name, after=None):
        ms = self.mro(t)
        if after is not None:
            if after in ms:
                ms = ms[ms.index(after) + 1:]
        for m in ms:
            c = self.classes.get(m)
            if c is not None and name in c.attrs:
                return c.attrs[name]
        return None

    def has_ext_base(self, t, after=None):
        ms = self.mro(t)
        if after is not None and after in ms:
            ms = ms[ms.index(after) + 1:]
        for m in ms:
            if m.op in ('ntcls',) or (m.op == 'ext' and m.args[0] != 'builtins.object'):
                return m
            if m.op not in ('cls', 'ext'):
                return m
        return None

    # =============================================================== expressions
    def eval(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Blowup('analysis budget')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.unk('expression %s' % type(n).__name__)
        fr = self.frames[-1]
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            self.loc = (fr[1].path, ln)
        v = m(n)
        if v not in self.origin:
            self.origin[v] = (fr[1].path, ln, fr[3])
        return v

    def e_Constant(self, n):
        return self.const(n.value)

    def const(self, v):
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return INF
            return num(Fraction(repr(v)) if 'e' not in repr(v) else Fraction(v))
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return raw('bytes', repr(v))
        return self.unk('constant')

    def e_Name(self, n):
        v = self.lookup(n.id)
        if v is UNDEF:
            return self.unk('possibly unbound %s' % n.id)
        return v

    def e_Tuple(self, n):
        xs = self.eval_elts(n.elts)
        if isinstance(xs, list):
            return raw('tuple', *xs)
        return raw('tupleof', xs)

    def eval_elts(self, elts):
        """list of terms, or a sequence term if a starred element is symbolic."""
        out = []
        parts = None
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.seq_of(self.eval(e.value))
                c = seqs.concrete(v)
                if c is not None and parts is None:
                    out.extend(c)
                else:
                    if parts is None:
                        parts = []
                    parts.append(mk_list(out))
                    out = []
                    parts.append(v)
            else:
                out.append(self.eval(e))
        if parts is None:
            return out
        parts.append(mk_list(out))
        return seqs.lcat(*parts)

    def e_List(self, n):
        xs = self.eval_elts(n.elts)
        return self.new_list(mk_list(xs) if isinstance(xs, list) else xs)

    def e_Set(self, n):
        xs = self.eval_elts(n.elts)
        if not isinstance(xs, list):
            return raw('setof', xs)
        return seqs.mk_set(xs)

    def e_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.content(self.eval(v))
                if d.op == 'dict':
                    for kk, vv in d.args[0]:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                else:
                    return self.unk('dict unpacking')
            else:
                kk = self.eval(k)
                vv = self.eval(v)
                items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
        return self.new_dict(raw('dict', tuple(items)))

    def e_JoinedStr(self, n):
        return string('fmt')

    def e_Lambda(self, n):
        fr, module, cls, fn = self.frames[-1]
        return self.make_fn(n, module, fr, None, '<lambda>')

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_BoolOp(self, n):
        vals = n.values

        def go(i):
            v = self.eval(vals[i])
            if i == len(vals) - 1:
                return v
            c = self.truth(v)
            if isinstance(n.op, ast.And):
                r = self.branch(c, lambda: go(i + 1), lambda: v if not is_boolish(v) else FALSE)
            else:
                r = self.branch(c, lambda: v if not is_boolish(v) else TRUE, lambda: go(i + 1))
            return r
        return go(0)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            return self.binop('*', num(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.ufunc('invert', v)

    def ufunc(self, name, v):
        if name == 'invert':
            return ew(lambda x: not_(x) if is_boolish(x) else raw('call', 'invert', x), v)
        return self.unk(name)

    BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%',
              ast.FloorDiv: '//', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(self.BINOPS.get(type(n.op), '?'), a, b)

    def binop(self, op, a, b):
        if (a.op == 'filt1' and is_numeric(b)) or (b.op == 'filt1' and is_numeric(a)):
            f = self.arith(op)
            return self.unk('operator') if f is None else seqs.filt_ew(f, a, b)
        if self.boxed and (self.is_box(a) or self.is_box(b)):
            r = lift(lambda x, y: self._binop(op, self.unbox(x), self.unbox(y)), a, b)
            return self.box(r, self.join_kinds([a, b]))
        return lift(lambda x, y: self._binop(op, x, y), a, b)

    def _binop(self, op, a, b):
        if a.op == 'unknown':
            return a
        if b.op == 'unknown':
            return b
        ca, cb = self.content(a), self.content(b)
        # sequences / strings
        if op == '+' and (seqs.is_seq(ca) or seqs.is_seq(cb)) and not is_arr(a) and not is_arr(b):
            return self.new_list(seqs.lcat(self.seq_of(ca), self.seq_of(cb)))
        if op == '+' and (a.op in ('tuple', 'tupleof') or b.op in ('tuple', 'tupleof')):
            return seqs.tcat(a, b)
        if op == '*' and ca.op == 'list' and is_numeric(b):
            if b.op == 'num':
                return self.new_list(mk_list(list(ca.args[0]) * int(b.args[0])))
            if len(ca.args[0]) == 1:
                i = fresh_bv(b)
                return self.new_list(mk_seq(b, lam((i,), ca.args[0][0])))
            return self.unk('list repetition')
        if op == '*' and cb.op == 'list' and is_numeric(a):
            return self._binop('*', b, a)
        if a.op in ('str', 'fmt') or b.op in ('str', 'fmt'):
            if op == '%':
                return self.lib.str_format(self, a, [b])
            if op == '+':
                return self.lib.str_concat(a, b)
            if op == '*':
                return raw('fmt', ())
        if op == '&' and (is_boolish(a) and is_boolish(b)):
            return and_(a, b)
        if op == '|' and (is_boolish(a) and is_boolish(b)):
            return or_(a, b)
        if op in ('&', '|') and (is_arr(a) or is_arr(b)):
            return ew(lambda x, y: and_(x, y) if op == '&' else or_(x, y), a, b)
        if op == '*' and spmodel.is_sp(a) and spmodel.is_sp(b):
            return lift(spmodel.product, a, b)
        if op in ('|', '&', '-', '^') and (seqs.is_set(a) or seqs.is_set(b)):
            return seqs.setop(op, seqs.as_set(ca), seqs.as_set(cb))
        pa, pb = a.op == 'poly1d', b.op == 'poly1d'
        if pa or pb:
            return self.lib.poly_binop(self, op, a, b)
        for x, y, rev in ((a, b, False), (b, a, True)):
            if x.op in ('ref', 'inst') and self.inst_class(x) is not None:
                nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '**': 'pow', '%': 'mod', '@': 'matmul',
                      '//': 'floordiv'}.get(op)
                nm = '__%s%s__' % ('r' if rev else '', nm)
                m = self.getattr_opt(x, nm)
                if m is not None:
                    return self.call(m, [y], {})
                s = self.as_matrix(x)
                if s is not None:
                    return self._binop(op, *((s, b) if not rev else (a, s)))
                return raw('op', op, self.frozen(a), self.frozen(b))
        if seqs.is_seq(ca) and (is_arr(b) or is_numeric(b)):
            a = self.lib.to_array(self, a)
        if seqs.is_seq(cb) and (is_arr(a) or is_numeric(a)):
            b = self.lib.to_array(self, b)
        if a.op == 'filt1' or b.op == 'filt1':
            f = self.arith(op)
            if f is None:
                return self.unk('operator')
            return seqs.filt_ew(f, a, b)
        if op == '@':
            return ar.matmul('np', a, b)
        f = self.arith(op)
        if f is None:
            return self.unk('operator ' + op)
        return ew(f, a, b)

    def arith(self, op):
        nv = ar.numv
        if op == '+':
            return lambda x, y: add(nv(x), nv(y))
        if op == '-':
            return lambda x, y: sub(nv(x), nv(y))
        if op == '*':
            return lambda x, y: mul(nv(x), nv(y))
        if op == '/':
            return lambda x, y: div(nv(x), nv(y))
        if op == '**':
            return lambda x, y: pow_(nv(x), nv(y))
        if op == '%':
            return lambda x, y: imod(nv(x), nv(y))
        if op == '//':
            return lambda x, y: idiv(nv(x), nv(y))
        return None

    # ---------------------------------------------------------- comparison
    def e_Compare(self, n):
        left = self.eval(n.left)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            c = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            res = and_(res, self.truth(c))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = lift(self._is, a, b)
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            r = lift(lambda x: self.contains(x, b), a)
            return r if op == 'In' else not_(r)
        if op == 'Eq':
            return self.cmp_ew(lambda x, y: self.equal(x, y), a, b)
        if op == 'NotEq':
            return self.cmp_ew(lambda x, y: not_(self.equal(x, y)), a, b)
        if op == 'Lt':
            return self.cmp_ew(self.less, a, b)
        if op == 'Gt':
            return self.cmp_ew(lambda x, y: self.less(y, x), a, b)
        if op == 'LtE':
            return self.cmp_ew(self.at_most, a, b)
        if op == 'GtE':
            return self.cmp_ew(lambda x, y: self.at_most(y, x), a, b)
        return self.unk('comparison')

    def less(self, a, b):
        a, b = self.content(a), self.content(b)
        if seqs.is_set(a) or seqs.is_set(b):
            a, b = seqs.as_set(a), seqs.as_set(b)
            return and_(seqs.subset(a, b), not_(self.equal(a, b))) if seqs.is_set(a) and seqs.is_set(b) else self.unk('comparison')
        return tm.lt(a, b)

    def at_most(self, a, b):
        a, b = self.content(a), self.content(b)
        if seqs.is_set(a) or seqs.is_set(b):
            a, b = seqs.as_set(a), seqs.as_set(b)
            return seqs.subset(a, b) if seqs.is_set(a) and seqs.is_set(b) else self.unk('comparison')
        return tm.le(a, b)

    def cmp_ew(self, f, a, b):
        def g(x, y):
            if is_arr(x) or is_arr(y):
                return ar._ew(lambda p, q: lift(f, p, q), x, y)
            return f(x, y)
        return lift(g, a, b)

    def equal(self, a, b):
        a, b = self.content(a), self.content(b)
        if spmodel.is_sp(a) and spmodel.is_sp(b):
            return spmodel.equal(a, b)
        if self.boxed and a is not b and (spmodel.is_matrix(a) or spmodel.is_matrix(b)):
            return ew(lambda x, y: tm.eq(x, y), a, b)
        if a.op == 'unknown':
            return a
        if b.op == 'unknown':
            return b
        if a.op == 'list' and b.op == 'list':
            if len(a.args[0]) != len(b.args[0]):
                return FALSE
            return and_(*[self.equal(x, y) for x, y in zip(a.args[0], b.args[0])])
        if seqs.is_set(a) or seqs.is_set(b):
            x, y = sorted((a, b), key=key)
            if a.op == 'set' and b.op == 'set' and all(const_like(z) for z in a.args[0] + b.args[0]):
                return TRUE if a is b else FALSE
            return TRUE if a is b else raw('eq', x, y)
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[self.equal(x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'ref' or b.op == 'ref':
            a, b = self.frozen(a), self.frozen(b)
        return tm.eq(a, b)

    def _is(self, a, b):
        if a.op == 'unknown':
            return a
        if b.op == 'unknown':
            return b
        if a is b:
            return TRUE
        if a is NONE:
            a, b = b, a
        if b is NONE:
            if a.op in ('sym', 'item', 'attr', 'meth', 'apply', 'call', 'rec', 'bv', 'dkey', 'undef', 'getattr', 'last'):
                if a.op == 'sym' and (a.args[1] in ('num', 'int', 'nat', 'pos', 'np1', 'np2', 'cs2', 'str', 'fun', 'mx', 'dict', 'tuple')
                                      or a.args[1].startswith('obj:') or a.args[1].startswith('list')):
                    return FALSE
                if a.op == 'meth' and a.args[0] in self.lib.NOT_NONE_METHODS:
                    return FALSE
                if a.op == 'call':
                    return FALSE
                return raw('is', a, NONE)
            return FALSE
        if const_like(a) and const_like(b):
            return tm.eq(a, b)
        if is_boolish(a) and b.op == 'bool':
            return tm.eq(a, b)
        if a.op == 'ref' and b.op == 'ref':
            return FALSE
        x, y = sorted((a, b), key=key)
        return raw('is', x, y)

    def contains(self, x, coll):
        coll = self.content(coll)
        if coll.op == 'unknown':
            return coll
        if x.op == 'unknown':
            return x
        if coll.op == 'ite':
            return lift(lambda c: self.contains(x, c), coll)
        if coll.op == 'list':
            return or_(*[self.equal(x, e) for e in coll.args[0]])
        if coll.op == 'tuple':
            return or_(*[self.equal(x, e) for e in coll.args])
        if coll.op == 'set':
            return or_(*[self.equal(x, e) for e in coll.args[0]])
        if coll.op == 'dict':
            return or_(*[self.equal(x, k) for k, v in coll.args[0]])
        if coll.op == 'dkeys':
            return self.contains(x, coll.args[0])
        if coll.op == 'str' and x.op == 'str':
            return TRUE if x.args[0] in coll.args[0] else FALSE
        if coll.op == 'seq':
            n, l = coll.args
            (b,), body = l.args
            return tm.any_(n, lam((b,), lift(lambda y: self.equal(x, y), body)))
        if coll.op == 'setof':
            return self.contains(x, coll.args[0])
        if coll.op == 'filt':
            n, c, l = coll.args
            (b,), body = l.args
            (b2,), cond = c.args
            return tm.any_(n, lam((b,), and_(subst(cond, {b2: b}), lift(lambda y: self.equal(x, y), body))))
        if coll.op in ('ref', 'inst'):
            m = self.getattr_opt(coll, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
        if coll.op == 'append':
            return or_(self.contains(x, coll.args[0]), self.equal(x, coll.args[1]))
        if coll.op == 'dstore':
            return or_(self.contains(x, coll.args[0]), self.equal(x, coll.args[1]))
        return raw('in', self.frozen(x), self.frozen(coll))

    def truth(self, t):
        return lift(self._truth, t)

    def _truth(self, t):
        if t.op == 'unknown' or is_boolish(t):
            return t
        if t is NONE:
            return FALSE
        if t.op == 'num':
            return TRUE if t.args[0] else FALSE
        if t.op == 'str':
            return TRUE if t.args[0] else FALSE
        if is_numeric(t) and not is_arr(t):
            return not_(lift(tm._eq0, t))
        c = self.content(t)
        if c.op == 'ite':
            return lift(self._truth, c)
        if seqs.is_seq(c):
            return not_(lift(tm._eq0, seqs.length(c)))
        if c.op == 'tuple':
            return TRUE if c.args else FALSE
        if c.op in ('dict', 'set'):
            return TRUE if c.args[0] else FALSE
        if t.op == 'ref':
            o = self.deref(t)
            if o and o[0] == 'inst':
                if self.class_attr(o[1], '__len__') is None and self.class_attr(o[1], '__bool__') is None:
                    return TRUE
        if t.op in ('fn', 'cls', 'bound', 'ext', 'poly1d'):
            return TRUE
        us = tm.find_ops(t, ('unknown',))
        if us:
            return us[0]
        if t.op == 'sym' and t.args[1].startswith('list'):
            return not_(lift(tm._eq0, seqs.length(t)))
        return raw('truthy', t)

    # ---------------------------------------------------------- attribute access
    def e_Attribute(self, n):
        v = self.eval(n.value)
        self.loc = (self.frames[-1][1].path, n.lineno)
        return self.getattr(v, n.attr)

    def inst_class(self, t):
        if t.op == 'ref':
            o = self.deref(t)
            if o is not None and o[0] == 'inst':
                return o[1]
        if t.op == 'inst':
            return t.args[0]
        if t.op == 'sym' and t.args[1].startswith('obj:'):
            return self.find_class(t.args[1][4:])
        ty = type_of(t)
        if ty.startswith('obj:'):
            return self.find_class(ty[4:])
        return None

    def find_class(self, name):
        """Class term by (possibly short) name."""
        for t in self.classes:
            if t.args[0] == name or t.args[0].endswith('.' + name):
                return t
        for m in self.project.modules.values():
            b = m.bindings.get(name)
            if b and b[-1][0] == 'class':
                return self.global_name(m, name)
        return None

    def getattr(self, v, name):
        return self.on_value(v, lambda x: self._getattr(x, name))

    def on_value(self, v, f):
        """Apply an effectful operation, splitting on conditional values with a join."""
        if v.op != 'ite':
            return f(v)
        c, a, b = v.args
        return self.branch(c, lambda: self.on_value(a, f), lambda: self.on_value(b, f))

    def _getattr(self, v, name):
        r = self.getattr_opt(v, name, strict=True)
        if r is not None:
            return r
        if v.op == 'unknown':
            return v
        cls = self.inst_class(v)
        if cls is not None and v.op in ('ref', 'inst'):
            eb = self.has_ext_base(cls)
            if eb is None:
                self.raise_(TRUE, string('AttributeError'))
                return raw('noattr', name)
            return raw('attr', self.frozen(v), name)
        c = self.content(v)
        plain = type(None) if v is NONE else str if v.op == 'str' else list if c.op == 'list' else tuple if v.op == 'tuple' else None
        if plain is not None and not hasattr(plain, name):
            self.raise_(TRUE, string('AttributeError'))
            return raw('noattr', name)
        return raw('attr', v, name)

    def getattr_opt(self, v, name, strict=False):
        if v.op == 'unknown':
            return v if strict else None
        if v.op == 'module':
            m = self.project.modules[v.args[0]]
            r = self.global_name_opt(m, name)
            if r is not None:
                return r
            s = self.project.modules.get(m.name + '.' + name)
            if s is not None:
                return raw('module', s.name)
            for st_ in m.stars:
                if st_ == 'casadi' and name in self.casadi_names:
                    return raw('ext', 'casadi.' + name)
            return self.unk('module attribute %s.%s' % (m.name, name))
        if v.op == 'ext':
            return self.lib.ext_attr(self, v.args[0], name)
        if v.op == 'cls':
            a = self.class_attr(v, name)
            if a is not None:
                if a.op in ('static',):
                    return a.args[0]
                if a.op == 'classm':
                    return raw('bound', a.args[0], v)
                return a
            if name == '__name__':
                return string(v.args[0].rpartition('.')[2])
            if name == '__new__':
                return raw('ext', 'builtins.object.__new__')
            eb = self.has_ext_base(v)
            if eb is not None and eb.op == 'ext':
                return raw('ext', eb.args[0] + '.' + name)
            return None
        if v.op == 'super':
            cls, after, selfv = v.args
            a = self.class_attr(cls, name, after=after)
            if a is not None:
                if a.op == 'property':
                    return self.call(a.args[0], [selfv], {})
                if name == '__new__':
                    return a
                return raw('bound', a, selfv)
            eb = self.has_ext_base(cls, after=after)
            if eb is None:
                if name == '__init__':
                    return raw('ext', 'builtins.noop')
                if name == '__new__':
                    return raw('ext', 'builtins.object.__new__')
                return None
            return raw('extsuper', eb, name, selfv)
        cls = self.inst_class(v)
        if cls is not None:
            attrs = None
            if v.op == 'ref':
                attrs = self.deref(v)[2]
            elif v.op == 'inst':
                attrs = dict(v.args[1])
            if attrs is not None and name in attrs:
                return attrs[name]
            if name == '__class__':
                return cls
            if name == '__dict__' and attrs is not None:
                return self.unk('__dict__')
            if attrs is None:
                ov = self.st.heap.get(('ov', v))
                if ov is not None and name in ov[1]:
                    return ov[1][name]
            a = self.class_attr(cls, name)
            if a is not None:
                if a.op == 'property':
                    f = self.fns.get(a.args[0])
                    if f is not None and attrs is None and self.qual(f) in self.opaque:
                        return raw('attr', v, name)
                    return self.call(a.args[0], [v], {})
                if a.op in ('fn',):
                    return raw('bound', a, v)
                if a.op == 'static':
                    return a.args[0]
                if a.op == 'classm':
                    return raw('bound', a.args[0], cls)
                return a
            ps = self.lib.pseudo_attr(self, v, cls, name)
            if ps is not None:
                return ps
            if attrs is not None:
                g = self.class_attr(cls, '__getattr__')
                if g is not None and not name.startswith('__'):
                    return self.call(raw('bound', g, v), [string(name)], {})
                return None
            # opaque instance: a field
            return raw('attr', v, name) if strict else None
        if self.is_box(v) or v.op == 'spmat' or spmodel.is_sp(v):
            r = spmodel.attr(self, v, name)
            if r is not None:
                return r
        c = self.content(v)
        r = self.lib.value_attr(self, v, c, name)
        if r is not None:
            return r
        ov = self.st.heap.get(('ov', v))
        if ov is not None and name in ov[1]:
            return ov[1][name]
        return None

    # ---------------------------------------------------------- subscripts
    def e_Subscript(self, n):
        v = self.eval(n.value)
        i = self.eval_index(n.slice)
        self.loc = (self.frames[-1][1].path, n.lineno)
        return self.getitem(v, i)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return raw('slice', *[self.eval(x) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return raw('tuple', *[self.eval_index(e) for e in s.elts])
        return self.eval(s)

    def e_Slice(self, n):
        return self.eval_index(n)

    def sel(self, i):
        """Array selector of an index term; None when not supported."""
        if i.op == 'slice':
            return ('s',) + tuple(None if x is NONE else x for x in i.args)
        c = self.content(i)
        if c.op == 'list' or c.op == 'seq':
            a = self.lib.to_array(self, i)
            if a.op == 'arr':
                if is_boolish(a.args[2].args[1]):
                    return ('m', a)
                return ('a', a)
            return None
        if is_arr(i):
            a = as_arr(i)
            if is_boolish(a.args[2].args[1]) or self.is_bool_arr(a):
                return ('m', a)
            if a.args[0] == 'cs':
                a = a
            return ('a', a)
        if i is ELLIPSIS:
            return None
        if i is NONE:
            return ('n',)
        return ('i', i)

    def is_bool_arr(self, a):
        return is_boolish(a.args[2].args[1])

    def getitem(self, v, i):
        if v.op == 'ite':
            return self.on_value(v, lambda x: self.getitem(x, i))
        if i.op == 'ite':
            return self.on_value(i, lambda x: self.getitem(v, x))
        if v.op == 'unknown':
            return v
        if i.op == 'unknown':
            return i
        if v.op == 'ref' and '__base__' in (self.deref(v)[2] if self.deref(v)[0] == 'inst' else ()):
            m = self.class_attr(self.inst_class(v), '__getitem__')
            if m is not None:
                return self.call(raw('bound', m, v), [i], {})
        if v.op == 'nzview' or self.boxed and (self.is_box(v) or spmodel.is_matrix(v)):
            return spmodel.getitem(self, v, i)
        c = self.content(v)
        if c.op == 'ite':
            return self.on_value(c, lambda x: self.getitem(x, i))
        if c.op == 'unknown':
            return c
        if c.op == 'dict':
            for k, x in c.args[0]:
                if k is i:
                    return x
            if const_key(i) and all(const_key(k) for k, _ in c.args[0]):
                self.raise_(TRUE, string('KeyError'))
                return raw('nokey')
            return self.dict_get_symbolic(c, i)
        if c.op == 'dstore':
            return self.on_value(self.equal(i, c.args[1]), lambda q: None) if False else \
                self.branch(self.equal(i, c.args[1]), lambda: c.args[2], lambda: self.getitem(c.args[0], i))
        if c.op == 'dictacc' or c.op == 'dictop':
            return raw('item', c, self.frozen(i))
        if c.op == 'dictof':
            r = seqs.dict_item(c, i)
            if r is not None:
                return r
        cls = self.inst_class(v)
        if cls is not None:
            m = self.getattr_opt(v, '__getitem__')
            if m is not None:
                return self.call(m, [i], {})
            r = self.lib.pseudo_getitem(self, v, cls, i)
            if r is not None:
                return r
        if c.op == 'tuple' or seqs.is_seq(c):
            return self.seq_getitem(c, i)
        if v.op == 'filt1':
            return self.unk('index of filtered')
        if is_arr(v):
            idx = list(i.args) if i.op == 'tuple' else [i]
            if any(x is ELLIPSIS for x in idx):
                k = [j for j, x in enumerate(idx) if x is ELLIPSIS][0]
                nfill = ar.ndim(v) - (len(idx) - 1)
                idx = idx[:k] + [raw('slice', NONE, NONE, NONE)] * nfill + idx[k + 1:]
            sels = [self.sel(x) for x in idx]
            if any(s is None for s in sels):
                return self.unk('array index')
            if any(s[0] == 'n' for s in sels):
                return self.newaxis(v, sels)
            if any(s[0] == 'm' for s in sels):
                if len(sels) == 1 and ar.ndim(v) == 1 and ar.ndim(sels[0][1]) == 1:
                    a = as_arr(v)
                    b = fresh_bv(ar.dim(a, 0))
                    return seqs.mk_filt1(ar.dim(a, 0), lam((b,), elem(sels[0][1], (b,))), lam((b,), elem(a, (b,))))
                return self.unk('mask index')
            if any(s[0] == 'a' for s in sels) and ar.lib_of(v) == 'cs':
                sels = [('a', self.lib.ravel(s[1])) if s[0] == 'a' else s for s in sels]
            return ar.index(v, sels)
        if v.op == 'poly1d':
            return raw('call', 'poly1d.coef', v, i)
        ty = type_of(v)
        if ty.startswith('list') and i.op == 'slice':
            return self.seq_getitem(v, i)
        if ty.startswith('list') and not (i.op == 'slice'):
            return seqs.item(v, i)
        r = self.lib.opaque_getitem(self, v, i)
        if r is not None:
            return r
        return raw('item', v, self.frozen(i))

    def newaxis(self, v, sels):
        if ar.lib_of(v) != 'np' or any(s[0] == 'm' for s in sels):
            return self.unk('newaxis')
        rest = [s for s in sels if s[0] != 'n']
        a = v if all(s[0] == 's' and s[1] is None and s[2] is None and s[3] is None for s in rest) else ar.index(v, rest)
        if not is_arr(a):
            return a if a.op == 'unknown' or any(s[0] != 'i' for s in rest) else mk('np', [ONE] * (len(sels) - len(rest)), lambda *i: a)
        a = as_arr(a)
        if a.op != 'arr' or sum(s[0] == 'a' and ar.ndim(s[1]) != 1 for s in rest) or sum(s[0] == 'a' for s in rest) > 1:
            return self.unk('newaxis')
        k = 0
        shape = []
        pos = []
        for s in sels:
            if s[0] == 'n':
                shape.append(ONE)
                pos.append(None)
            elif s[0] != 'i':
                shape.append(ar.dim(a, k))
                pos.append(k)
                k += 1
        while k < ar.ndim(a):
            shape.append(ar.dim(a, k))
            pos.append(k)
            k += 1
        return mk('np', shape, lambda *idx: elem(a, tuple(i for i, p in zip(idx, pos) if p is not None)))

    def seq_getitem(self, c, i):
        if i.op == 'slice':
            lo, hi, st = i.args
            r = seqs.slice_(c, lo, hi, st)
            if r is None:
                return raw('item', c, i)
            if c.op == 'tuple':
                return r
            if r.op in ('list', 'seq', 'lcat', 'filt', 'flatmap') and c.op != 'tupleof':
                return self.new_list(r)
            return r
        return seqs.item(c, i)

    def dict_get_symbolic(self, c, i):
        # value selected by key equality; missing keys are an error path
        items = c.args[0]
        if not items or len(items) > 16:
            return raw('item', c, self.frozen(i))
        r = raw('item', raw('dict', ()), self.frozen(i))
        for k, v in reversed(items):
            r = ite(self.equal(i, k), v, r)
        return r

    # ---------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1][0]
            o = self.st.heap[fr]
            tgt = fr
            if t.id in o[3]['globals'] if len(o) > 3 else False:
                self.note('global assignment')
                self.event('global', string(t.id), v)
                return
            if len(o) > 3 and t.id in o[3]['nonlocals']:
                f = o[2]
                while f is not None:
                    if t.id in self.st.heap[f][1]:
                        tgt = f
                        break
                    f = self.st.heap[f][2]
            self.set_var(tgt, t.id, v)
            self.unlink(('v', tgt, t.id))
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v, t.value)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.loc = (self.frames[-1][1].path, t.lineno)
            self.setitem(o, i, v, t.value)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v)
            return
        self.unk('assignment target')

    def unpack(self, elts, v):
        if v.op == 'ite':
            ls = leaves(v)
            cs_ = [seqs.concrete(self.content(x)) if x.op != 'tuple' else list(x.args) for x in ls]
            if all(c is not None and len(c) == len(elts) for c in cs_):
                for k, e in enumerate(elts):
                    self.assign(e, lift(lambda x: (list(x.args) if x.op == 'tuple' else seqs.concrete(self.content(x)))[k], v))
                return
        c = self.content(v)
        if c.op == 'tuple':
            xs = list(c.args)
        else:
            xs = seqs.concrete(c)
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if xs is not None:
            if stars:
                k = stars[0]
                tail = len(elts) - k - 1
                for e, x in zip(elts[:k], xs[:k]):
                    self.assign(e, x)
                self.assign(elts[k].value, self.new_list(mk_list(xs[k:len(xs) - tail])))
                for e, x in zip(elts[k + 1:], xs[len(xs) - tail:]):
                    self.assign(e, x)
                return
            if len(xs) != len(elts):
                self.raise_(TRUE, string('ValueError'))
                return
            for e, x in zip(elts, xs):
                self.assign(e, x)
            return
        if stars:
            for e in elts:
                self.assign(e, self.unk('star unpacking'))
            return
        for k, e in enumerate(elts):
            self.assign(e, self.getitem(v, num(k)))

    def setattr(self, o, name, v, node=None):
        if o.op == 'ite':
            return self.on_value(o, lambda x: self.setattr(x, name, v, node) or NONE)
        if o.op == 'ref':
            ob = self.deref(o)
            if ob is not None and ob[0] == 'inst':
                ps = self.class_attr(ob[1], '__set__' + name)
                if ps is not None:
                    self.call(ps, [o, v], {})
                    return
                d = dict(ob[2])
                d[name] = self.box(v)
                self.st.heap[o] = ('inst', ob[1], d)
                self.unlink(('a', o, name))
                return
        if o.op == 'inst' and node is not None:
            d = dict(o.args[1])
            d[name] = v
            self.assign(node, raw('inst', o.args[0], tuple(sorted(d.items()))))
            return
        if o.op == 'poly1d' and name in ('coef', 'coeffs', 'c', 'coefficients') and node is not None:
            self.mutate(node, self.lib.poly_set_coef(self, o, v))
            return
        if o.op == 'unknown':
            return
        ov = self.st.heap.get(('ov', o))
        d = dict(ov[1]) if ov else {}
        d[name] = v
        self.st.heap[('ov', o)] = ('ov', d)
        self.event('setattr', o, string(name), v)

    def setitem(self, o, i, v, node=None):
        if o.op == 'ite':
            self.on_value(o, lambda x: self.setitem(x, i, v, None) or NONE)
            return
        if o.op == 'nzview' or self.boxed and (self.is_box(o) or spmodel.is_matrix(o)):
            spmodel.setitem(self, o, i, v, node)
            return
        if o.op == 'ref':
            ob = self.deref(o)
            if ob[0] == 'dict':
                self.st.heap[o] = ('dict', lift(lambda d, k: seqs.dict_store(self, d, k, v), ob[1], i))
                return
            if ob[0] == 'list':
                self.st.heap[o] = ('list', lift(lambda l, k: seqs.list_store(l, k, v), ob[1], i))
                return
            if ob[0] == 'inst':
                m = self.class_attr(ob[1], '__setitem__')
                if m is not None:
                    self.call(raw('bound', m, o), [i, v], {})
                    return
                if '__base__' in ob[2]:
                    self.setitem(ob[2]['__base__'], i, v)
                    return
                self.event('setitem', self.frozen(o), self.frozen(i), v)
                return
        if o.op == 'unknown':
            return
        if is_arr(o) and node is not None and not self.is_param_place(node):
            sels = [self.sel(x) for x in (i.args if i.op == 'tuple' else (i,))]
            if any(s is None or s[0] not in ('i', 's') for s in sels):
                nv = self.masked_store(o, sels, v)
            else:
                vv = v
                if seqs.is_seq(self.content(v)):
                    vv = self.lib.to_array(self, v)
                nv = lift(lambda a, x: ar.store(a, sels, x) if x.op != 'unknown' and a.op != 'unknown' else unknown('store'), o, vv)
            self.mutate(node, nv)
            return
        if o.op in ('list', 'seq', 'carry', 'append', 'lcat') and node is not None:
            self.assign(node, seqs.list_store(o, i, v))
            return
        if o.op in ('dict', 'dstore', 'dictacc') and node is not None:
            self.assign(node, seqs.dict_store(self, o, i, v))
            return
        ov = None
        self.event('setitem', o, self.frozen(i), self.frozen(v))
        self.invalidate(o)

    def masked_store(self, o, sels, v):
        if len(sels) == 1 and sels[0] is not None and sels[0][0] == 'm' and not is_arr(v):
            a, m = as_arr(o), sels[0][1]
            if ar.ndim(a) == ar.ndim(m):
                return mk(a.args[0], a.args[1], lambda *ix: ite(elem(m, ix), v, elem(a, ix)))
        return self.unk('array store')

    def is_param_place(self, node):
        return False

    def invalidate(self, o):
        """A mutated opaque object gets a new version, so later reads are distinguishable."""
        pass

    def event(self, kind, *args):
        args = tuple(self.frozen(a) for a in args)
        e = raw('ev', kind, args)
        self.st.ev = self.st.ev + ((self.st.alive, e, self.loc),)

    # ---------------------------------------------------------- comprehension
    def e_ListComp(self, n):
        return self.new_list(self.comp(n.generators, lambda: self.eval(n.elt)))

    def e_GeneratorExp(self, n):
        return self.comp(n.generators, lambda: self.eval(n.elt))

    def e_SetComp(self, n):
        return seqs.set_of(self.comp(n.generators, lambda: self.eval(n.elt)))

    def e_DictComp(self, n):
        s = self.comp(n.generators, lambda: raw('tuple', self.eval(n.key), self.eval(n.value)))
        return self.new_dict(seqs.dict_of_pairs(self, s))

    def comp(self, gens, elt):
        fr, module, cls, fn = self.frames[-1]
        first = self.eval(gens[0].iter)
        cf = self.alloc(('frame', {}, fr))
        self.frames.append((cf, module, cls, fn))
        try:
            return self._comp(gens, elt, first)
        finally:
            self.frames.pop()

    def _comp(self, gens, elt, first=None):
        g = gens[0]
        it = first if first is not None else self.eval(g.iter)
        dom = self.seq_of(it)
        return self.on_value(dom, lambda d: self._comp_dom(gens, elt, d))

    def _comp_dom(self, gens, elt, dom):
        g = gens[0]
        conc = seqs.concrete(dom)
        rest = gens[1:]

        def body(x):
            """-> (condition, sequence-or-element)"""
            self.assign(g.target, x)
            cond = TRUE
            base_alive = self.st.alive
            for c in g.ifs:
                cc = self.truth(self.eval(c))
                cond = and_(cond, cc)
                self.st.alive = and_(self.st.alive, cc)
            if cond is FALSE:
                self.st.alive = base_alive
                return cond, None
            if rest:
                v = self._comp(rest, elt)
            else:
                v = self.frozen_new(elt())
            self.st.alive = base_alive
            return cond, v
        if dom.op == 'unknown':
            return dom
        if conc is not None and len(conc) <= MAX_UNROLL:
            parts = []
            for x in conc:
                cond, v = body(x)
                if cond is FALSE:
                    continue
                piece = v if rest else mk_list([v])
                if cond is not TRUE:
                    if cond.op == 'unknown':
                        return cond
                    piece = ite(cond, piece, mk_list([]))
                parts.append(piece)
            return seqs.lcat(*parts)
        n, l = seqs.symbolic(dom)
        if n is None:
            return self.unk('iteration over %s' % dom.op)
        (b,), item = l.args
        base = self.st
        mark = next(self.addr)
        self.st = base.copy()
        self.st.alive = TRUE
        self.sinks.append([])
        cond, v = body(item)
        sink = self.sinks.pop()
        ev = self.st.ev[len(base.ev):]
        own = self.frames[-1][0]
        changed = [c for c in self.changed_cells(base, self.st) if c[0] is not own]
        if v is not None:
            v = self.reify(v, mark)
        cond_pre = self.dom_cond(dom, b)
        st2 = self.st
        self.st = base
        if changed:
            self.havoc(changed, 'side effect in comprehension')
        self.lift_raises(sink, n, b)
        if ev:
            self.lift_events(ev, n, b)
        if v is None:
            return mk_list([])
        if cond_pre is not None:
            cond = and_(cond_pre, cond)
        if cond.op == 'unknown':
            return cond
        if v.op == 'unknown':
            return v
        if rest:
            if cond is not TRUE:
                v = ite(cond, v, mk_list([]))
            return seqs.flatmap(n, lam((b,), v))
        if cond is TRUE:
            return mk_seq(n, lam((b,), v))
        return seqs.filt(n, lam((b,), cond), lam((b,), v))

    def dom_cond(self, dom, b):
        """Filter condition when iterating a filtered sequence through its base range."""
        if dom.op == 'filt':
            (b2,), c = dom.args[1].args
            return subst(c, {b2: b})
        return None

    def seq_of(self, t):
        """Sequence term for iterating over t."""
        return lift(self._seq_of, t)

    def _seq_of(self, t):
        c = self.content(t)
        if c.op == 'ite':
            return lift(self._seq_of, c)
        if c.op == 'unknown':
            return c
        if seqs.is_seq(c):
            return c
        if c.op == 'tuple':
            return mk_list(list(c.args))
        if c.op == 'dict':
            return mk_list([k for k, v in c.args[0]])
        if c.op == 'str':
            return mk_list([string(x) for x in c.args[0]])
        if c.op == 'set':
            return mk_list(list(c.args[0]))
        if c.op == 'filt1':
            return seqs.filt(*c.args)
        if is_arr(c):
            a = as_arr(c)
            b = fresh_bv(ar.dim(a, 0))
            if ar.ndim(a) == 1:
                return mk_seq(ar.dim(a, 0), lam((b,), elem(a, (b,))))
            if a.args[0] == 'cs':
                return mk_seq(ar.dim(a, 0), lam((b,), ar.index(a, [('i', b), ('s', None, None, None)])))
            return mk_seq(ar.dim(a, 0), lam((b,), ar.index(a, [('i', b)])))
        if t.op == 'ref':
            o = self.deref(t)
            if o and o[0] == 'inst':
                m = self.getattr_opt(t, '__iter__')
                if m is not None:
                    return self.seq_of(self.call(m, [], {}))
        return seqs.opaque_seq(c)

    # ---------------------------------------------------------- freezing / reification
    def frozen(self, t, depth=0):
        """Value term with list/dict/instance references replaced by their current contents."""
        return self._freeze(t, lambda a: True, set(), {})

    def frozen_new(self, t):
        return t

    def reify(self, t, mark):
        return self._freeze(t, lambda a: a.args[0] > mark, set(), {})

    def _freeze(self, t, pred, busy, memo):
        if not tm.has_op(t, ('ref', 'fn', 'bound')):
            return t
        refs = [r for r in tm.find_ops(t, ('ref',))]
        m = {}
        for r in refs:
            if r in memo:
                m[r] = memo[r]
                continue
            if not pred(r):
                continue
            if r in busy:
                m[r] = raw('cycle')
                continue
            o = self.st.heap.get(r)
            if o is None:
                continue
            if o[0] in ('list', 'dict', 'set', 'mat'):
                m[r] = self._freeze(o[1], pred, busy | {r}, memo)
            elif o[0] == 'inst':
                at = []
                for k, v in sorted(o[2].items()):
                    at.append((k, self._freeze(v, pred, busy | {r}, memo)))
                m[r] = raw('inst', o[1], tuple(at))
            if r in m and not busy:
                memo[r] = m[r]
        if not m:
            return t
        return subst(t, m)

    # ---------------------------------------------------------- calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup_is_builtin('super'):
            return self.make_super(n)
        # method call on a place: allows value-lists to be updated
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value)
            args, kw = self.eval_args(n)
            self.loc = (self.frames[-1][1].path, n.lineno)
            self.call_sites += 1
            self.arg_places(n, args, kw)
            return self.call_method(recv, n.func.attr, args, kw, n.func.value)
        f = self.eval(n.func)
        args, kw = self.eval_args(n)
        self.arg_places(n, args, kw)
        self.loc = (self.frames[-1][1].path, n.lineno)
        self.call_sites += 1
        r = self.call(f, args, kw)
        if f.op == 'ext' and f.args[0] in ('builtins.list', 'builtins.tuple', 'copy.copy') and len(args) == 1 and not self.boxed \
                and args[0].op == 'ref' and r.op == 'ref' and r is not args[0]:
            self.link(('e', r, None), ('e', args[0], None))
        return r

    passed = None

    def arg_places(self, n, args, kw):
        """Remember where arrays passed as arguments are held, for the parameters of the function called next."""
        self.passed = None
        if self.boxed or not any(self.is_obj(v) for v in list(args) + list(kw.values())) or any(isinstance(a, ast.Starred) for a in n.args):
            return
        ps = [self.place_of(a) if self.is_obj(v) else None for a, v in zip(n.args, args)]
        ks = {k.arg: self.place_of(k.value) for k in n.keywords if k.arg in kw and self.is_obj(kw[k.arg])}
        self.passed = (list(args), ps, ks)

    def link_params(self, f, fr, args):
        rec, self.passed = self.passed, None
        if rec is None:
            return
        vals, ps, ks = rec
        off = len(args) - len(vals)
        if off < 0 or any(x is not y for x, y in zip(args[off:], vals)):
            return
        names = [a.arg for a in list(getattr(f.node.args, 'posonlyargs', [])) + f.node.args.args]
        for i, p in enumerate(ps):
            if p is not None and off + i < len(names):
                self.link(('v', fr, names[off + i]), p)
        for k, p in ks.items():
            if p is not None and k in self.st.heap[fr][1]:
                self.link(('v', fr, k), p)

    def lookup_is_builtin(self, name):
        v = self.lookup(name)
        return v.op == 'ext' and v.args[0].startswith('builtins.')

    def e_Starred(self, n):
        return self.unk('starred')

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        fr = self.frames[-1][0]
        y = self.get_var(fr, '$yield')
        if y is None:
            return self.unk('yield')
        ob = self.deref(y)
        self.st.heap[y] = ('list', lift(lambda l: seqs.append(l, v), ob[1]))
        return NONE

    def e_YieldFrom(self, n):
        v = self.seq_of(self.eval(n.value))
        fr = self.frames[-1][0]
        y = self.get_var(fr, '$yield')
        if y is None:
            return self.unk('yield')
        ob = self.deref(y)
        self.st.heap[y] = ('list', seqs.lcat(ob[1], v))
        return NONE

    def make_super(self, n):
        fr, module, cls, fn = self.frames[-1]
        selfv = None
        c = cls
        if n.args:
            cterm = self.eval(n.args[0])
            selfv = self.eval(n.args[1])
            c = self.classes.get(cterm)
        else:
            f = fr
            while f is not None:
                o = self.st.heap[f]
                if '$self' in o[1]:
                    selfv = o[1]['$self']
                    break
                f = o[2]
        if c is None or selfv is None:
            return self.unk('super')
        cterm = raw('cls', c.name)
        actual = selfv if selfv.op == 'cls' else self.inst_class(selfv)
        return raw('super', actual or cterm, cterm, selfv)

    def eval_args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.seq_of(self.eval(a.value))
                c = seqs.concrete(v)
                if c is not None:
                    args.extend(c)
                else:
                    args.append(raw('star', v))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.content(self.eval(k.value))
                if d.op == 'dict' and all(kk.op == 'str' for kk, _ in d.args[0]):
                    for kk, vv in d.args[0]:
                        kw[kk.args[0]] = vv
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = self.eval(k.value)
        return args, kw

    def call_method(self, recv, name, args, kw, node=None):
        if recv.op == 'ite':
            return self.on_value(recv, lambda x: self.call_method(x, name, args, kw, node))
        if recv.op == 'unknown':
            return recv
        if recv.op == 'ref' and self.deref(recv)[0] == 'inst' and '__base__' in self.deref(recv)[2] and \
                self.class_attr(self.inst_class(recv), name) is None and self.content(recv) is not recv:
            recv = self.deref(recv)[2]['__base__']
        if self.is_box(recv) or spmodel.is_sp(recv) or recv.op in ('spmat', 'slice') or self.boxed and spmodel.is_matrix(recv):
            r = spmodel.method(self, recv, name, args, kw)
            if r is not None:
                return r
            if self.is_box(recv):
                k = self.mat_kind(recv)
                return self.box(self.call_method(self.unbox(recv), name, args, kw), k)
        c = self.content(recv)
        if recv.op == 'ref' and c is not recv and c.op != 'unknown' or seqs.is_seq(c) or c.op in ('dict', 'dstore', 'dictacc', 'tuple', 'str', 'fmt', 'set', 'setof', 'carryd'):
            r = self.lib.container_method(self, recv, c, name, args, kw, node)
            if r is not None:
                return r
        f = self.getattr_opt(recv, name)
        if f is not None:
            return self.call(f, args, kw)
        r = self.lib.value_method(self, recv, name, args, kw, node)
        if r is not None:
            return r
        cls = self.inst_class(recv)
        if cls is not None and recv.op in ('ref', 'inst'):
            r = self.lib.pseudo_method(self, recv, cls, name, args, kw)
            if r is not None:
                return r
            eb = self.has_ext_base(cls)
            if eb is None:
                self.raise_(TRUE, string('AttributeError'))
                return raw('noattr', name)
        if recv is NONE and not hasattr(None, name) or recv.op in ('str', 'fmt') and not hasattr('', name):
            self.raise_(TRUE, string('AttributeError'))
            return raw('noattr', name)
        return self.opaque_meth(recv, name, args, kw)

    def opaque_meth(self, recv, name, args, kw):
        al = [self.frozen(a) for a in args] + [raw('kw', k, self.frozen(v)) for k, v in sorted(kw.items())]
        for a in al:
            if a.op == 'unknown':
                return a
        return euf('meth', name, self.frozen(recv), *al)

    def call(self, f, args, kw):
        if f.op == 'ite':
            return self.on_value(f, lambda x: self.call(x, args, kw))
        if f.op == 'unknown':
            return f
        for a in list(args) + list(kw.values()):
            pass
        if f.op == 'fn':
            return self.call_fn(f, args, kw)
        if f.op == 'bound':
            return self.call(f.args[0], [f.args[1]] + list(args), kw)
        if f.op in ('static',):
            return self.call(f.args[0], args, kw)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + list(args), dict(f.args[2], **kw))
        if f.op == 'cls':
            return self.instantiate(f, args, kw)
        if f.op == 'ntcls':
            return self.nt_new(f, f, args, kw)
        if f.op == 'extsuper':
            return self.lib.ext_super(self, f, args, kw)
        if f.op == 'ext':
            return self.lib.call_ext(self, f.args[0], args, kw)
        if f.op == 'matm':
            return self.call_method(f.args[1], f.args[0], args, kw)
        if f.op == 'extm':       # method of a modelled value
            return self.lib.value_method(self, f.args[1], f.args[0], args, kw, None) or \
                self.opaque_meth(f.args[1], f.args[0], args, kw)
        if f.op == 'cmeth':
            r = self.lib.container_method(self, f.args[1], self.content(f.args[1]), f.args[0], args, kw, None)
            return r if r is not None else self.opaque_meth(f.args[1], f.args[0], args, kw)
        if f.op in ('poly1d', 'csfun', 'csmap', 'csroot'):
            return self.lib.call_value(self, f, args, kw)
        cls = self.inst_class(f)
        if cls is not None:
            m = self.getattr_opt(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
            r = self.lib.pseudo_call(self, f, cls, args, kw)
            if r is not None:
                return r
        if f.op == 'attr' and f.args[0].op == 'sym' and type_of(f.args[0]) != 'opaque':
            return self.opaque_meth(f.args[0], f.args[1], args, kw)
        sig = self.lib.call_signature(self, f)
        if sig is not None:
            args, kw = self.normalise_call(sig, args, kw)
        al = [self.frozen(a) for a in args] + [raw('kw', k, self.frozen(v)) for k, v in sorted(kw.items())]
        for a in al:
            if a.op == 'unknown':
                return a
        return euf('apply', self.frozen(f), *al)

    def normalise_call(self, sig, args, kw):
        """sig: list of (name, default or None).  Everything is passed by keyword, defaults filled in."""
        out = {}
        for (n, d), a in zip(sig, args):
            out[n] = a
        for k, v in kw.items():
            out[k] = v
        for n, d in sig:
            if n not in out and d is not None:
                out[n] = d
        return [], out

    def bind(self, f, args, kw):
        """-> dict name -> term, or None."""
        a = f.node.args
        pos = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        i = 0
        star_rest = None
        while args:
            x = args.pop(0)
            if x.op == 'star':
                if i >= len(pos) and a.vararg:
                    if args:
                        parts = [x.args[0]]
                        for y in args:
                            parts.append(y.args[0] if y.op == 'star' else mk_list([y]))
                        x = raw('star', seqs.lcat(*parts))
                        args = []
                    star_rest = x.args[0]
                    break
                return None
            if i < len(pos):
                out[pos[i]] = x
                i += 1
            elif a.vararg:
                rest = [x]
                parts = []
                for y in args:
                    if y.op == 'star':
                        parts.append(mk_list(rest))
                        parts.append(y.args[0])
                        rest = []
                    else:
                        rest.append(y)
                args = []
                if parts:
                    parts.append(mk_list(rest))
                    star_rest = seqs.lcat(*parts)
                else:
                    out[a.vararg.arg] = raw('tuple', *rest)
            else:
                return None
        if a.vararg and a.vararg.arg not in out:
            out[a.vararg.arg] = raw('tuple') if star_rest is None else raw('tupleof', star_rest)
        kwnames = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k == '**':
                if a.kwarg and not extra:
                    extra['**'] = v
                    continue
                return None
            if k in kwnames:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.kwarg:
            if '**' in extra:
                if len(extra) == 1:
                    out[a.kwarg.arg] = extra['**']
                else:
                    return None
            else:
                out[a.kwarg.arg] = self.new_dict(raw('dict', tuple((string(k), v) for k, v in extra.items())))
        d = f.defaults
        for name, dv in zip(pos[len(pos) - len(d):], d):
            out.setdefault(name, dv)
        for x, dv in zip(a.kwonlyargs, f.kwdefaults):
            if dv is not None:
                out.setdefault(x.arg, dv)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                return None
        return out

    def call_fn(self, ft, args, kw):
        f = self.fns[ft]
        q = self.qual(f)
        b = self.bind(f, args, kw)
        if b is None:
            return self.unk('cannot bind arguments of %s' % q)
        if q in self.opaque:
            return self.opaque_call(f, q, b)
        if q in self.contracts:
            return self.contracts[q](self, b)
        # recursion over the parts of a structure is followed, up to a depth no example reaches; elsewhere it stays opaque
        if sum(x is ft for x, _ in self.stack) > (14 if self.boxed else 0):
            return self.opaque_call(f, q, b, op='rec')
        if len(self.stack) > MAX_DEPTH:
            raise Blowup('call depth')
        return self.run_fn(ft, f, b, args)

    def opaque_call(self, f, q, b, op='rcall'):
        al = tuple((k, self.frozen(v)) for k, v in sorted(b.items()))
        for k, v in al:
            if v.op == 'unknown':
                return v
        names = tuple(k for k, v in al)
        r = euf(op, q, names, *[v for k, v in al])
        return self.lib.opaque_result(self, q, r)

    def run_fn(self, ft, f, b, args_=()):
        node = f.node
        self.analysed.setdefault(self.qual(f), (f.module.path, node.lineno))
        saved_loc = self.loc
        outer_alive = self.st.alive
        fr = raw('ref', next(self.addr))
        vars_ = dict(b)
        args = node.args
        allpos = list(getattr(args, 'posonlyargs', [])) + args.args
        if f.cls is not None and allpos:
            vars_['$self'] = b[allpos[0].arg]
        gen = not isinstance(node, ast.Lambda) and is_generator(node)
        flags = {'globals': set(), 'nonlocals': set()}
        if not isinstance(node, ast.Lambda):
            for s in ast.walk(node):
                if isinstance(s, ast.Global):
                    flags['globals'].update(s.names)
                elif isinstance(s, ast.Nonlocal):
                    flags['nonlocals'].update(s.names)
        self.st.heap[fr] = ('frame', vars_, f.frame, flags)
        self.link_params(f, fr, args_)
        if gen:
            self.set_var(fr, '$yield', self.new_list(mk_list([])))
        self.frames.append((fr, f.module, f.cls, ft))
        self.stack.append((ft, self.loc))
        ev0 = len(self.st.ev)
        self.st.alive = TRUE
        self.sinks.append([])
        try:
            if isinstance(node, ast.Lambda):
                val = self.eval(node.body)
                end = self.st
                exits = []
                rets = []
            else:
                end, exits = self.block(node.body, self.st)
                rets = [x for x in exits if x.kind == 'return']
                val = NONE
        finally:
            sink = self.sinks.pop()
            self.frames.pop()
            self.stack.pop()
            self.loc = saved_loc
        if gen:
            y = raw('ref', 0)
        states = [(x.st, x.val) for x in rets]
        if end is not None and end.alive is not FALSE:
            states.append((end, val))
        if not states:
            # always raises
            base = None
            if sink:
                self.st = sink[-1].st.copy()
            self.st.alive = FALSE
            res = raw('noreturn')
        else:
            st, res = states[-1]
            for s, v in reversed(states[:-1]):
                c = s.alive
                a1, a2 = s.alive, st.alive
                m = self.merge(c, s, st)
                m.alive = or_(a1, a2)
                res = v if v is res else self.ite_val(c, v, res)
                st = m
            self.st = st
        if gen and states:
            yref = self.st.heap[fr][1]['$yield']
            res = self.content(yref)
        # events: make conditions relative to the caller
        if outer_alive is not TRUE:
            self.st.ev = self.st.ev[:ev0] + tuple((and_(outer_alive, c), e, l) for c, e, l in self.st.ev[ev0:])
        self.st.alive = and_(outer_alive, self.st.alive)
        for x in sink:
            s = x.st
            s.alive = and_(outer_alive, s.alive)
            if s.alive is not FALSE:
                self.sinks[-1].append(Exit('raise', s, x.val, x.loc))
        return res

    def instantiate(self, cls, args, kw):
        c = self.classes[cls]
        if cls.args[0] in self.contracts:
            return self.contracts[cls.args[0]](self, args, kw)
        if cls.args[0] in self.opaque:
            al = [self.frozen(a) for a in args] + [raw('kw', k, self.frozen(v)) for k, v in sorted(kw.items())]
            init = self.class_attr(cls, '__init__')
            if init is not None and init.op == 'fn' and not any(a.op == 'star' for a in args):
                b = self.bind(self.fns[init], [NONE] + list(args), kw)
                if b is not None:
                    p0 = self.fns[init].node.args.args[0].arg
                    b.pop(p0, None)
                    al = [raw('kw', k, self.frozen(v)) for k, v in sorted(b.items())]
            return euf('new', cls.args[0], *al)
        new = self.class_attr(cls, '__new__')
        eb = self.has_ext_base(cls)
        if new is not None:
            obj = self.call(new if new.op == 'fn' else new.args[0], [cls] + list(args), kw)
            init = self.class_attr(cls, '__init__')
            if init is not None:
                self.call(raw('bound', init, obj), args, kw)
            return obj
        if eb is not None and eb.op == 'ntcls':
            return self.nt_new(cls, eb, args, kw)
        obj = self.alloc(('inst', cls, {}))
        init = self.class_attr(cls, '__init__')
        if init is not None:
            if init.op == 'fn':
                self.call_fn(init, [obj] + list(args), kw)
            else:
                self.call(raw('bound', init, obj), args, kw)
        elif eb is not None:
            self.lib.ext_super(self, raw('extsuper', eb, '__init__', obj), args, kw)
        return obj

    def nt_new(self, cls, nt, args, kw):
        fields = nt.args[1]
        d = dict(zip(fields, args))
        d.update(kw)
        if set(d) != set(fields):
            self.raise_(TRUE, string('TypeError'))
            return raw('noreturn')
        if cls.op == 'ntcls':
            return raw('inst', cls, tuple(sorted(d.items())))
        return self.alloc(('inst', cls, d))

    # =============================================================== statements
    def block(self, stmts, st):
        """-> (fallthrough state or None, exits)."""
        exits = []
        self.st = st
        for s in stmts:
            if self.st is None or self.st.alive is FALSE:
                return None, exits
            ex = self.stmt(s)
            exits.extend(ex)
            if self.st is None:
                return None, exits
        if self.st is not None and self.st.alive is FALSE:
            return None, exits
        return self.st, exits

    def stmt(self, s):
        self.steps += 1
        self.loc = (self.frames[-1][1].path, getattr(s, 'lineno', 0))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk('statement %s' % type(s).__name__)
            self.havoc_assigned(s)
            return []
        r = m(s)
        return r or []

    def s_Expr(self, s):
        v = self.eval(s.value)
        if v.op in ('apply', 'meth', 'rec', 'rcall') and not isinstance(s.value, ast.Constant):
            # value discarded: the call matters for its effect
            self.event('call', v)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.assign(ast.Name(id=nm), self.module_term(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        m = self.frames[-1][1]
        base = m._abs(s)
        for a in s.names:
            self.assign(ast.Name(id=a.asname or a.name), self.eval_binding(m, ('from', base, a.name), a.name))

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        pass

    def s_FunctionDef(self, s):
        fr, module, cls, fn = self.frames[-1]
        self.assign(ast.Name(id=s.name), self.make_fn(s, module, fr, None))

    def s_ClassDef(self, s):
        fr, module, cls, fn = self.frames[-1]
        self.assign(ast.Name(id=s.name), self.make_class(s, module, fr))

    def s_Assign(self, s):
        v = self.eval(s.value)
        src = view = None
        if self.is_obj(v):
            src = self.place_of(s.value)
            view = self.view_source(s.value) if src is None else None
            if src is not None or view is not None:
                self.token(src or view)
        old = (src or view, self.oids().get(src or view))
        for t in s.targets:
            self.assign(t, v)
            if isinstance(t, (ast.Name, ast.Attribute)) and self.is_obj(v):
                p = self.place_of(t)
                if p is None:
                    continue
                if old[1] is not None:
                    k = old[1]
                    self.set_oid(p, ('view', k) if view is not None and not isinstance(k, tuple) else k)
                elif len(s.targets) > 1:
                    old = (p, self.token(p))
        if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
            for t, n in zip(s.targets[0].elts, s.value.elts):
                p = self.place_of(t) if isinstance(t, ast.Name) else None
                q = self.place_of(n)
                x = self.read_place(p) if p is not None else None
                if p is not None and q is not None and p != q and x is not None and self.is_obj(x) and self.read_place(q) is x:
                    self.link(p, q)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = self.BINOPS.get(type(s.op), '?')
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
        else:
            cur = self.eval(ast_load(t))
        v = self.eval(s.value)
        self.loc = (self.frames[-1][1].path, s.lineno)
        # in-place list extension keeps the identity of the list
        if op == '+' and cur.op == 'ref' and self.deref(cur) is not None and self.deref(cur)[0] == 'list':
            add_ = self.seq_of(v)
            self.st.heap[cur] = ('list', lift(lambda l: seqs.lcat(l, add_), self.deref(cur)[1]))
            return
        if op == '|' and cur.op == 'ref' and self.deref(cur) is not None and self.deref(cur)[0] == 'dict':
            self.lib.container_method(self, cur, self.content(cur), 'update', [v], {}, None)
            return
        r = self.binop(op, cur, v)
        if self.is_obj(cur) and is_arr(cur) and ar.lib_of(cur) == 'np' and op != '@':
            self.mutate(t, r)
        else:
            self.assign(t, r)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval_index(t.slice)
                self.lib.delitem(self, o, i, t.value)
            else:
                self.unk('del')

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        st = self.st
        self.st = None
        if st.alive is FALSE:
            return []
        return [Exit('return', st, v, self.loc)]

    def s_Break(self, s):
        st = self.st
        self.st = None
        return [Exit('break', st)]

    def s_Continue(self, s):
        st = self.st
        self.st = None
        return [Exit('continue', st)]

    def s_Raise(self, s):
        name = 'reraise'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                # arguments are evaluated (they may fail) but only the class is observable
                e = e.func
            v = self.eval(e)
            name = self.exc_name(v)
        self.raise_(TRUE, string(name))
        self.st = None

    def exc_name_of(self, v):
        if isinstance(v, T):
            return v.args[0] if v.op == 'str' else pretty(v)
        return str(v)

    def exc_name(self, v):
        if v.op == 'ext':
            return v.args[0].rpartition('.')[2]
        if v.op == 'cls':
            return v.args[0].rpartition('.')[2]
        if v.op == 'excval':
            return v.args[0]
        if v.op in ('inst', 'ref'):
            c = self.inst_class(v)
            return c.args[0].rpartition('.')[2] if c else 'unknown'
        if v.op == 'call':
            return v.args[0].rpartition('.')[2]
        return 'unknown'

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if c.op == 'unknown':
            return
        self.raise_(not_(c), string('AssertionError'))
        if self.st.alive is FALSE:
            self.st = None

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        if c.op == 'unknown':
            return self.unknown_branch(s, c)
        base = self.st
        if c is TRUE:
            st, ex = self.block(s.body, base)
            self.st = st
            return ex
        if c is FALSE:
            st, ex = self.block(s.orelse, base)
            self.st = st
            return ex
        s1 = base.copy()
        s1.alive = and_(base.alive, c)
        s2 = base.copy()
        s2.alive = and_(base.alive, not_(c))
        ex = []
        r1 = r2 = None
        if s1.alive is not FALSE:
            r1, e1 = self.block(s.body, s1)
            ex += e1
        if s2.alive is not FALSE:
            r2, e2 = self.block(s.orelse, s2)
            ex += e2
        if r1 is None and r2 is None:
            self.st = None
        else:
            self.st = self.merge(c, r1, r2)
        return ex

    def unknown_branch(self, s, c):
        base = self.st
        before = len(self.sinks[-1])
        r1, e1 = self.block(s.body, base.copy())
        r2, e2 = self.block(s.orelse, base.copy())
        if len(self.sinks[-1]) > before or any(e.kind == 'raise' for e in e1 + e2):
            self.taint = c      # whether an exception is raised is not known
        if e1 or e2:
            # exits under an unknown condition: the result of the function is unknown
            ex = []
            for e in e1 + e2:
                if e.kind == 'return':
                    e.val = c
                ex.append(e)
            if r1 is None and r2 is None:
                self.st = None
                return ex
            st = self.merge(c, r1, r2)
            for n in list(st.heap):
                pass
            self.st = st
            return [Exit('return', st.copy(), c, self.loc)] if any(e.kind == 'return' for e in ex) else ex
        self.st = self.merge(c, r1, r2)
        return []

    def s_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        st, ex = self.block(s.body, self.st)
        self.st = st
        return ex

    def s_Try(self, s):
        handlers = s.handlers
        outer = self.st
        self.sinks.append([])
        self.may_raise = getattr(self, 'may_raise', [])
        soft = [h for h in handlers if not always_raises(h.body)]
        exits = []
        implicit = []
        st = self.st
        self.st = st
        for x in s.body:
            if self.st is None or self.st.alive is FALSE:
                break
            pre = self.st.copy()
            self.may_raise.append([])
            ex = self.stmt(x)
            mr = self.may_raise.pop()
            exits += ex
            if soft and mr:
                c = or_(*mr)
                if self.st is not None:
                    p = pre
                    p.alive = and_(pre.alive, c)
                    implicit.append(Exit('raise', p, string('Exception'), self.loc))
                    self.st.alive = and_(self.st.alive, not_(c))
        end = self.st
        sink = self.sinks.pop() + implicit
        if end is not None and s.orelse and end.alive is not FALSE:
            end, ex = self.block(s.orelse, end)
            exits += ex
        # handlers
        for r in sink:
            h = self.find_handler(handlers, r.val)
            if h is None:
                self.sinks[-1].append(r)
                continue
            hs = r.st.copy()
            if h.name:
                self.st = hs
                self.set_var(self.frames[-1][0], h.name, raw('excval', r.val.args[0] if r.val.op == 'str' else 'Exception'))
            self.sinks.append([])
            hst, ex = self.block(h.body, hs)
            hsink = self.sinks.pop()
            for y in hsink:
                if y.val.op == 'str' and y.val.args[0] == 'reraise':
                    y.val = r.val
                self.sinks[-1].append(y)
            exits += ex
            if hst is not None:
                end = self.merge(hst.alive, hst, end) if end is not None and end.alive is not FALSE else hst
        if s.finalbody and end is not None:
            end, ex = self.block(s.finalbody, end)
            exits += ex
        self.st = end
        return exits

    s_TryStar = s_Try

    EXC_PARENTS = {
        'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
        'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
        'AssertionError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'],
        'RuntimeError': ['Exception'], 'CompatibilityException': ['Exception'], 'StopIteration': ['Exception'],
        'NameError': ['Exception'],
    }

    def find_handler(self, handlers, exc):
        e = exc.args[0] if exc.op == 'str' else 'Exception'
        for h in handlers:
            if h.type is None:
                return h
            names = []
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?')
            for n in names:
                if n == e or n in ('Exception', 'BaseException') or n in self.EXC_PARENTS.get(e, []):
                    return h
        return None

    # ---------------------------------------------------------- loops
    def s_While(self, s):
        r = self.while_concrete(s)
        if r is not None:
            return r
        r = self.while_counting(s)
        if r is not None:
            return r
        self.unk('while loop')
        self.havoc_assigned(s)
        ex = []
        if any(isinstance(x, ast.Return) for x in ast.walk(s)):
            ex.append(Exit('return', self.st.copy(), self.unk('return in while loop'), self.loc))
        return ex

    def while_counting(self, s):
        """while i < n: ...; i += 1  is a loop over range(i, n)."""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(s.body) < 2:
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(l, ast.Name):
            i, bound, incl = l.id, r, isinstance(t.ops[0], ast.LtE)
        elif isinstance(t.ops[0], (ast.Gt, ast.GtE)) and isinstance(r, ast.Name):
            i, bound, incl = r.id, l, isinstance(t.ops[0], ast.GtE)
        else:
            return None
        last = s.body[-1]
        one = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i \
            and isinstance(last.value, ast.Constant) and last.value.value == 1
        one = one or isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i \
            and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == i \
            and isinstance(last.value.right, ast.Constant) and last.value.right.value == 1
        if not one:
            return None
        body = s.body[:-1]
        fixed = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)} | {i}
        for b in body:
            for x in walk_own(ast.Module(body=[b], type_ignores=[])):
                if isinstance(x, (ast.Continue, ast.Break)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in fixed:
                    return None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and any(isinstance(y, ast.Name) and y.id in fixed for y in ast.walk(x.value)):
                    return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in fixed - {i}:
                    return None
        lo = self.lookup(i)
        hi = self.eval(bound)
        if not is_int(lo) or not is_int(hi):
            return None
        if incl:
            hi = add(hi, ONE)
        key_ = id(s)
        f = self.rewritten.get(key_)
        if f is None:
            f = ast.For(target=ast.Name(i, ast.Store()), iter=bound, body=body, orelse=s.orelse)
            ast.copy_location(f, s)
            ast.fix_missing_locations(f)
            self.rewritten[key_] = f
        it = self.call(raw('ext', 'builtins.range'), [lo, hi], {})
        dom = self.seq_of(it)
        ex = self.for_split(f, dom) if dom.op == 'ite' else self.for_dom(f, dom, it)
        if self.st is not None:
            self.assign(ast.Name(i, ast.Store()), ite(tm.lt(lo, hi), hi, lo))
        return ex

    def while_concrete(self, s):
        """A loop whose test is decided on every round; None (nothing changed) if it is not."""
        saved = self.st.copy(), self.sinks[-1][:], list(self.notes)
        exits = []
        broken = []
        for _ in range(300):
            if self.st is None or self.st.alive is FALSE:
                break
            c = self.truth(self.eval(s.test))
            if c is FALSE:
                break
            if c is not TRUE:
                self.st, self.sinks[-1][:], self.notes = saved
                return None
            st, ex = self.block(s.body, self.st)
            for e in ex:
                if e.kind == 'continue':
                    st = e.st if st is None else self.merge(e.st.alive, e.st, st)
                elif e.kind == 'break':
                    broken.append(e.st)
                else:
                    exits.append(e)
            self.st = st
        else:
            self.st, self.sinks[-1][:], self.notes = saved
            return None
        if s.orelse and self.st is not None:
            self.st, ex = self.block(s.orelse, self.st)
            exits += ex
        for b in broken:
            self.st = b if self.st is None or self.st.alive is FALSE else self.merge(b.alive, b, self.st)
        return exits

    def havoc_assigned(self, s):
        names = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            # containers updated through methods
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = x.func.value
                if isinstance(b, ast.Name):
                    names.add(b.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    names.add(b.id)
        fr = self.frames[-1][0]
        for n in names:
            v = self.st.heap[fr][1].get(n)
            if v is None:
                self.set_var(fr, n, self.unk('modified in unsupported statement: %s' % n))
                continue
            if v.op == 'ref' and self.deref(v) is not None and self.deref(v)[0] in ('list', 'dict'):
                self.st.heap[v] = (self.deref(v)[0], self.unk('modified in unsupported statement'))
            elif v.op in ('fn', 'ext', 'cls', 'module'):
                pass
            elif v.op == 'ref':
                o = self.deref(v)
                if o and o[0] == 'inst' and n != 'self':
                    self.set_var(fr, n, self.unk('modified in unsupported statement: %s' % n))
            else:
                self.set_var(fr, n, self.unk('modified in unsupported statement: %s' % n))

    def havoc(self, cells, why):
        for c in cells:
            self.set_cell(self.st, c, self.unk(why))

    def s_For(self, s):
        self.loops += 1
        it = self.eval(s.iter)
        dom = self.seq_of(it)
        if dom.op == 'ite':
            return self.for_split(s, dom)
        return self.for_dom(s, dom, it)

    def for_split(self, s, dom):
        c, a, b = dom.args
        base = self.st
        out = []
        res = []
        for cond, d in ((c, a), (not_(c), b)):
            st = base.copy()
            st.alive = and_(base.alive, cond)
            if st.alive is FALSE:
                res.append(None)
                continue
            self.st = st
            if d.op == 'ite':
                out += self.for_split(s, d)
            else:
                out += self.for_dom(s, d, None)
            res.append(self.st)
        if res[0] is None and res[1] is None:
            self.st = None
        else:
            self.st = self.merge(c, res[0], res[1])
        return out

    def for_dom(self, s, dom, it):
        conc = seqs.concrete(dom)
        if conc is not None and len(conc) <= MAX_UNROLL:
            return self.for_concrete(s, conc, it)
        if dom.op == 'unknown':
            self.havoc_assigned(s)
            return []
        if dom.op == 'filt':
            return self.for_symbolic(s, dom, it)
        n, l = seqs.symbolic(dom)
        if n is None:
            self.unk('loop over %s' % dom.op)
            self.havoc_assigned(s)
            return []
        return self.for_symbolic(s, dom, it)

    def for_concrete(self, s, conc, it):
        exits = []
        broken = []
        for k, x in enumerate(conc):
            if self.st is None or self.st.alive is FALSE:
                break
            self.assign(s.target, x)
            self.link_item(s.target, x, it, num(k))
            st, ex = self.block(s.body, self.st)
            for e in ex:
                if e.kind == 'continue':
                    st = e.st if st is None else self.merge(e.st.alive, e.st, st)
                elif e.kind == 'break':
                    broken.append(e.st)
                else:
                    exits.append(e)
            self.st = st
        if s.orelse and self.st is not None:
            st, ex = self.block(s.orelse, self.st)
            self.st = st
            exits += ex
        for b in broken:
            self.st = b if self.st is None or self.st.alive is FALSE else self.merge(b.alive, b, self.st)
        return exits

    def link_item(self, target, x, it, idx):
        """The loop variable holds an element of the list that is iterated."""
        if it is not None and it.op == 'ref' and isinstance(target, ast.Name) and self.is_obj(x):
            o = self.deref(it)
            if o is not None and o[0] == 'list':
                self.link(('v', self.frames[-1][0], target.id), ('l', it, idx))

    # --- symbolic loops
    def changed_cells(self, a, b):
        """Cells whose value differs between two states (only objects that exist in a)."""
        out = []
        for ad, o1 in a.heap.items():
            o2 = b.heap.get(ad)
            if o1 is o2 or o2 is None or o1[0] == 'oid':
                continue
            k = o1[0]
            if k in ('frame', 'inst', 'ov'):
                p = 2 if k == 'inst' else 1
                d1, d2 = o1[p], o2[p]
                for n in d2:
                    if d1.get(n) is not d2[n]:
                        out.append((ad, n))
            else:
                if o1[1] is not o2[1]:
                    out.append((ad, None))
        return out

    def get_cell(self, st, c):
        ad, n = c
        o = st.heap.get(ad)
        if o is None:
            return None
        if n is None:
            return o[1]
        return o[2 if o[0] == 'inst' else 1].get(n)

    def set_cell(self, st, c, v):
        ad, n = c
        o = st.heap[ad]
        if n is None:
            st.heap[ad] = (o[0], v) + o[2:]
        elif o[0] == 'inst':
            d = dict(o[2])
            d[n] = v
            st.heap[ad] = ('inst', o[1], d)
        else:
            d = dict(o[1])
            d[n] = v
            st.heap[ad] = (o[0], d) + o[2:]

    def for_symbolic(self, s, dom, it):
        import loops
        return loops.summarise(self, s, dom, it)

    def lift_raises(self, sink, n, b):
        for x in sink:
            c = tm.any_(n, lam((b,), x.st.alive))
            self.loc, sv = x.loc or self.loc, self.loc
            if c.op == 'unknown':
                continue
            self.raise_(c, x.val)
            self.loc = sv

    def lift_events(self, ev, n, b):
        for c, e, l in ev:
            if c.op == 'unknown':
                continue
            self.st.ev = self.st.ev + ((self.st.alive, raw('evloop', n, lam((b,), raw('guarded', c, e))), l),)


def merge_oids(a, b):
    if a == b:
        return a
    out = {}
    for p in list(a) + [p for p in b if p not in a]:
        s, t = a.get(p), b.get(p)
        out[p] = s if s == t else ('amb', toks(s) | toks(t))
    return out


def toks(t):
    if t is None:
        return frozenset()
    if isinstance(t, tuple):
        return t[1] if t[0] == 'amb' else frozenset([t[1]])
    return frozenset([t])


def lib_is_cs(t):
    return ar.lib_of(t) == 'cs'


def is_generator(node):
    for x in walk_own(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    """Walk without entering nested functions/classes."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def always_raises(body):
    """Syntactic: the handler never falls through (ends in raise on every path)."""
    if not body:
        return False
    last = body[-1]
    if isinstance(last, ast.Raise):
        return True
    if isinstance(last, ast.If):
        return bool(last.orelse) and always_raises(last.body) and always_raises(last.orelse)
    return False


def ast_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
