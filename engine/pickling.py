"""What pickling does to heap objects: dumps takes a snapshot through __getstate__, loads rebuilds it through __setstate__."""
from terms import *
import terms as tm
import spmodel


class Stuck(Exception):
    pass


def refs_in(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'ref':
            out.append(x)
        else:
            stack.extend(reversed(x.args))
    return out


def mapped(t, f):
    m = {r: f(r) for r in refs_in(t)}
    return tm.subst(t, m) if m else t


def dumps(flow, v):
    """Snapshot of a value, or None if it has parts that are not followed."""
    memo = {}

    def value(t):
        if t.op in ('fn', 'bound'):
            f = flow.fns.get(t.args[0] if t.op == 'bound' else t)
            if f is None or f.name == '<lambda>':
                flow.raise_(TRUE, string('PicklingError'))
        if not flow.is_box(t) and spmodel.is_matrix(t):
            can(spmodel.kind(flow, t))
        return mapped(t, ref)

    def can(kind):
        if kind in ('MX', 'SX'):
            flow.raise_(TRUE, string('TypeError'))

    def ref(r):
        if r in memo:
            return memo[r]
        o = flow.deref(r)
        if o is None:
            raise Stuck()
        if o[0] == 'mat':
            can(o[2])
            memo[r] = flow.alloc(o)
        elif o[0] in ('list', 'dict', 'set'):
            new = memo[r] = flow.alloc(o)
            flow.st.heap[new] = (o[0], value(o[1])) + o[2:]
        elif o[0] == 'inst' and '__base__' not in o[2]:
            get = flow.class_attr(o[1], '__getstate__')
            new = memo[r] = flow.alloc(('pickled', NONE, o[1]))
            if get is not None:
                state = flow.call(raw('bound', get, r), [], {})
            elif o[2]:
                state = flow.new_dict(raw('dict', tuple((string(k), x) for k, x in o[2].items())))
            else:
                state = NONE
            flow.st.heap[new] = ('pickled', value(state), o[1])
        else:
            raise Stuck()
        return memo[r]
    try:
        return value(v)
    except Stuck:
        return None


def loads(flow, v):
    """New objects from a snapshot."""
    memo = {}

    def value(t):
        return mapped(t, ref)

    def ref(r):
        if r in memo:
            return memo[r]
        o = flow.deref(r)
        if o[0] == 'mat':
            memo[r] = flow.alloc(o)
        elif o[0] in ('list', 'dict', 'set'):
            new = memo[r] = flow.alloc(o)
            flow.st.heap[new] = (o[0], value(o[1])) + o[2:]
        elif o[0] == 'pickled':
            new = memo[r] = flow.alloc(('inst', o[2], {}))
            state = value(o[1])
            put = flow.class_attr(o[2], '__setstate__')
            if state is NONE:
                pass
            elif put is not None:
                flow.call(raw('bound', put, new), [state], {})
            else:
                c = flow.content(state)
                if c.op != 'dict' or any(k.op != 'str' for k, x in c.args[0]):
                    raise Stuck()
                for k, x in c.args[0]:
                    flow.setattr(new, k.args[0], x)
        else:
            raise Stuck()
        return memo[r]
    try:
        return value(v)
    except Stuck:
        return None
