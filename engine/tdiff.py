"""Smallest differing subterms of two terms."""
from terms import *


def diff(a, b, out=None, limit=6):
    """List of (sub_a, sub_b): innermost places where two canonical terms differ."""
    if out is None:
        out = []
    if a is b or len(out) >= limit:
        return out
    if not (isinstance(a, T) and isinstance(b, T)):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            n = len(out)
            for x, y in zip(a, b):
                if x is not y and x != y:
                    diff(x, y, out, limit)
            if len(out) == n:
                out.append((a, b))
            return out
        if a != b:
            out.append((a, b))
        return out
    if a.op != b.op or len(a.args) != len(b.args) or a.op == 'poly':
        out.append((a, b))
        return out
    n = len(out)
    bad = False
    sub = []
    for x, y in zip(a.args, b.args):
        if x is y or x == y:
            continue
        diff(x, y, sub, limit)
    out.extend(sub[:limit - len(out)])
    if len(out) == n:
        out.append((a, b))
    return out


def show(x):
    if isinstance(x, T):
        return pretty(x)
    return str(x)
