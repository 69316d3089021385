"""Known effects, one per function; the analysis must find exactly the ones marked bad."""
import copy
import numpy as np

REGISTRY = []
TABLE = {}


def bad_item(x):
    x[0] = 1


def bad_alias(x):
    y = np.atleast_1d(x)
    y -= 1
    return y


def bad_slice(x):
    y = np.asarray(x)
    y[1:] *= 2
    return y


def bad_inner(xs):
    for x in xs:
        x.name = 'a'


def bad_default(a, seen=[]):
    seen.append(a)
    return seen


def bad_module(a):
    REGISTRY.append(a)


def bad_helper(x):
    return _sort(x)


def _sort(x):
    x.sort()
    return x


def bad_out(x):
    return np.add(x, 1, out=x)


def bad_key(x):
    k = len(x)
    if k not in TABLE:
        TABLE[k] = np.sum(x)
    return TABLE[k]


def good_copy(x):
    y = list(x)
    y.sort()
    z = np.array(x)
    z[0] = 1
    w = copy.copy(x)
    w[0] = 2
    return _sort(list(x)), y, z, w


def good_local(n):
    out = []
    for i in range(n):
        _fill(out, i)
    d = {}
    d['a'] = out
    d['a'].append(1)
    n -= 1
    return d


def _fill(out, i):
    out.append(i)


class Thing(object):
    shared = []

    def __init__(self, a, b, log=[]):
        self.a = a
        self.b = list(b)
        self.b.append(1)
        self.log = log
        self._sum = None
        self._last = None

    def __setitem__(self, i, v):
        self.log.append(v)

    def good_cached(self):
        if self._sum is None:
            self._sum = sum(self.b)
        return self._sum

    def bad_cached(self, x):
        if self._last is None:
            self._last = x + 1
        return self._last

    def bad_query(self):
        self.b.pop()

    def bad_self(self):
        self.a = 3

    def good_read(self):
        return self.a

    def bad_class(self):
        self.shared.append(1)

    def bad_through_field(self, x):
        t = Other(x)
        t.grow()
        return t


class Other(object):
    def __init__(self, items):
        self.items = items
        self.n = 0

    def grow(self):
        self.items.append(1)

    def bad_count(self):
        self.n += 1
        return self.n
