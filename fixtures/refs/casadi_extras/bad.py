import numpy as np
import casadi as cs


class Thing(object):
    def __init__(self, a, b=1):
        self.a = a

    def get(self, flag):
        if flag:
            c = 1
        return c

    def name(self):
        return undefined_name

    def early(self):
        x = y
        y = 1
        return x

    def attr(self):
        return self.never_set

    def lib(self):
        return np.no_such_function(cs.MX.no_such_member(1))

    def other(self, o):
        return o.misspelled_atribute

    def call(self):
        return self.get(1, 2)

    def fmt(self, v):
        return '%s and %s' % (v,) + '{0} {1}'.format(v) + '%s %s' % str(v)


def use():
    t = Thing()
    np.clip()
    return t.absent
