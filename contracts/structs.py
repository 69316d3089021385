"""What the rest of the package may assume about structures.

The classes below stand for the structures of casadi_extras.structure3 when code that uses them is analysed: an ordered
sequence of named entries.  That structure3 itself behaves like this is the subject of the structure properties.
Only entries given by an expression are described; anything else is outside the contract.
"""
import numpy as np
import casadi as cs
from verif import *
from casadi_extras.structure3 import MXVeccatStruct, MXStruct, DMStruct


class Entry:
    def __init__(self, name, expr):
        self.name = name
        self.expr = expr


class Bare:
    """Entry without an expression."""

    def __init__(self, name):
        self.name = name


class Entries:
    """Named blocks in order."""

    def blocks(self):
        return [(n, self.table[n]) for n in self.names]

    def values(self):
        return [self.table[n] for n in self.names]

    def keys(self):
        return list(self.names)

    def __getitem__(self, name):
        return self.table[name]

    def __setitem__(self, name, value):
        self.table[name] = value

    def __call__(self, arg):
        parts = ROOTPARTS(arg)
        if parts is not None:
            return MXEntries(self.names, dict(zip(self.names, parts)))
        if isinstance(arg, dict):
            return DMEntries(self.names, dict((n, arg[n]) for n in self.names))
        return UNMODELLED('structure called with a matrix')

    @property
    def cat(self):
        return cs.vertcat(*[cs.vec(v) for v in self.values()])

    @property
    def size(self):
        return sum([v.numel() for v in self.values()])

    @property
    def shape(self):
        return (self.size, 1)

    def numel(self):
        return self.size

    def is_column(self):
        return True

    def is_dense(self):
        return True

    def is_valid_input(self):
        return all([v.is_valid_input() for v in self.values()])


class MXEntries(Entries, MXVeccatStruct):
    def __init__(self, names, table):
        self.names = names
        self.table = table


class DMEntries(Entries, DMStruct):
    def __init__(self, names, table):
        self.names = names
        self.table = table


def struct_MX(arg, order=None):
    if isinstance(arg, Entries):
        return MXEntries(arg.names, dict((n, None) for n in arg.names))
    for e in arg:
        if isinstance(e, Bare):
            raise Exception()
    return MXEntries([e.name for e in arg], dict((e.name, e.expr) for e in arg))


class Tableau:
    """A Butcher tableau over the given nodes; its coefficients are the subject of another property."""

    def __init__(self, tau):
        n = len(tau)
        self.A = TABLE('A', tau, n, n)
        self.b = TABLE('b', tau, n)
        self.c = np.array(tau)


class Trajectory:
    """A piecewise polynomial as the parts it is made of; what it evaluates to is the subject of another property."""

    def __init__(self, intervals, coefficients, basis):
        self.intervals = intervals
        self.coefficients = coefficients
        self.basis = basis
