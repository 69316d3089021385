"""Differential quadrature grids."""
import numpy as np
import casadi as cs
from verif import *
from casadi_extras.collocation import *
from casadi_extras import SystemTrajectory
from .polynomial import lagrange, weight, interpolation_row


def cheb_point(order, k):
    return (1 - np.cos(np.pi * k / order)) / 2


def point(t, order, n, k):
    return t[n] + (t[n + 1] - t[n]) * cheb_point(order, k)


def grid_point(t, N, order, i):
    return point(t, order, N - 1, order) if i == N * order else point(t, order, i // order, i % order)


def local_nodes(t, order, n):
    return VEC(order + 1, lambda k: point(t, order, n, k))


@holds('C19', 'Pdq(t, order).collocationPoints', raises='ignore')
def grid(t: 'np1[N+1]', order: 'pos'):
    return VEC(N * order + 1, lambda i: grid_point(t, N, order, i))


@holds('C19', 'Pdq(t, order).t0', raises='ignore')
def t0(t: 'np1[N+1]', order: 'pos'):
    return grid_point(t, N, order, 0)


@holds('C19', 'Pdq(t, order).tf', raises='ignore')
def tf(t: 'np1[N+1]', order: 'pos'):
    return grid_point(t, N, order, N * order)


@holds('C19', 'Pdq(t, order).intervalLength()', raises='ignore')
def length(t: 'np1[N+1]', order: 'pos'):
    return grid_point(t, N, order, N * order) - grid_point(t, N, order, 0)


@holds('C19', 'Pdq(t, order).numIntervals', raises='ignore')
def num_intervals(t: 'np1[N+1]', order: 'pos'):
    return N


@holds('C19', 'Pdq(t, order).polyOrder', raises='ignore')
def poly_order(t: 'np1[N+1]', order: 'pos'):
    return order


@holds('C19', 'Pdq(t, order).intervalBounds', raises='ignore')
def bounds(t: 'np1[N+1]', order: 'pos'):
    return t


@holds('C19', 'Pdq(t, order).derivative(y)', raises='ignore')
def derivative(t: 'np1[N+1]', order: 'pos', y: 'cs2[K,N*order+1]'):
    def d(r, i):
        n = i // order
        D = PolynomialBasis(local_nodes(t, order, n)).D
        return SUM(order + 1, lambda k: D[i % order, k] * y[r, n * order + k])
    return CSMAT(K, N * order, d)


@holds('C19', 'Pdq(t, order).expandInput(u)', raises='ignore')
def expand_input(t: 'np1[N+1]', order: 'pos', u: 'cs2[K,N]'):
    return CSMAT(K, N * order, lambda r, i: u[r, i // order])


@holds('C19', 'Pdq(t, order).integral(y)', raises='ignore')
def integral(t: 'np1[N+1]', order: 'pos', y: 'cs2[K,N*order]'):
    def growth(n):
        """Values at the points of interval n after the first, for zero at the first."""
        D = PolynomialBasis(local_nodes(t, order, n)).D
        return cs.solve(MAT(order, order, lambda i, j: D[i, j + 1]), CSMAT(order, K, lambda k, r: y[r, n * order + k]))
    return CSMAT(K, N * order, lambda r, i: SUM(i // order, lambda n: growth(n)[order - 1, r]) + growth(i // order)[i % order, r])
