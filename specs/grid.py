"""Interpolation on differential quadrature grids and system trajectories."""
import numpy as np
import casadi as cs
from verif import *
from casadi_extras.collocation import *
from casadi_extras import SystemTrajectory
from .polynomial import interpolation_row
from .pdq import point, grid_point


def interval(t, N, tq, side):
    return np.clip(np.searchsorted(t, tq, side) - 1, 0, N - 1)


def value(t, N, order, x, r, tq, side, node, first, count, shift):
    """Value of row r at tq from the grid points first .. first + count - 1 of the interval; shift: column of grid point 0."""
    n = interval(t, N, tq, side)
    nodes = VEC(count, lambda k: node(t, N, order, n, first + k))
    return SUM(count, lambda k: x[r, n * order + first + k - shift] * interpolation_row(nodes, count, tq, k))


def of_grid(t, N, order, n, k):
    return grid_point(t, N, order, n * order + k)


def of_interval(t, N, order, n, k):
    return point(t, order, n, k)


def value_both(t, N, order, x, r, tq):
    return value(t, N, order, x, r, tq, 'right', of_grid, 0, order + 1, 0)


def value_right(t, N, order, x, r, tq):
    return value(t, N, order, x, r, tq, 'right', of_interval, 0, order, 0)


def value_left(t, N, order, x, r, tq):
    return value(t, N, order, x, r, tq, 'left', of_grid, 1, order, 1)


@holds('C20', 'Pdq(t, order).interpolator()(x, tq)', raises='ignore')
@holds('C20', "Pdq(t, order).interpolator('both')(x, tq)", raises='ignore')
def both(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order+1]', tq: 'np1[Q]'):
    return MAT(K, Q, lambda r, i: value_both(t, N, order, x, r, tq[i]))


@holds('C20', "Pdq(t, order).interpolator(continuity='right')(x, tq)", raises='ignore')
def right(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order]', tq: 'np1[Q]'):
    return MAT(K, Q, lambda r, i: value_right(t, N, order, x, r, tq[i]))


@holds('C20', "Pdq(t, order).interpolator(continuity='left')(x, tq)", raises='ignore')
def left(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order]', tq: 'np1[Q]'):
    return MAT(K, Q, lambda r, i: value_left(t, N, order, x, r, tq[i]))


@holds('C20', "Pdq(t, order).interpolator()(x, tq)", raises='ignore')
def both_scalar(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order+1]', tq: 'num'):
    return MAT(K, 1, lambda r, i: value_both(t, N, order, x, r, tq))


@holds('C20', "Pdq(t, order).interpolator('right')(x, tq)", raises='ignore')
def right_scalar(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order]', tq: 'num'):
    return MAT(K, 1, lambda r, i: value_right(t, N, order, x, r, tq))


@holds('C20', "Pdq(t, order).interpolator('left')(x, tq)", raises='ignore')
def left_scalar(t: 'np1[N+1]', order: 'pos', x: 'np2[K,N*order]', tq: 'num'):
    return MAT(K, 1, lambda r, i: value_left(t, N, order, x, r, tq))


@holds('C20', "Pdq(t, order).interpolator(continuity) is None", raises='ValueError')
def continuity_values(t: 'np1[N+1]', order: 'pos', continuity: 'str'):
    if continuity != 'both' and continuity != 'left' and continuity != 'right':
        raise ValueError()
    return False


@holds('C20', "Pdq(t, order).interpolator('both')(x, tq).shape[1]", raises='ValueError')
def columns_both(t: 'np1[N+1]', order: 'pos', x: 'np2[K,C]', tq: 'np1[Q]'):
    if C != N * order + 1:
        raise ValueError()
    return Q


@holds('C20', "Pdq(t, order).interpolator('right')(x, tq).shape[1]", raises='ValueError')
@holds('C20', "Pdq(t, order).interpolator('left')(x, tq).shape[1]", raises='ValueError')
def columns_one_sided(t: 'np1[N+1]', order: 'pos', x: 'np2[K,C]', tq: 'np1[Q]'):
    if C != N * order:
        raise ValueError()
    return Q


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).state(tq)', raises='ignore')
def state(t: 'np1[N+1]', order: 'pos', x: 'np2[X,N*order+1]', z: 'np2[Z,N*order]', u: 'np2[U,N*order]', tq: 'np1[Q]'):
    return MAT(X, Q, lambda r, i: value_both(t, N, order, x, r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).algState(tq)', raises='ignore')
def alg_state(t: 'np1[N+1]', order: 'pos', x: 'np2[X,N*order+1]', z: 'np2[Z,N*order]', u: 'np2[U,N*order]', tq: 'np1[Q]'):
    return MAT(Z, Q, lambda r, i: value_right(t, N, order, z, r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).input(tq)', raises='ignore')
def control(t: 'np1[N+1]', order: 'pos', x: 'np2[X,N*order+1]', z: 'np2[Z,N*order]', u: 'np2[U,N*order]', tq: 'np1[Q]'):
    return MAT(U, Q, lambda r, i: value_right(t, N, order, u, r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).time', raises='ignore')
def time(t: 'np1[N+1]', order: 'pos', x: 'np2[X,N*order+1]', z: 'np2[Z,N*order]', u: 'np2[U,N*order]', tq: 'np1[Q]'):
    return t


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).state(tq)', raises='ignore')
def state_of_one_row(t: 'np1[N+1]', order: 'pos', x: 'np1[N*order+1]', z: 'np1[N*order]', u: 'np1[N*order]', tq: 'np1[Q]'):
    return MAT(1, Q, lambda r, i: value_both(t, N, order, MAT(1, N * order + 1, lambda r, k: x[k]), r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).algState(tq)', raises='ignore')
def alg_state_of_one_row(t: 'np1[N+1]', order: 'pos', x: 'np1[N*order+1]', z: 'np1[N*order]', u: 'np1[N*order]', tq: 'np1[Q]'):
    return MAT(1, Q, lambda r, i: value_right(t, N, order, MAT(1, N * order, lambda r, k: z[k]), r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)).input(tq)', raises='ignore')
def control_of_one_row(t: 'np1[N+1]', order: 'pos', x: 'np1[N*order+1]', z: 'np1[N*order]', u: 'np1[N*order]', tq: 'np1[Q]'):
    return MAT(1, Q, lambda r, i: value_right(t, N, order, MAT(1, N * order, lambda r, k: u[k]), r, tq[i]))


@holds('C20', 'SystemTrajectory(x, z, u, Pdq(t, order)) is None', raises='any')
def trajectory_columns(t: 'np1[N+1]', order: 'pos', x: 'np2[X,cx]', z: 'np2[Z,cz]', u: 'np2[U,cu]'):
    Pdq(t, order)
    if cx != N * order + 1 or cz != N * order or cu != N * order:
        raise AssertionError()
    return False
