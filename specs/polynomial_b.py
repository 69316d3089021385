"""Grids and power-basis interpolation."""
import numpy as np
import casadi as cs
from verif import *
from casadi_extras.collocation import *
from casadi_extras.collocation.polynomial import *
from .polynomial import lagrange, weight, interpolation_row


@holds('C16', "collocationPoints(order, scheme)")
def other_points(order: 'pos', scheme: 'str'):
    if scheme == 'chebyshev':
        return VEC(order + 1, lambda k: (1 - np.cos(np.pi * k / order)) / 2)
    pts = cs.collocation_points(order, scheme)
    return VEC(order + 1, lambda k: 0 if k == 0 else pts[k - 1])


@holds('C16', 'cheb(order, t0, tf)[1]', raises='ignore')
def cheb_points(order: 'pos', t0: 'num', tf: 'num'):
    return VEC(order + 1, lambda k: t0 + (tf - t0) * (1 - np.cos(np.pi * k / order)) / 2)


@holds('C16', 'cheb(order, t0, tf)[0]', raises='ignore')
def cheb_matrix(order: 'pos', t0: 'num', tf: 'num'):
    D = PolynomialBasis(VEC(order + 1, lambda k: (1 - np.cos(np.pi * k / order)) / 2)).D
    return MAT(order + 1, order + 1, lambda j, k: D[j, k] / (tf - t0))


@holds('C14', 'polynomialInterpolator(tau)(u, t)', raises='ignore')
def power_basis(tau: 'np1[M]', u: 'np2[K,M]', t: 'np1[Q]'):
    w = np.linalg.solve(MAT(M, M, lambda i, j: tau[j] ** i), MAT(M, Q, lambda i, q: t[q] ** i))
    return MAT(K, Q, lambda i, q: SUM(M, lambda j: u[i, j] * w[j, q]))


@holds('C14', 'barycentricInterpolator(tau)(u, t)', raises='ignore')
def barycentric_vector(tau: 'np1[M]', u: 'np1[M]', t: 'np1[Q]'):
    return VEC(Q, lambda q: SUM(M, lambda j: u[j] * interpolation_row(tau, M, t[q], j)))


# ------------------------------------------------------------------ what is accepted
@holds('C13', 'PolynomialBasis(tau).numPoints', raises='any')
def some_nodes(tau: 'np1[M]'):
    if M == 0:
        raise AssertionError()
    return M


@holds('C13', 'PolynomialBasis(tau).numPoints', raises='any')
def nodes_as_matrix(tau: 'np2[R,C]'):
    raise AssertionError()


@holds('C13', 'PolynomialBasis(tau).D', raises='any')
def one_node(tau: 'num'):
    return MAT(1, 1, lambda i, j: 0)


@holds('C13', 'PolynomialBasis([a, b]).D', raises='ignore')
def two_nodes(a: 'num', b: 'num'):
    return MAT(2, 2, lambda i, j: 1 / (b - a) if j == 1 else 1 / (a - b))


@holds('C13', 'len(PolynomialBasis(tau).compose(c))', raises='ignore')
def compose_count(tau: 'np1[M]', c: 'np2[K,M]'):
    return K


@holds('C14', 'PolynomialBasis(tau).interpolationMatrix(t)', raises='any')
def queries_as_matrix(tau: 'np1[M+1]', t: 'np2[R,C]'):
    raise AssertionError()


@holds('C14', 'PolynomialBasis(tau).interpolationMatrix(t)', raises='any')
def one_node_everywhere(tau: 'num', t: 'num'):
    return MAT(1, 1, lambda i, j: 1)


@holds('C14', 'PolynomialBasis(tau).interpolationMatrix([s, t])', raises='ignore')
def listed_queries(tau: 'np1[M]', s: 'num', t: 'num'):
    return MAT(2, M, lambda i, j: interpolation_row(tau, M, s if i == 0 else t, j))


@holds('C14', 'barycentricInterpolator(tau)(u, t)', raises='ignore')
def barycentric_scalar(tau: 'np1[M]', u: 'np2[K,M]', t: 'num'):
    return MAT(K, 1, lambda i, q: SUM(M, lambda j: u[i, j] * interpolation_row(tau, M, t, j)))


@holds('C14', 'polynomialInterpolator(tau)(u, t)', raises='ignore')
def power_basis_vector(tau: 'np1[M]', u: 'np1[M]', t: 'np1[Q]'):
    w = np.linalg.solve(MAT(M, M, lambda i, j: tau[j] ** i), MAT(M, Q, lambda i, q: t[q] ** i))
    return VEC(Q, lambda q: SUM(M, lambda j: u[j] * w[j, q]))


@holds('C14', 'polynomialInterpolator(tau)(u, t)', raises='any')
def power_basis_matrix_nodes(tau: 'np2[R,C]', u: 'np2[K,C]', t: 'np1[Q]'):
    raise AssertionError()


@holds('C16', 'cheb(0, t0, tf)[1]', raises='any')
def cheb_point_0(t0: 'num', tf: 'num'):
    return VEC(1, lambda k: t0)


@holds('C16', 'cheb(0, t0, tf)[0]', raises='ignore')
def cheb_matrix_0(t0: 'num', tf: 'num'):
    return MAT(1, 1, lambda j, k: 0 / (tf - t0))


@holds('C16', 'len(collocationPoints(order, scheme))', raises='any')
def points_count(order: 'pos', scheme: 'str'):
    return order + 1


@holds('C16', 'collocationPoints(order, scheme)[0]', raises='any')
def first_point(order: 'pos', scheme: 'str'):
    return 0
