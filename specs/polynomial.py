"""Lagrange bases and interpolation."""
from verif import *
from casadi_extras.collocation import *
from casadi_extras.collocation.polynomial import *


def lagrange(tau, n, j, x):
    return PROD(n, lambda r: 1 if r == j else (x - tau[r]) / (tau[j] - tau[r]))


def weight(tau, n, k):
    return 1 / PROD(n, lambda r: 1 if r == k else tau[k] - tau[r])


@holds('C13', 'PolynomialBasis(tau).poly', raises='ignore')
def basis_polynomials(tau: 'np1[M]'):
    return LIST(M, lambda j: POLY(lambda x: lagrange(tau, M, j, x)))


@holds('C13', 'PolynomialBasis(tau).D', raises='ignore')
def differentiation_matrix(tau: 'np1[M]'):
    def off(j, k):
        return weight(tau, M, k) / weight(tau, M, j) / (tau[j] - tau[k])
    return MAT(M, M, lambda j, k: -SUM(M, lambda i: 0 if i == j else off(j, i)) if j == k else off(j, k))


@holds('C13', 'PolynomialBasis(tau).tau', raises='ignore')
def nodes(tau: 'np1[M]'):
    return tau


@holds('C13', 'PolynomialBasis(tau).numPoints', raises='ignore')
def num_points(tau: 'np1[M]'):
    return M


@holds('C13', 'PolynomialBasis(tau).order', raises='ignore')
def order(tau: 'np1[M]'):
    return M - 1


@holds('C13', 'PolynomialBasis(tau).compose(c)', raises='ignore')
def compose(tau: 'np1[M]', c: 'np2[K,M]'):
    return LIST(K, lambda i: POLY(lambda x: SUM(M, lambda j: c[i, j] * lagrange(tau, M, j, x))))


def interpolation_row(tau, n, x, j):
    hit = ANY(n, lambda k: x == tau[k])
    if hit:
        return 1 if x == tau[j] else 0
    return weight(tau, n, j) / (x - tau[j]) / SUM(n, lambda k: weight(tau, n, k) / (x - tau[k]))


@holds('C14', 'PolynomialBasis(tau).interpolationMatrix(t)', raises='ignore')
def interpolation_matrix(tau: 'np1[M]', t: 'np1[Q]'):
    return MAT(Q, M, lambda i, j: interpolation_row(tau, M, t[i], j))


@holds('C14', 'PolynomialBasis(tau).interpolationMatrix(t)', raises='ignore')
def interpolation_matrix_scalar(tau: 'np1[M]', t: 'num'):
    return MAT(1, M, lambda i, j: interpolation_row(tau, M, t, j))


@holds('C14', 'barycentricInterpolator(tau)(u, t)', raises='ignore')
def barycentric(tau: 'np1[M]', u: 'np2[K,M]', t: 'np1[Q]'):
    return MAT(K, Q, lambda i, q: SUM(M, lambda j: u[i, j] * interpolation_row(tau, M, t[q], j)))


@holds('C16', "collocationPoints(order, 'chebyshev')")
def chebyshev_points(order: 'pos'):
    return VEC(order + 1, lambda k: (1 - np.cos(np.pi * k / order)) / 2)


@holds('C16', "collocationPoints(0, 'chebyshev')")
def chebyshev_points_0():
    return np.array([0])
