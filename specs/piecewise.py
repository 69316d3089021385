"""Piecewise polynomials."""
import numpy as np
from verif import *
from casadi_extras.collocation import *
from .polynomial import lagrange, weight, interpolation_row


def interval(t, n, x, side):
    return min(max(np.searchsorted(t, x, side) - 1, 0), n - 1)


def value(t, n, c, row, tau, m, x, side):
    k = interval(t, n, x, side)
    s = (x - t[k]) / (t[k + 1] - t[k])
    return SUM(m, lambda j: c[k][row, j] * interpolation_row(tau, m, s, j))


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau))(x, side)', raises='ValueError')
def evaluate(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'np1[Q]', side: 'str'):
    if side != 'left' and side != 'right':
        raise ValueError()
    return MAT(K, Q, lambda i, q: value(t, N, c, i, tau, M, x[q], side))


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau))(x)', raises='ValueError')
def evaluate_scalar(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'num'):
    return MAT(K, 1, lambda i, q: value(t, N, c, i, tau, M, x, 'right'))


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau)).numIntervals', raises='ValueError')
def num_intervals(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]'):
    return N


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau)).intervals', raises='ValueError')
def intervals(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]'):
    return t


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).derivative()(x, side)', raises='ValueError')
def derivative(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'np1[Q]', side: 'str'):
    if side != 'left' and side != 'right':
        raise ValueError()
    D = PolynomialBasis(tau).D
    dc = LIST(N, lambda n: MAT(K, M, lambda i, j: SUM(M, lambda k: D[j, k] * c[n][i, k]) / (t[n + 1] - t[n])))
    return MAT(K, Q, lambda i, q: value(t, N, dc, i, tau, M, x[q], side))


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).derivative().intervals', raises='ignore')
def derivative_intervals(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]'):
    return t


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).poly(n)', raises='ignore')
def local_polynomials(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', n: 'nat'):
    h = t[n + 1] - t[n]
    return LIST(K, lambda i: POLY(lambda x: SUM(M, lambda j: c[n][i, j] * lagrange(tau, M, j, x / h))))


def samples(t, n, step):
    s = np.arange(0, 1, step / (t[n + 1] - t[n]))
    return s if s[-1] == 1 else np.append(s, 1)


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).discretize(step)[0]', raises='ignore')
def sample_points(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', step: 'num'):
    def points(n):
        s = samples(t, n, step)
        return t[n] + s * (t[n + 1] - t[n])
    return np.hstack([points(n) for n in range(N)])


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).discretize(step)[1]', raises='ignore')
def sample_values(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', step: 'num'):
    def values(n):
        s = samples(t, n, step)
        return MAT(K, len(s), lambda i, q: SUM(M, lambda j: c[n][i, j] * interpolation_row(tau, M, s[q], j)))
    return np.atleast_2d(np.hstack([values(n) for n in range(N)]))


# ------------------------------------------------------------------ what is accepted, other kinds of arguments
@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau)).numIntervals', raises='any')
def matching_data(t: 'np1[L]', c: 'list:np2[N,K,M+1]', tau: 'np1[M+1]'):
    if L < 2 or N != L - 1:
        raise AssertionError()
    return N


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau))(x, side)', raises='ValueError')
def evaluate_row(t: 'np1[N+1]', c: 'list:np1[N,M]', tau: 'np1[M]', x: 'np1[Q]', side: 'str'):
    if side != 'left' and side != 'right':
        raise ValueError()

    def at(x):
        k = interval(t, N, x, side)
        s = (x - t[k]) / (t[k + 1] - t[k])
        return SUM(M, lambda j: c[k][j] * interpolation_row(tau, M, s, j))
    return MAT(1, Q, lambda i, q: at(x[q]))


@holds('C17', 'PiecewisePoly(t, c, PolynomialBasis(tau))([x, y])', raises='ValueError')
def evaluate_list(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'num', y: 'num'):
    return MAT(K, 2, lambda i, q: value(t, N, c, i, tau, M, y if q == 1 else x, 'right'))


@holds('C17', "PiecewisePoly(t, c, PolynomialBasis(tau))(x, continuity='left')", raises='ValueError')
def evaluate_left(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'num'):
    return MAT(K, 1, lambda i, q: value(t, N, c, i, tau, M, x, 'left'))


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).derivative()(x)', raises='ValueError')
def derivative_scalar(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'num'):
    D = PolynomialBasis(tau).D
    dc = LIST(N, lambda n: MAT(K, M, lambda i, j: SUM(M, lambda k: D[j, k] * c[n][i, k]) / (t[n + 1] - t[n])))
    return MAT(K, 1, lambda i, q: value(t, N, dc, i, tau, M, x, 'right'))


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).derivative().numIntervals', raises='ignore')
def derivative_count(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]'):
    return N


@holds('C18', 'PiecewisePoly(t, c, PolynomialBasis(tau)).derivative().derivative()(x)', raises='ValueError')
def second_derivative(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', x: 'num'):
    D = PolynomialBasis(tau).D

    def second(n, i, j):
        h = t[n + 1] - t[n]
        return SUM(M, lambda k: D[j, k] * (SUM(M, lambda l: D[k, l] * c[n][i, l]) / h)) / h
    dc = LIST(N, lambda n: MAT(K, M, lambda i, j: second(n, i, j)))
    return MAT(K, 1, lambda i, q: value(t, N, dc, i, tau, M, x, 'right'))


@holds('C18', 'len(PiecewisePoly(t, c, PolynomialBasis(tau)).poly(n))', raises='ignore')
def local_count(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', n: 'nat'):
    return K


@holds('C18', '(lambda f: (f.poly(n), f.poly(n))[1])(PiecewisePoly(t, c, PolynomialBasis(tau)))', raises='ignore')
def local_polynomials_again(t: 'np1[N+1]', c: 'list:np2[N,K,M]', tau: 'np1[M]', n: 'nat'):
    h = t[n + 1] - t[n]
    return LIST(K, lambda i: POLY(lambda x: SUM(M, lambda j: c[n][i, j] * lagrange(tau, M, j, x / h))))
