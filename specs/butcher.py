"""Butcher tableaus."""
import casadi as cs
from verif import *
from casadi_extras.collocation import *
from casadi_extras.collocation.butcher import ButcherTableau, butcherTableuForCollocationPoints, butcherTableuForCollocationMethod


def lagrange(tau, n, j, x):
    return PROD(n, lambda r: 1 if r == j else (x - tau[r]) / (tau[j] - tau[r]))


@holds('C15', 'butcherTableuForCollocationPoints(tau).A', raises='ignore')
def A(tau: 'np1[M]'):
    return MAT(M, M, lambda i, j: INTEGRAL(lambda x: lagrange(tau, M, j, x), tau[i]))


@holds('C15', 'butcherTableuForCollocationPoints(tau).b', raises='ignore')
def b(tau: 'np1[M]'):
    return VEC(M, lambda j: INTEGRAL(lambda x: lagrange(tau, M, j, x), 1))


@holds('C15', 'butcherTableuForCollocationPoints(tau).c', raises='ignore')
def c(tau: 'np1[M]'):
    return tau


@holds('C15', 'butcherTableuForCollocationMethod(order, method).A', raises='ignore')
def method_A(order: 'pos', method: 'str'):
    return butcherTableuForCollocationPoints(cs.collocation_points(order, method)).A


@holds('C15', 'butcherTableuForCollocationMethod(order, method).b', raises='ignore')
def method_b(order: 'pos', method: 'str'):
    return butcherTableuForCollocationPoints(cs.collocation_points(order, method)).b


@holds('C15', 'butcherTableuForCollocationMethod(order, method).c', raises='ignore')
def method_c(order: 'pos', method: 'str'):
    return butcherTableuForCollocationPoints(cs.collocation_points(order, method)).c


@holds('C15', '(lambda B: (B.A, B.b, B.c))(ButcherTableau(A, b, c))', raises='ignore')
@holds('C15', '(lambda B: (B.A, B.b, B.c))(ButcherTableau(c=c, b=b, A=A))', raises='ignore')
def parts(A: 'np2[M,M]', b: 'np1[M]', c: 'np1[M]'):
    return (A, b, c)


@holds('C15', 'ButcherTableau(A, b, c) is None', raises='any')
def sizes(A: 'np2[R,C]', b: 'np1[S]', c: 'np1[T]'):
    if R != C or S != C or T != C:
        raise AssertionError()
    return False


@holds('C15', 'ButcherTableau(A, b, c) is None', raises='any')
def matrix_as_vector(A: 'np1[M]', b: 'np1[S]', c: 'np1[T]'):
    raise AssertionError()


@holds('C15', 'ButcherTableau(A, b, c) is None', raises='any')
def weights_as_matrix(A: 'np2[R,C]', b: 'np2[S,1]', c: 'np1[T]'):
    raise AssertionError()


@holds('C15', 'ButcherTableau(A, b, c) is None', raises='any')
def nodes_as_matrix(A: 'np2[R,C]', b: 'np1[S]', c: 'np2[1,T]'):
    raise AssertionError()
