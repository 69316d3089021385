"""Collocation scheme and integrator.

Every access expression starts with the symbols of the scheme, so that the symbols on the two sides correspond.
"""
import numpy as np
import casadi as cs
from verif import *
from casadi_extras import *
from casadi_extras.dae_model import SemiExplicitDae, ImplicitDae
from casadi_extras.collocation import *
from casadi_extras.collocation.butcher import butcherTableuForCollocationPoints
from casadi_extras.collocation.collocation import CollocationScheme, CollocationIntegrator, collocationIntegrator


def tableau(order, method):
    return butcherTableuForCollocationPoints(cs.collocation_points(order, method))


def implicit(x, z, u, p, t, xdot, dae, quad):
    return ImplicitDae(x=x, z=z, u=u, p=p, t=t, xdot=xdot, dae=dae, quad=quad)


def state(tg, order, B, x, K, n, m, i):
    """State i at collocation point m of interval n."""
    return x[i, n] + (tg[n + 1] - tg[n]) * SUM(order, lambda l: B.A[m, l] * K[i, n * order + l])


def column(v, j, r):
    """Column j as a matrix of its own."""
    return CSMAT(r, 1, lambda i, q: v[i, j])


def time(tg, B, order, j):
    return tg[j // order] + (tg[j // order + 1] - tg[j // order]) * B.c[j % order]


def points(e, args, tg, order, B, xs, K, Z, us, ps, rows, nx, nz, nu):
    """Model expression e at all collocation points."""
    def at(j):
        n = j // order
        m = j % order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, m, i))
        return AT(e, args, [column(K, j, nx), X, column(Z, j, nz), column(us, n, nu), ps, time(tg, B, order, j)])
    return CSMAT(rows, len(tg) * order - order, lambda i, j: at(j)[i, 0])


# ---------------------------------------------------------------- equations
@holds('C21', "(lambda s: (s.x, s.K, s.X))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
def X(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
      quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    return (xs, K, CSMAT(nx, N * order, lambda i, j: state(tg, order, B, xs, K, j // order, j % order, i)))


@holds('C21', "CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).tc",
       raises='ignore', tableau='any')
def tc(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
       quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    return VEC(N * order, lambda j: time(tg, B, order, j))


@holds('C21', "(lambda s: (s.x, s.K, s.eq['continuity']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
def continuity(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
               quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    return (xs, K, CSMAT(nx, N, lambda i, n: xs[i, n] + (tg[n + 1] - tg[n]) * SUM(order, lambda m: B.b[m] * K[i, n * order + m])
                         - xs[i, n + 1]))


@holds('C21', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
@holds('C21', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, expand=False))",
       raises='ignore', tableau='any')
@holds('C21', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, parallelization='openmp'))",
       raises='ignore', tableau='any')
@holds('C21', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def collocation(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
                quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    return (xs, K, Z, us, ps, points(dae, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nx + nz, nx, nz, nu))


# ---------------------------------------------------------------- inputs and parameters
@holds('C22', "(lambda s: (s.u, s.U))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
@holds('C22', "(lambda s: (s.u, s.U))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, par, expand=ex))",
       raises='ignore', tableau='any')
def U(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
      quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    us = cs.MX.sym('u', nu, N)
    return (us, CSMAT(nu, N * order, lambda i, j: us[i, j // order]))


@holds('C22', "(lambda s: (s.p, s.eq['param'].numel()))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
@holds('C22', "(lambda s: (s.p, s.eq['param'].numel()))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, par, expand=ex))",
       raises='ignore', tableau='any')
def shared(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
           quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    return (cs.MX.sym('p', np), 0)


@holds('C22', "(lambda s: (s.p, s.eq['param']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True))",
       raises='ignore', tableau='any')
@holds('C22', "(lambda s: (s.p, s.eq['param']))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True, parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def repeated(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
             quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    ps = cs.MX.sym('p', np, N * order)
    return (ps, CSMAT(np, N * order - 1, lambda i, j: ps[i, j + 1] - ps[i, j]))


def time_parameter(w, nd):
    """A time-dependent parameter with nd components w(i, time)."""
    return lambda s: CSMAT(nd, 1, lambda i, q: w(i, s))


@holds('C22', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))"
              "(CollocationScheme(ImplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, xdot=xdot, dae=dae, quad=quad), tg, order, method,"
              " tdp_fun=time_parameter(w, nd)))",
       raises='ignore', tableau='any')
@holds('C22', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))"
              "(CollocationScheme(ImplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, xdot=xdot, dae=dae, quad=quad), tg, order, method,"
              " tdp_fun=time_parameter(w, nd), parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def time_dependent(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', tdp: 'mx[nd,1]', xdot: 'mx[nx,1]',
                   dae: 'cs2[nx+nz,1]', quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', w: 'opaque', par: 'str', ex: 'bool'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)

    def at(j):
        n = j // order
        m = j % order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, m, i))
        d = CSMAT(nd, 1, lambda i, q: w(i, time(tg, B, order, j)))
        return AT(dae, [xdot, x, z, u, p, t, tdp], [column(K, j, nx), X, column(Z, j, nz), column(us, n, nu), ps, time(tg, B, order, j), d])
    return (xs, K, Z, us, ps, CSMAT(nx + nz, N * order, lambda i, j: at(j)[i, 0]))


@holds('C22', "CollocationScheme(ImplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, xdot=xdot, dae=dae, quad=quad), tg, order, method) is None",
       raises='any', tableau='any')
def time_dependent_missing(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', tdp: 'mx[nd,1]', xdot: 'mx[nx,1]',
                           dae: 'cs2[nx+nz,1]', quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    if nd != 0:
        raise ValueError()
    return False


@holds('C22', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True))",
       raises='ignore', tableau='any')
@holds('C22', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True, parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def repeated_used(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
                  quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np, N * order)

    def at(j):
        n = j // order
        m = j % order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, m, i))
        return AT(dae, [xdot, x, z, u, p, t],
                  [column(K, j, nx), X, column(Z, j, nz), column(us, n, nu), column(ps, j, np), time(tg, B, order, j)])
    return (xs, K, Z, us, ps, CSMAT(nx + nz, N * order, lambda i, j: at(j)[i, 0]))


# ---------------------------------------------------------------- semi-explicit models
@holds('C21', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.eq['collocation']))"
              "(CollocationScheme(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, ode=ode, alg=alg, quad=quad), tg, order, method))",
       raises='ignore', tableau='any')
def semi_explicit(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', ode: 'cs2[nx,1]', alg: 'cs2[nz,1]',
                  quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)

    def at(e, j):
        n = j // order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, j % order, i))
        return AT(e, [x, z, u, p, t], [X, column(Z, j, nz), column(us, n, nu), ps, time(tg, B, order, j)])
    return (xs, K, Z, us, ps, CSMAT(nx + nz, N * order, lambda i, j: K[i, j] - at(ode, j)[i, 0] if i < nx else at(alg, j)[i - nx, 0]))


# ---------------------------------------------------------------- quadratures
@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.quad))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
def quad_points(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
                quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    return (xs, K, Z, us, ps, points(quad, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nq, nx, nz, nu))


def gain(tg, order, B, Y, i, n):
    """Growth of component i over interval n."""
    return (tg[n + 1] - tg[n]) * SUM(order, lambda m: B.b[m] * Y[i, n * order + m])


@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.q))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.q))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def quad_ends(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
              quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    Y = points(quad, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nq, nx, nz, nu)
    return (xs, K, Z, us, ps, CSMAT(nq, N + 1, lambda i, j: SUM(j, lambda n: gain(tg, order, B, Y, i, n))))


@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.Q))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))",
       raises='ignore', tableau='any')
def quad_integrated(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
                    quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    Y = points(quad, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nq, nx, nz, nu)

    def value(i, j):
        n = j // order
        return (SUM(n, lambda k: gain(tg, order, B, Y, i, k))
                + (tg[n + 1] - tg[n]) * SUM(order, lambda l: B.A[j % order, l] * Y[i, n * order + l]))
    return (xs, K, Z, us, ps, CSMAT(nq, N * order, value))


# ---------------------------------------------------------------- parts and trajectories
@holds('C25', "(lambda s: (s.x, s.K, s.Z, s.combine(['x', 'K', 'Z']).blocks()))"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def combine(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    return (xs, K, Z, [('x', xs), ('K', K), ('Z', Z)])


@holds('C25', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.combine(['p', 'U', 'u', 'Z', 'K', 'x']).blocks()))"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def combine_reordered(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    return (xs, K, Z, us, ps, [('p', ps), ('U', CSMAT(nu, N * order, lambda i, j: us[i, j // order])), ('u', us), ('Z', Z), ('K', K), ('x', xs)])


@holds('C25', "(lambda s: [(n, v is getattr(s, n)) for n, v in s.combine(['eq', 'q']).blocks()])"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def combine_results(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    return [('eq', True), ('q', True)]


@holds('C25', "CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).combine(['x', 'nosuch'])",
       raises='any', tableau='any')
@holds('C25', "CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).combine(['nosuch'])",
       raises='any', tableau='any')
def combine_unknown(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    raise ValueError()


@holds('C25', "CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).evalX(a, b)", raises='ignore', tableau='any')
def evaluate(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', a: 'cs2[nx,N+1]', b: 'cs2[nx,N*order]'):
    B = tableau(order, method)
    return CSMAT(nx, N * order, lambda i, j: state(tg, order, B, a, b, j // order, j % order, i))


def trajectory_parts(f):
    return (f.intervals, f.coefficients, f.basis.tau)


@holds('C25', "trajectory_parts(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).piecewisePolyX(a, b))",
       raises='ignore', tableau='any', trajectory='parts')
def trajectory(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', a: 'cs2[nx,N+1]', b: 'cs2[nx,N*order]'):
    B = tableau(order, method)

    def coefficients(n):
        return MAT(nx, order + 1, lambda i, m: a[i, n] if m == 0 else state(tg, order, B, a, b, n, m - 1, i))
    return (tg, LIST(N, coefficients), VEC(order + 1, lambda m: 0 if m == 0 else B.c[m - 1]))


# ---------------------------------------------------------------- integrator
def outputs(f):
    return (INPUT(f, 'x0'), INPUT(f, 'u'), INPUT(f, 'p'), INPUT(f, 'z0'), OUTPUT(f, 'x'), OUTPUT(f, 'K'), OUTPUT(f, 'Z'),
            OUTPUT(f, 'X'), OUTPUT(f, 'xf'), OUTPUT(f, 'qf'), OUTPUT(f, 'Q'), OUTPUT(f, 'tc'))


@holds('C24', "outputs(CollocationIntegrator(name, implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
@holds('C24', "outputs(collocationIntegrator(name, implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def integrator(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', name: 'str'):
    B = tableau(order, method)
    x0 = cs.MX.sym('x0', nx)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    sx, sK, sZ = solution(x, z, u, p, t, xdot, dae, tg, order, method, nx, nz, nu, N, x0, us, ps)
    X = CSMAT(nx, N * order, lambda i, j: state(tg, order, B, sx, sK, j // order, j % order, i))
    Y = points(quad, [xdot, x, z, u, p, t], tg, order, B, sx, sK, sZ, us, ps, nq, nx, nz, nu)

    def q(i, j):
        return SUM(j, lambda n: gain(tg, order, B, Y, i, n))

    def Q(i, j):
        n = j // order
        return q(i, n) + (tg[n + 1] - tg[n]) * SUM(order, lambda l: B.A[j % order, l] * Y[i, n * order + l])
    return (x0, us, ps, z, sx, sK, sZ, X, CSMAT(nx, N, lambda i, n: sx[i, n + 1]), CSMAT(nq, 1, lambda i, j: q(i, N)),
            CSMAT(nq, N * order, Q), CSMAT(N * order, 1, lambda j, i: time(tg, B, order, j)))


def solution(x, z, u, p, t, xdot, dae, tg, order, method, nx, nz, nu, N, x0, us, ps):
    """Solution (x, K, Z) of the collocation equations with initial condition x0."""
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    equations = [points(dae, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nx + nz, nx, nz, nu),
                 CSMAT(nx, N, lambda i, n: xs[i, n] + gain(tg, order, B, K, i, n) - xs[i, n + 1]),
                 CSMAT(nx, 1, lambda i, j: xs[i, 0] - x0[i, 0])]
    return [ROOT(v, [xs, K, Z], equations) for v in [xs, K, Z]]


@holds('C24', "trajectory_parts(CollocationIntegrator(name, implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method)"
              ".integrate(x0=x1, z0=z1, u=u1, p=p1)['x_traj'])",
       raises='ignore', tableau='any', trajectory='parts')
def integrate(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', name: 'str', x1: 'cs2[nx,1]', z1: 'cs2[nz,1]', u1: 'cs2[nu,N]', p1: 'cs2[np,1]'):
    B = tableau(order, method)
    sx, sK, sZ = solution(x, z, u, p, t, xdot, dae, tg, order, method, nx, nz, nu, N, x1, u1, p1)

    def coefficients(n):
        return MAT(nx, order + 1, lambda i, m: sx[i, n] if m == 0 else state(tg, order, B, sx, sK, n, m - 1, i))
    return (tg, LIST(N, coefficients), VEC(order + 1, lambda m: 0 if m == 0 else B.c[m - 1]))


# ---------------------------------------------------------------- other descriptions of the scheme
@holds('C21', "(lambda s: (s.t, s.numTotalCollocationPoints, s.xdot is s.K, s.butcher.A, s.butcher.b, s.butcher.c))"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def described(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    return (tg, N * order, True, B.A, B.b, B.c)


@holds('C21', "(lambda s: (s.x, s.K, s.X))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order))",
       raises='ignore', tableau='any')
def X_legendre(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, 'legendre')
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    return (xs, K, CSMAT(nx, N * order, lambda i, j: state(tg, order, B, xs, K, j // order, j % order, i)))


# ---------------------------------------------------------------- quadratures of other configurations
def points_repeated(e, args, tg, order, B, xs, K, Z, us, ps, rows, nx, nz, nu, np):
    """Model expression e at all collocation points, every point with its own parameter."""
    def at(j):
        n = j // order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, j % order, i))
        return AT(e, args, [column(K, j, nx), X, column(Z, j, nz), column(us, n, nu), column(ps, j, np), time(tg, B, order, j)])
    return CSMAT(rows, len(tg) * order - order, lambda i, j: at(j)[i, 0])


@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.q))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True))",
       raises='ignore', tableau='any')
@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.q))(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method, repeat_param=True, parallelization=par, expand=ex))",
       raises='ignore', tableau='any')
def quad_ends_repeated(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', par: 'str', ex: 'bool'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np, N * order)
    Y = points_repeated(quad, [xdot, x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nq, nx, nz, nu, np)
    return (xs, K, Z, us, ps, CSMAT(nq, N + 1, lambda i, j: SUM(j, lambda n: gain(tg, order, B, Y, i, n))))


@holds('C23', "CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method).q[:, 0]", raises='ignore', tableau='any')
def quad_start(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    return CSMAT(nq, 1, lambda i, j: 0)


def points_explicit(e, args, tg, order, B, xs, K, Z, us, ps, rows, nx, nz, nu):
    """Expression e of a semi-explicit model at all collocation points."""
    def at(j):
        n = j // order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, j % order, i))
        return AT(e, args, [X, column(Z, j, nz), column(us, n, nu), ps, time(tg, B, order, j)])
    return CSMAT(rows, len(tg) * order - order, lambda i, j: at(j)[i, 0])


@holds('C23', "(lambda s: (s.x, s.K, s.Z, s.u, s.p, s.q, s.quad))"
              "(CollocationScheme(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, ode=ode, alg=alg, quad=quad), tg, order, method))",
       raises='ignore', tableau='any')
def quad_semi_explicit(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', ode: 'cs2[nx,1]', alg: 'cs2[nz,1]',
                       quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    B = tableau(order, method)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    Y = points_explicit(quad, [x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nq, nx, nz, nu)
    return (xs, K, Z, us, ps, CSMAT(nq, N + 1, lambda i, j: SUM(j, lambda n: gain(tg, order, B, Y, i, n))), Y)


# ---------------------------------------------------------------- integrator of other configurations
@holds('C24', "(lambda f: (INPUT(f, 'x0'), INPUT(f, 'u'), INPUT(f, 'p'), OUTPUT(f, 'x'), OUTPUT(f, 'K'), OUTPUT(f, 'Z')))"
              "(CollocationIntegrator(name, SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, ode=ode, alg=alg, quad=quad), tg, order, method))",
       raises='ignore', tableau='any')
def integrator_semi_explicit(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', ode: 'cs2[nx,1]', alg: 'cs2[nz,1]',
                             quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', name: 'str'):
    B = tableau(order, method)
    x0 = cs.MX.sym('x0', nx)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)
    f = points_explicit(ode, [x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nx, nx, nz, nu)
    g = points_explicit(alg, [x, z, u, p, t], tg, order, B, xs, K, Z, us, ps, nz, nx, nz, nu)
    equations = [CSMAT(nx + nz, N * order, lambda i, j: K[i, j] - f[i, j] if i < nx else g[i - nx, j]),
                 CSMAT(nx, N, lambda i, n: xs[i, n] + gain(tg, order, B, K, i, n) - xs[i, n + 1]),
                 CSMAT(nx, 1, lambda i, j: xs[i, 0] - x0[i, 0])]
    return (x0, us, ps) + tuple([ROOT(v, [xs, K, Z], equations) for v in [xs, K, Z]])


@holds('C24', "(lambda f: (INPUT(f, 'x0'), INPUT(f, 'u'), INPUT(f, 'p'), OUTPUT(f, 'x'), OUTPUT(f, 'K'), OUTPUT(f, 'Z')))"
              "(CollocationIntegrator(name, ImplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, xdot=xdot, dae=dae, quad=quad), tg, order, method,"
              " tdp_fun=time_parameter(w, nd)))",
       raises='ignore', tableau='any')
@holds('C24', "(lambda f: (INPUT(f, 'x0'), INPUT(f, 'u'), INPUT(f, 'p'), OUTPUT(f, 'x'), OUTPUT(f, 'K'), OUTPUT(f, 'Z')))"
              "(collocationIntegrator(name, ImplicitDae(x=x, z=z, u=u, p=p, t=t, tdp=tdp, xdot=xdot, dae=dae, quad=quad), tg, order, method,"
              " tdp_fun=time_parameter(w, nd)))",
       raises='ignore', tableau='any')
def integrator_time_dependent(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', tdp: 'mx[nd,1]', xdot: 'mx[nx,1]',
                              dae: 'cs2[nx+nz,1]', quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', name: 'str', w: 'opaque'):
    B = tableau(order, method)
    x0 = cs.MX.sym('x0', nx)
    us = cs.MX.sym('u', nu, N)
    ps = cs.MX.sym('p', np)
    xs = cs.MX.sym('x', nx, N + 1)
    K = cs.MX.sym('K', nx, N * order)
    Z = cs.MX.sym('Z', nz, N * order)

    def at(j):
        n = j // order
        X = CSMAT(nx, 1, lambda i, q: state(tg, order, B, xs, K, n, j % order, i))
        d = CSMAT(nd, 1, lambda i, q: w(i, time(tg, B, order, j)))
        return AT(dae, [xdot, x, z, u, p, t, tdp], [column(K, j, nx), X, column(Z, j, nz), column(us, n, nu), ps, time(tg, B, order, j), d])
    equations = [CSMAT(nx + nz, N * order, lambda i, j: at(j)[i, 0]),
                 CSMAT(nx, N, lambda i, n: xs[i, n] + gain(tg, order, B, K, i, n) - xs[i, n + 1]),
                 CSMAT(nx, 1, lambda i, j: xs[i, 0] - x0[i, 0])]
    return (x0, us, ps) + tuple([ROOT(v, [xs, K, Z], equations) for v in [xs, K, Z]])


@holds('C24', "(lambda f: [(n, OUTPUT(f, n)) for n in ['tc']])(CollocationIntegrator(name, implicit(x, z, u, p, t, xdot, dae, quad), tg, order))",
       raises='ignore', tableau='any')
def integrator_legendre(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str', name: 'str'):
    B = tableau(order, 'legendre')
    return [('tc', CSMAT(N * order, 1, lambda j, i: time(tg, B, order, j)))]


# ---------------------------------------------------------------- every part of a scheme by itself
@holds('C25', "(lambda s: [[v is getattr(s, n) for n, v in s.combine([n]).blocks()] for n in ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']])"
              "(CollocationScheme(implicit(x, z, u, p, t, xdot, dae, quad), tg, order, method))", raises='ignore', tableau='any')
def combine_single(x: 'mx[nx,1]', z: 'mx[nz,1]', u: 'mx[nu,1]', p: 'mx[np,1]', t: 'mx[1,1]', xdot: 'mx[nx,1]', dae: 'cs2[nx+nz,1]',
        quad: 'cs2[nq,1]', tg: 'np1[N+1]', order: 'pos', method: 'str'):
    return [[True]] * 8
