"""DAE models: validation, accessors, conversion."""
import casadi as cs
from verif import *
from casadi_extras import *
from casadi_extras.structure3 import MXVeccatStruct, DMStruct
from casadi_extras.dae_model import Dae, SemiExplicitDae, ImplicitDae, parallel


def bad_column(v):
    return v.shape[1] != 1


def bad_symbol(v):
    return not v.is_valid_input()


def size(v):
    return v.shape[0] * v.shape[1]


def check_symbols(columns, symbols):
    for v in columns:
        if bad_column(v):
            raise ValueError()
    for v in symbols:
        if bad_symbol(v):
            raise ValueError()


def check_time(t):
    if t.shape[0] != 1 or t.shape[1] != 1:
        raise ValueError()


def check_sizes(pairs):
    for a, b in pairs:
        if a != b:
            raise ValueError()


# ---------------------------------------------------------------- validation
@holds('C10', 'Dae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp) is None', raises='ValueError')
def dae_all(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', u: 'cs2[ur,uc]', p: 'cs2[pr,pc]', t: 'cs2[tr,tc]', quad: 'cs2[qr,qc]', tdp: 'cs2[dr,dc]'):
    check_symbols([x, z, u], [x, z, u, p, t, tdp])
    check_time(t)
    return False


@holds('C10', 'Dae(x=x) is None', raises='ValueError')
def dae_minimal(x: 'cs2[xr,xc]'):
    check_symbols([x], [x])
    return False


@holds('C10', 'Dae(x=x, u=u, p=p, t=t, quad=quad, tdp=tdp) is None', raises='ValueError')
def dae_without_z(x: 'cs2[xr,xc]', u: 'cs2[ur,uc]', p: 'cs2[pr,pc]', t: 'cs2[tr,tc]', quad: 'cs2[qr,qc]', tdp: 'cs2[dr,dc]'):
    check_symbols([x, u], [x, u, p, t, tdp])
    check_time(t)
    return False


@holds('C10', 'Dae(x=x, z=z, p=p, t=t, quad=quad, tdp=tdp) is None', raises='ValueError')
def dae_without_u(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', p: 'cs2[pr,pc]', t: 'cs2[tr,tc]', quad: 'cs2[qr,qc]', tdp: 'cs2[dr,dc]'):
    check_symbols([x, z], [x, z, p, t, tdp])
    check_time(t)
    return False


@holds('C10', 'Dae(x=x, z=z, u=u, p=p, quad=quad, tdp=tdp) is None', raises='ValueError')
def dae_without_t(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', u: 'cs2[ur,uc]', p: 'cs2[pr,pc]', quad: 'cs2[qr,qc]', tdp: 'cs2[dr,dc]'):
    check_symbols([x, z, u], [x, z, u, p, tdp])
    return False


@holds('C10', 'Dae(x=x, z=z, u=u, t=t) is None', raises='ValueError')
def dae_without_parameters(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', u: 'cs2[ur,uc]', t: 'cs2[tr,tc]'):
    check_symbols([x, z, u], [x, z, u, t])
    check_time(t)
    return False


@holds('C10', 'SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, ode=ode, alg=alg, quad=quad, tdp=tdp) is None', raises='ValueError')
def semi_all(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', u: 'cs2[ur,uc]', p: 'cs2[pr,pc]', t: 'cs2[tr,tc]', quad: 'cs2[qr,qc]', tdp: 'cs2[dr,dc]',
             ode: 'cs2[fr,fc]', alg: 'cs2[gr,gc]'):
    check_symbols([x, z, u, ode, alg], [x, z, u, p, t, tdp])
    check_time(t)
    check_sizes([(size(x), size(ode)), (size(z), size(alg))])
    return False


@holds('C10', 'SemiExplicitDae(x=x, ode=ode) is None', raises='ValueError')
def semi_minimal(x: 'cs2[xr,xc]', ode: 'cs2[fr,fc]'):
    check_symbols([x, ode], [x])
    check_sizes([(size(x), size(ode))])
    return False


@holds('C10', 'SemiExplicitDae(x=x, z=z, ode=ode) is None', raises='ValueError')
def semi_without_alg(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', ode: 'cs2[fr,fc]'):
    check_symbols([x, z, ode], [x, z])
    check_sizes([(size(x), size(ode))])
    return False


@holds('C10', 'SemiExplicitDae(x=x, ode=ode, alg=alg) is None', raises='ValueError')
def semi_without_z(x: 'cs2[xr,xc]', ode: 'cs2[fr,fc]', alg: 'cs2[gr,gc]'):
    check_symbols([x, ode, alg], [x])
    check_sizes([(size(x), size(ode)), (0, size(alg))])
    return False


@holds('C10', 'ImplicitDae(x=x, z=z, u=u, p=p, t=t, xdot=xdot, dae=dae, quad=quad, tdp=tdp) is None', raises='ValueError')
def implicit_all(x: 'cs2[xr,xc]', z: 'cs2[zr,zc]', u: 'cs2[ur,uc]', p: 'cs2[pr,pc]', t: 'cs2[tr,tc]', quad: 'cs2[qr,qc]',
                 tdp: 'cs2[dr,dc]', xdot: 'cs2[fr,fc]', dae: 'cs2[gr,gc]'):
    check_symbols([x, z, u, xdot, dae], [x, z, u, p, t, tdp])
    check_time(t)
    check_sizes([(size(x), size(xdot)), (size(x) + size(z), size(dae))])
    return False


@holds('C10', 'ImplicitDae(x=x, xdot=xdot, dae=dae) is None', raises='ValueError')
def implicit_minimal(x: 'cs2[xr,xc]', xdot: 'cs2[fr,fc]', dae: 'cs2[gr,gc]'):
    check_symbols([x, xdot, dae], [x])
    check_sizes([(size(x), size(xdot)), (size(x), size(dae))])
    return False


@holds('C10', 'quantities(Dae(x=x))', raises='ignore')
def omitted(x: 'mx[xr,1]'):
    empty = ('symbol', 0)
    return (('symbol', xr), empty, empty, empty, ('symbol', 1), 0, empty)


def kind(v):
    return ('symbol' if v.is_valid_input() else 'expression', v.numel())


def quantities(d):
    return (('symbol', d.x.numel()), kind(d.z), kind(d.u), kind(d.p), kind(d.t), d.quad.numel(), kind(d.tdp))


@holds('C10', 'SemiExplicitDae(x=x, ode=ode).alg.numel()', raises='ignore')
def omitted_alg(x: 'mx[xr,1]', ode: 'cs2[xr,1]'):
    return 0


# ---------------------------------------------------------------- accessors
def common(d):
    return (d.x, d.z, d.u, d.p, d.t, d.quad, d.tdp)


def sizes(d):
    return (d.nx, d.nz, d.nu, d.np, d.nq, d.ntdp)


@holds('C11', 'common(Dae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp))', raises='ignore')
@holds('C11', 'common(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg))', raises='ignore')
@holds('C11', 'common(ImplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, xdot=ode, dae=dae))', raises='ignore')
def accessors(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
              ode: 'cs2[xr,1]', alg: 'cs2[zr,1]', dae: 'cs2[xr+zr,1]'):
    return (x, z, u, p, t, quad, tdp)


@holds('C11', 'sizes(Dae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp))', raises='ignore')
@holds('C11', 'sizes(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg))', raises='ignore')
@holds('C11', 'sizes(ImplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, xdot=ode, dae=dae))', raises='ignore')
def size_accessors(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
                   ode: 'cs2[xr,1]', alg: 'cs2[zr,1]', dae: 'cs2[xr+zr,1]'):
    return (xr, zr, ur, pr * pc, qr * qc, dr * dc)


@holds('C11', 'Dae(x=x, quad=q).quad', raises='all')
@holds('C11', 'SemiExplicitDae(x=x, quad=q, ode=ode).quad', raises='all')
@holds('C11', 'ImplicitDae(x=x, quad=q, xdot=ode, dae=ode).quad', raises='all')
def only_quad(x: 'mx[xr,1]', q: 'cs2[qr,qc]', ode: 'mx[xr,1]'):
    return q


@holds('C11', 'Dae(x=x, z=q).z', raises='all')
@holds('C11', 'Dae(x=x, u=q).u', raises='all')
@holds('C11', 'Dae(x=x, p=q).p', raises='all')
@holds('C11', 'Dae(x=x, tdp=q).tdp', raises='all')
def only_one(x: 'mx[xr,1]', q: 'mx[qr,1]'):
    return q


@holds('C11', 'Dae(x=x, t=t).t', raises='all')
def only_time(x: 'mx[xr,1]', t: 'mx[1,1]'):
    return t


@holds('C11', 'sizes(Dae(x=x, quad=q))', raises='all')
def sizes_with_quad(x: 'mx[xr,1]', q: 'mx[qr,1]'):
    return (xr, 0, 0, 0, qr, 0)


@holds('C11', 'sizes(Dae(x=x, tdp=q))', raises='all')
def sizes_with_tdp(x: 'mx[xr,1]', q: 'mx[qr,1]'):
    return (xr, 0, 0, 0, 0, qr)


@holds('C11', 'sizes(Dae(x=x, z=q))', raises='all')
def sizes_with_z(x: 'mx[xr,1]', q: 'mx[qr,1]'):
    return (xr, qr, 0, 0, 0, 0)


@holds('C11', 'sizes(Dae(x=x, u=q))', raises='all')
def sizes_with_u(x: 'mx[xr,1]', q: 'mx[qr,1]'):
    return (xr, 0, qr, 0, 0, 0)


@holds('C11', 'sizes(Dae(x=x, p=q, t=t))', raises='all')
def sizes_with_p(x: 'mx[xr,1]', q: 'mx[qr,1]', t: 'mx[1,1]'):
    return (xr, 0, 0, qr, 0, 0)


def semi_parts(d):
    return (d.ode, d.alg)


@holds('C11', 'semi_parts(SemiExplicitDae(x=x, z=z, ode=ode, alg=alg))', raises='ignore')
def semi_accessors(x: 'mx[xr,1]', z: 'mx[zr,1]', ode: 'cs2[xr,1]', alg: 'cs2[zr,1]'):
    return (ode, alg)


def implicit_parts(d):
    return (d.xdot, d.dae)


@holds('C11', 'implicit_parts(ImplicitDae(x=x, z=z, xdot=xdot, dae=dae))', raises='ignore')
def implicit_accessors(x: 'mx[xr,1]', z: 'mx[zr,1]', xdot: 'mx[xr,1]', dae: 'cs2[xr+zr,1]'):
    return (xdot, dae)


@holds('C11', "SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg)"
              ".createFunction(name, ['x', 'z', 'u', 'p', 't', 'tdp'], ['ode', 'alg', 'quad'])", raises='ignore')
def function_semi(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
                  ode: 'cs2[xr,1]', alg: 'cs2[zr,1]', name: 'str'):
    return cs.Function(name, [x, z, u, p, t, tdp], [ode, alg, quad], ['x', 'z', 'u', 'p', 't', 'tdp'], ['ode', 'alg', 'quad'])


@holds('C11', "SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg)"
              ".createFunction(name, ['tdp', 'u', 't', 'z', 'x', 'p'], ['quad', 'alg', 'ode', 'x'])", raises='ignore')
def function_semi_reordered(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]',
                            tdp: 'mx[dr,dc]', ode: 'cs2[xr,1]', alg: 'cs2[zr,1]', name: 'str'):
    return cs.Function(name, [tdp, u, t, z, x, p], [quad, alg, ode, x], ['tdp', 'u', 't', 'z', 'x', 'p'], ['quad', 'alg', 'ode', 'x'])


@holds('C11', "ImplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, xdot=xdot, dae=dae)"
              ".createFunction(name, ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp'], ['dae', 'quad'])", raises='ignore')
def function_implicit(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
                      xdot: 'mx[xr,1]', dae: 'cs2[xr+zr,1]', name: 'str'):
    return cs.Function(name, [xdot, x, z, u, p, t, tdp], [dae, quad], ['xdot', 'x', 'z', 'u', 'p', 't', 'tdp'], ['dae', 'quad'])


@holds('C11', "ImplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, xdot=xdot, dae=dae)"
              ".createFunction(name, ['z', 'p', 'xdot', 'x', 'u'], ['quad'])", raises='ignore')
def function_implicit_reordered(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]',
                                tdp: 'mx[dr,dc]', xdot: 'mx[xr,1]', dae: 'cs2[xr+zr,1]', name: 'str'):
    return cs.Function(name, [z, p, xdot, x, u], [quad], ['z', 'p', 'xdot', 'x', 'u'], ['quad'])


# ---------------------------------------------------------------- conversion
@holds('C12', 'common(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg).makeImplicit())', raises='ignore')
def implicit_common(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
                    ode: 'cs2[xr,1]', alg: 'cs2[zr,1]'):
    return (x, z, u, p, t, quad, tdp)


@holds('C12', 'implicit_parts(SemiExplicitDae(x=x, z=z, u=u, p=p, t=t, quad=quad, tdp=tdp, ode=ode, alg=alg).makeImplicit())', raises='ignore')
def implicit_equations(x: 'mx[xr,1]', z: 'mx[zr,1]', u: 'mx[ur,1]', p: 'mx[pr,pc]', t: 'mx[1,1]', quad: 'cs2[qr,qc]', tdp: 'mx[dr,dc]',
                       ode: 'cs2[xr,1]', alg: 'cs2[zr,1]'):
    xdot = cs.MX.sym('xdot', xr)
    return (xdot, CSMAT(xr + zr, 1, lambda i, j: xdot[i, 0] - ode[i, 0] if i < xr else alg[i - xr, 0]))


@holds('C12', 'isinstance(SemiExplicitDae(x=x, ode=ode).makeImplicit(), ImplicitDae)', raises='ignore')
def implicit_class(x: 'mx[xr,1]', ode: 'cs2[xr,1]'):
    return True


@holds('C12', '(lambda d: d.makeImplicit() is d)(ImplicitDae(x=x, z=z, xdot=xdot, dae=dae))', raises='ignore')
def implicit_itself(x: 'mx[xr,1]', z: 'mx[zr,1]', xdot: 'mx[xr,1]', dae: 'cs2[xr+zr,1]'):
    return True


@holds('C12', 'implicit_parts(ImplicitDae(x=x, z=z, xdot=xdot, dae=dae).makeImplicit())', raises='ignore')
def implicit_of_implicit(x: 'mx[xr,1]', z: 'mx[zr,1]', xdot: 'mx[xr,1]', dae: 'cs2[xr+zr,1]'):
    return (xdot, dae)


def blocks(v):
    return v.blocks() if isinstance(v, MXVeccatStruct) else None


@holds('C12', 'blocks(parallel(models).x)', raises='assume')
def parallel_x(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].x))


@holds('C12', 'blocks(parallel(models).z)', raises='assume')
def parallel_z(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].z))


@holds('C12', 'blocks(parallel(models).u)', raises='assume')
def parallel_u(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].u))


@holds('C12', 'blocks(parallel(models).p)', raises='assume')
def parallel_p(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].p))


@holds('C12', 'blocks(parallel(models).ode)', raises='assume')
def parallel_ode(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].ode))


@holds('C12', 'blocks(parallel(models).alg)', raises='assume')
def parallel_alg(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].alg))


@holds('C12', 'blocks(parallel(models).quad)', raises='assume')
def parallel_quad(models: 'list:opaque[N]'):
    return LIST(N, lambda i: ('model_{0}'.format(i), models[i].quad))


@holds('C12', 'isinstance(parallel(models), SemiExplicitDae)', raises='assume')
def parallel_class(models: 'list:opaque[N]'):
    return True
