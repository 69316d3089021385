"""Inequalities and bounded variables."""
import casadi as cs
from verif import *
from casadi_extras import *
from casadi_extras.structure3 import MXVeccatStruct, DMStruct
from casadi_extras.inequality import Inequality, BoundedVariable, vertcat


def parts(q):
    return (q.expr, q.lb, q.ub, q.nominal)


def infinite(sign, r, c):
    return CSMAT(r, c, lambda i, j: sign * cs.inf)


def check(shapes, r, c):
    for a, b in shapes:
        if a != r or b != c:
            raise ValueError()


@holds('C26', 'parts(Inequality(expr=e, lb=lb, ub=ub, nominal=nominal))', raises='any')
@holds('C26', 'parts(Inequality(e, lb, ub, nominal))', raises='any')
def all_given(e: 'cs2[r,c]', lb: 'cs2[lr,lc]', ub: 'cs2[ur,uc]', nominal: 'cs2[nr,nc]'):
    check([(lr, lc), (ur, uc), (nr, nc)], r, c)
    return (e, lb, ub, nominal)


@holds('C26', 'parts(Inequality(e, lb, ub))', raises='any')
def no_nominal(e: 'cs2[r,c]', lb: 'cs2[lr,lc]', ub: 'cs2[ur,uc]'):
    check([(lr, lc), (ur, uc)], r, c)
    return (e, lb, ub, None)


@holds('C26', 'parts(Inequality(e, lb=lb))', raises='any')
def no_upper(e: 'cs2[r,c]', lb: 'cs2[lr,lc]'):
    check([(lr, lc)], r, c)
    return (e, lb, infinite(1, r, c), None)


@holds('C26', 'parts(Inequality(e, ub=ub))', raises='any')
def no_lower(e: 'cs2[r,c]', ub: 'cs2[ur,uc]'):
    check([(ur, uc)], r, c)
    return (e, infinite(-1, r, c), ub, None)


@holds('C26', 'parts(Inequality(e, nominal=nominal))', raises='any')
def only_nominal(e: 'cs2[r,c]', nominal: 'cs2[nr,nc]'):
    check([(nr, nc)], r, c)
    return (e, infinite(-1, r, c), infinite(1, r, c), nominal)


@holds('C26', 'parts(Inequality(e))', raises='any')
def only_expression(e: 'cs2[r,c]'):
    return (e, infinite(-1, r, c), infinite(1, r, c), None)


@holds('C26', 'Inequality(e, lb, ub, nominal).numel()', raises='ignore')
def numel(e: 'cs2[r,c]', lb: 'cs2[r,c]', ub: 'cs2[r,c]', nominal: 'cs2[r,c]'):
    return r * c


@holds('C26', 'parts(BoundedVariable(name, lb, ub, nominal))', raises='any', names='keep')
@holds('C26', 'parts(BoundedVariable(name=name, lb=lb, ub=ub, nominal=nominal))', raises='any', names='keep')
def variable(name: 'str', lb: 'cs2[lr,lc]', ub: 'cs2[ur,uc]', nominal: 'cs2[nr,nc]'):
    check([(lr, lc), (ur, uc)], nr, nc)
    return (cs.MX.sym(name, nr, nc), lb, ub, nominal)


@holds('C26', 'parts(BoundedVariable(name, nominal=nominal))', raises='any', names='keep')
def variable_without_bounds(name: 'str', nominal: 'cs2[nr,nc]'):
    return (cs.MX.sym(name, nr, nc), infinite(-1, nr, nc), infinite(1, nr, nc), nominal)


@holds('C26', 'parts(BoundedVariable(name, lb=lb, nominal=nominal))', raises='any', names='keep')
def variable_without_upper(name: 'str', lb: 'cs2[lr,lc]', nominal: 'cs2[nr,nc]'):
    check([(lr, lc)], nr, nc)
    return (cs.MX.sym(name, nr, nc), lb, infinite(1, nr, nc), nominal)


@holds('C26', 'parts(BoundedVariable(name, ub=ub, nominal=nominal))', raises='any', names='keep')
def variable_without_lower(name: 'str', ub: 'cs2[ur,uc]', nominal: 'cs2[nr,nc]'):
    check([(ur, uc)], nr, nc)
    return (cs.MX.sym(name, nr, nc), infinite(-1, nr, nc), ub, nominal)


@holds('C26', 'parts(BoundedVariable(name))', raises='any', names='keep')
def variable_without_anything(name: 'str'):
    return (cs.MX.sym(name, 0, 1), cs.DM.zeros(0, 1), cs.DM.zeros(0, 1), cs.DM.zeros(0, 1))


@holds('C26', 'Inequality().numel()', raises='any')
@holds('C26', 'BoundedVariable().numel()', raises='any')
def empty_numel():
    return 0


# ---------------------------------------------------------------- stacking
def two(e1, l1, u1, n1, e2, l2, u2, n2):
    return [Inequality(e1, l1, u1, n1), Inequality(e2, l2, u2, n2)]


def over(r1, r2, c, a, b):
    return CSMAT(r1 + r2, c, lambda i, j: a[i, j] if i < r1 else b[i - r1, j])


@holds('C27', 'parts(vertcat(two(e1, l1, u1, n1, e2, l2, u2, n2)))', raises='ignore')
def stack_two(e1: 'cs2[P,c]', l1: 'cs2[P,c]', u1: 'cs2[P,c]', n1: 'cs2[P,c]',
              e2: 'cs2[Q,c]', l2: 'cs2[Q,c]', u2: 'cs2[Q,c]', n2: 'cs2[Q,c]'):
    return (over(P, Q, c, e1, e2), over(P, Q, c, l1, l2), over(P, Q, c, u1, u2), over(P, Q, c, n1, n2))


@holds('C27', 'parts(vertcat(two(e1, l1, u1, n1, e2, l2, u2, None)))', raises='ignore')
@holds('C27', 'parts(vertcat(two(e1, l1, u1, None, e2, l2, u2, n1)))', raises='ignore')
@holds('C27', 'parts(vertcat(two(e1, l1, u1, None, e2, l2, u2, None)))', raises='ignore')
def stack_without_nominal(e1: 'cs2[P,c]', l1: 'cs2[P,c]', u1: 'cs2[P,c]', n1: 'cs2[P,c]',
                          e2: 'cs2[P,c]', l2: 'cs2[P,c]', u2: 'cs2[P,c]'):
    return (over(P, P, c, e1, e2), over(P, P, c, l1, l2), over(P, P, c, u1, u2), None)


@holds('C27', 'parts(vertcat([Inequality(e[i], l[i], u[i], m[i]) for i in range(N)]))', raises='ignore')
def stack_many(e: 'list:cs2[N,K,1]', l: 'list:cs2[N,K,1]', u: 'list:cs2[N,K,1]', m: 'list:cs2[N,K,1]'):
    def stacked(v):
        return CSMAT(N * K, 1, lambda i, j: v[i // K][i % K, 0])
    return (stacked(e), stacked(l), stacked(u), stacked(m))


def blocks(v, kind):
    return v.blocks() if isinstance(v, kind) else None


def named(q):
    return (blocks(q.expr, MXVeccatStruct), blocks(q.lb, DMStruct), blocks(q.ub, DMStruct), blocks(q.nominal, DMStruct))


@holds('C27', "named(vertcat({'a': Inequality(e1, l1, u1, n1), 'b': Inequality(e2, l2, u2, n2)}))", raises='ignore')
def stack_dict(e1: 'cs2[P,1]', l1: 'cs2[P,1]', u1: 'cs2[P,1]', n1: 'cs2[P,1]',
               e2: 'cs2[Q,1]', l2: 'cs2[Q,1]', u2: 'cs2[Q,1]', n2: 'cs2[Q,1]'):
    return ([('a', e1), ('b', e2)], [('a', l1), ('b', l2)], [('a', u1), ('b', u2)], [('a', n1), ('b', n2)])


@holds('C27', "named(vertcat({'b': Inequality(e1, l1, u1, n1), 'a': Inequality(e2, l2, u2, n2)}))", raises='ignore')
def stack_dict_order(e1: 'cs2[P,1]', l1: 'cs2[P,1]', u1: 'cs2[P,1]', n1: 'cs2[P,1]',
                     e2: 'cs2[Q,1]', l2: 'cs2[Q,1]', u2: 'cs2[Q,1]', n2: 'cs2[Q,1]'):
    return ([('b', e1), ('a', e2)], [('b', l1), ('a', l2)], [('b', u1), ('a', u2)], [('b', n1), ('a', n2)])


@holds('C27', "named(vertcat({'q{0}'.format(i): Inequality(e[i], l[i], u[i], m[i]) for i in range(N)}))", raises='ignore')
def stack_dict_many(e: 'list:cs2[N,K,1]', l: 'list:cs2[N,K,1]', u: 'list:cs2[N,K,1]', m: 'list:cs2[N,K,1]'):
    def entries(v):
        return LIST(N, lambda i: ('q{0}'.format(i), v[i]))
    return (entries(e), entries(l), entries(u), entries(m))


@holds('C27', "vertcat({'a': Inequality(e1, l1, u1, n1), 'b': Inequality(e2, l2, u2)}).nominal", raises='ignore')
@holds('C27', "vertcat({'a': Inequality(e1, l1, u1), 'b': Inequality(e2, l2, u2, n1)}).nominal", raises='ignore')
def stack_dict_without_nominal(e1: 'cs2[P,1]', l1: 'cs2[P,1]', u1: 'cs2[P,1]', n1: 'cs2[P,1]',
                               e2: 'cs2[P,1]', l2: 'cs2[P,1]', u2: 'cs2[P,1]'):
    return None
