"""Saving and restoring structures and structured objects."""
import pickle
import casadi as cs
from verif import *
from casadi_extras.structure3 import *


def again(x):
    return pickle.loads(pickle.dumps(x))


def S(n):
    return struct([entry('x', shape=n + 1), entry('y', shape=(2, 2), repeat=2), entry('z', shape=(3, 3), type='symm')])


def N(n):
    """Nested, with an order and with rows and columns described by structures."""
    t = struct([entry('a', shape=n + 1), 'b'])
    return struct([entry('p', struct=t, repeat=2), entry('q', shapestruct=(t, t)), entry('r', repeat=[2, 2]), 'v'], order=['v', 'r', 'p', 'q'])


# ------------------------------------------------------------------ numbers
@holds('C06', 'again(S(n)(d)).cat', structures='real', raises='any')
@holds('C06', 'again(again(S(n)(d))).cat', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), again(s), s.cat)[2]', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), s.save(f), struct_load(f).cat)[2]', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), s.save(f), s.cat)[2]', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), s.save(f), S(n)(2).save("other"), struct_load(f).cat)[3]', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), (p := pickle.dumps(s)), s.__setitem__("x", 0), pickle.loads(p).cat)[3]', structures='real', raises='any')
@holds('C06', '((s := S(n)(d)), (t := again(s)), t.__setitem__("x", 0), s.cat)[3]', structures='real', raises='any')
@holds('C06', 'again([S(n)(d)])[0].cat', structures='real', raises='any')
@holds('C06', 'again({"s": S(n)(d)})["s"].cat', structures='real', raises='any')
def same_data(n: 'nat', d: 'DM[n+15,1]', f: 'str'):
    return CSMAT(n + 15, 1, lambda i, j: d[i])


@holds('C06', '(lambda s: [s["x"], s["y", 1], s["y", :], s["z"], s["z", 0, 1], s.size, s.keys(), type(s) is DMStruct, s.labels()])(again(S(n)(d)))',
       structures='real', raises='any')
@holds('C06', '(lambda s: [s["x"], s["y", 1], s["y", :], s["z"], s["z", 0, 1], s.size, s.keys(), type(s) is DMStruct, s.labels()])'
              '((S(n)(d).save("file"), struct_load("file"))[1])', structures='real', raises='any')
def same_access(n: 'nat', d: 'DM[n+15,1]'):
    s = S(n)(d)
    return [s["x"], s["y", 1], s["y", :], s["z"], s["z", 0, 1], s.size, s.keys(), True, S(n).labels()]


@holds('C06', '[x.cat for x in again([a := S(n)(d), S(n)(e), a])]', structures='real', raises='any')
@holds('C06', '(lambda s: [x.cat for x in again([a := s(d), s(e), a])])(S(n))', structures='real', raises='any')
@holds('C06', '(lambda s: [x.cat for x in (lambda r: [r["d"], r["e"], r["d"]])(again({"d": s(d), "e": s(e)}))])(S(n))', structures='real', raises='any')
@holds('C06', '(lambda s: (lambda a, b: (a.save("a"), b.save("b"), [struct_load("a").cat, struct_load("b").cat, struct_load("a").cat])[2])(s(d), s(e)))(S(n))',
       structures='real', raises='any')
@holds('C06', '(lambda s: (lambda a, b: (pickle.dumps(a), pickle.dumps(b), [a.cat, b.cat, a.cat])[2])(s(d), s(e)))(S(n))', structures='real', raises='any')
@holds('C06', '(lambda s: (lambda a, b, c: (lambda p: [p[1].cat, p[2].cat, p[1].cat])(again((s, a, b, c))))(s(d), s(e), s(3)))(S(n))', structures='real', raises='any')
def own_data(n: 'nat', d: 'DM[n+15,1]', e: 'DM[n+15,1]'):
    a, b = CSMAT(n + 15, 1, lambda i, j: d[i]), CSMAT(n + 15, 1, lambda i, j: e[i])
    return [a, b, a]


@holds('C06', '(lambda s: (lambda r: (r[0].__setitem__("x", 0), r[1]["x"], r[0]["x"])[1:])(again([s(e), s(d)])))(S(n))', structures='real', raises='any')
def separate_data(n: 'nat', d: 'DM[n+15,1]', e: 'DM[n+15,1]'):
    return (CSMAT(n + 1, 1, lambda i, j: d[i]), CSMAT(n + 1, 1, lambda i, j: 0))


@holds('C06', '(lambda s: [s["p", 1, "b"], s["p", 0, "a"], s["q"], s.prefix["q"]["a", "b"], s["r", 1, :], s["v"], s.keys(), s.cat])(again(N(n)(d)))',
       structures='real', raises='any')
def same_nested(n: 'nat', d: 'DM[5+2*(n+2)+(n+2)*(n+2),1]'):
    s = N(n)(d)
    return [s["p", 1, "b"], s["p", 0, "a"], s["q"], s.prefix["q"]["a", "b"], s["r", 1, :], s["v"], ['v', 'r', 'p', 'q'], s.cat]


# ------------------------------------------------------------------ structures
@holds('C06', '(lambda s: [s.size, s.keys(), s.labels(), s.f["x"], s.f["y", 1], s.i["z"], [s.dict[k].type for k in s.keys()], [s.dict[k].repeat for k in s.keys()], '
              's.getLabel(n + 3)])(again(S(n).struct))', structures='real', raises='any')
@holds('C06', '(lambda s: [s.size, s.keys(), s.labels(), s.f["x"], s.f["y", 1], s.i["z"], [s.dict[k].type for k in s.keys()], [s.dict[k].repeat for k in s.keys()], '
              's.getLabel(n + 3)])(again(again(S(n).struct)))', structures='real', raises='any')
@holds('C06', '(lambda s: [s.size, s.keys(), s.labels(), s.f["x"], s.f["y", 1], s.i["z"], [s.dict[k].type for k in s.keys()], [s.dict[k].repeat for k in s.keys()], '
              's.getLabel(n + 3)])((S(n).struct.save("file"), struct_load("file"))[1])', structures='real', raises='any')
def same_structure(n: 'nat'):
    s = S(n).struct
    return [s.size, s.keys(), s.labels(), s.f["x"], s.f["y", 1], s.i["z"], [None, None, "symm"], [[], [2], []], s.getLabel(n + 3)]


@holds('C06', '(lambda s: [s.size, s.keys(), type(s) is CasadiStructured, s(d)["x"], s(d)["z"], s.f["y", 0], s.i["z"]])(again(S(n)))', structures='real', raises='any')
def same_structured(n: 'nat', d: 'DM[n+15,1]'):
    s = S(n)
    return [s.size, s.keys(), True, s(d)["x"], s(d)["z"], s.f["y", 0], s.i["z"]]


@holds('C06', '(lambda s: [s.size, s.keys(), s.f["v"], s.f["r", 1, 0], s.f["p", 1, "a"], s.i["q"], s.order])(again(N(n)))', structures='real', raises='any')
@holds('C06', '(lambda s: [s.size, s.keys(), s.f["v"], s.f["r", 1, 0], s.f["p", 1, "a"], s.i["q"], s.order])(again(again(N(n))))', structures='real', raises='any')
def same_nested_structure(n: 'nat'):
    s = N(n)
    return [s.size, ['v', 'r', 'p', 'q'], s.f["v"], s.f["r", 1, 0], s.f["p", 1, "a"], s.i["q"], ['v', 'r', 'p', 'q']]


@holds('C06', '(lambda s: [s.size, s.keys(), s.f["a"], s.f["b", 1], s.f["b", 0], s.f["c", 1]])(again(struct([(entry("b", repeat=2, shape=n), entry("c", repeat=2)), "a"])))',
       structures='real', raises='any')
def same_groups(n: 'nat'):
    s = struct([(entry("b", repeat=2, shape=n), entry("c", repeat=2)), "a"])
    return [s.size, ["b", "c", "a"], s.f["a"], s.f["b", 1], s.f["b", 0], s.f["c", 1]]


@holds('C06', '(lambda s: [s.size, s.keys(), type(s) is ssymStruct, s.f["y", 1], s.cat.shape])(again(struct_symSX(S(n))))', structures='real', raises='any')
@holds('C06', '(lambda s: [s.size, s.keys(), type(s) is msymStruct, s.f["y", 1], s.cat.shape])(again(struct_symMX(S(n))))', structures='real', raises='any')
def same_symbolic(n: 'nat'):
    s = S(n)
    return [s.size, s.keys(), True, s.f["y", 1], (n + 15, 1)]


# ------------------------------------------------------------------ entries and views
@holds('C06', '(lambda e: [e.name, e.sparsity, e.repeat, e.type, e.shapestruct, e.struct])(again(entry("e", shape=(n, 2), repeat=[2, 3])))', structures='real', raises='any')
def same_entry(n: 'pos'):
    return ["e", cs.Sparsity.dense(n, 2), [2, 3], None, None, None]


@holds('C06', '(lambda e: [e.name, e.sparsity, e.originalsparsity, e.type])(again(entry("e", shape=(3, 3), type="symm")))', structures='real', raises='any')
def same_symmetric():
    return ["e", cs.Sparsity.upper(3), cs.Sparsity.dense(3, 3), "symm"]


@holds('C06', '(lambda e: [e.name, e.struct.size, e.struct.keys(), e.repeat])(again(entry("e", struct=S(n), repeat=3)))', structures='real', raises='any')
def same_struct_entry(n: 'nat'):
    return ["e", n + 15, ["x", "y", "z"], [3]]


@holds('C06', '(lambda e: [e.name, e.sparsity, [x.size for x in e.shapestruct]])(again(entry("e", shapestruct=(S(n), struct(["a", "b"])))))', structures='real', raises='any')
def same_shapestruct(n: 'nat'):
    return ["e", cs.Sparsity.dense(n + 15, 2), [n + 15, 2]]


@holds('C06', '(lambda p: [p["b"], p["a"], p.cast()])(again(N(n)(d).prefix["p", 1]))', structures='real', raises='any')
def same_prefix(n: 'nat', d: 'DM[5+2*(n+2)+(n+2)*(n+2),1]'):
    s = N(n)(d)
    return [s["p", 1, "b"], s["p", 1, "a"], s["p", 1]]


@holds('C06', '(lambda p: [p[0, "x"], p[1, "z"], p.cast()])(again(S(n).repeated(d)))', structures='real', raises='any')
def same_repeated(n: 'nat', d: 'DM[n+15,2]'):
    s = S(n)
    return [s.repeated(d)[0, "x"], s.repeated(d)[1, "z"], CSMAT(n + 15, 2, lambda i, j: d[i, j])]


@holds('C06', '(lambda p: [p["a", "b"], p.cast()])(again(N(n).getStruct("p").squared(d)))', structures='real', raises='any')
def same_squared(n: 'nat', d: 'DM[n+2,n+2]'):
    return [CSMAT(n + 1, 1, lambda i, j: d[i, n + 1]), CSMAT(n + 2, n + 2, lambda i, j: d[i, j])]


@holds('C06', '(lambda p: (p.__setitem__((1, "x"), 0), d)[1])(again(S(n).repeated(d)))', structures='real', raises='any')
def view_is_copy(n: 'nat', d: 'DM[n+15,2]'):
    return CSMAT(n + 15, 2, lambda i, j: d[i, j])
