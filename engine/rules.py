"""Rules that are not summary obligations, by property.  A rule function takes the analysis and returns (results, statistics)."""
import os
import purity
import refs
from project import Project
from result import Result

HERE = os.path.dirname(os.path.abspath(__file__))
FIX = os.path.join(HERE, '..', 'fixtures')


def references(A):
    """C29"""
    t = refs.Refs(Project(os.path.join(FIX, 'refs'), 'casadi_extras'), A.data)
    found = {(r[0], r[1].split(': ')[1]) for r in t.run()}
    want = {('imported-name-exists', 'casadi_extras.bad.missing'), ('local-is-assigned', 'c'), ('local-is-assigned', 'y'),
            ('name-is-defined', 'undefined_name'), ('attribute-exists', 'Thing.never_set'), ('attribute-exists', 'np.no_such_function'),
            ('attribute-exists', 'cs.MX.no_such_member'), ('attribute-exists', 'o.misspelled_atribute'),
            ('call-matches-signature', 'get()'), ('call-matches-signature', 'Thing()'), ('call-matches-signature', 'np.clip()'),
            ('attribute-exists', 'Thing.absent'), ('format-matches-values', "'%s and %s' %"), ('format-matches-values', "'%s %s' %"),
            ('format-matches-values', "'{0} {1}'.format")}
    out = []
    if found != want:
        out.append(Result('references-self-test', 'fixture', 'broken', '', 'expected %s, got %s' % (sorted(want - found), sorted(found - want))))
    R = refs.Refs(A.project, A.data)
    bad = R.run()
    for r in bad:
        out.append(Result(*r))
    hit = {r[3].split(' ')[-1] for r in bad}
    for m, q, f, c in R.funcs:
        if q not in hit:
            out.append(Result('references-exist', q, 'held', '%s:%d' % (os.path.relpath(m.path, A.project.root), f.lineno)))
    if len(R.funcs) < 120 or sum(R.counts.values()) < 3000:
        out.append(Result('references-exist', 'instances', 'broken', '', 'only %d functions, %d references found' % (len(R.funcs), sum(R.counts.values()))))
    return out, {'references_by_rule': R.counts, 'functions_scanned': len(R.funcs), 'classes_scanned': len(R.classes)}


def side_effects(A):
    """C28"""
    t = purity.Purity(Project(os.path.join(FIX, 'effects'), 'casadi_extras'), None)
    found = {i.split(':')[0].rpartition('.')[2] for _, i, v, _, _ in t.run() if v == 'violation'}
    want = {n for n in (k.rpartition('.')[2] for k in t.E.funcs) if n.startswith('bad_')} | {'grow', '__init__'}
    out = []
    if found != want:
        out.append(Result('effects-self-test', 'fixture', 'broken', '', 'missed %s, invented %s' % (sorted(want - found), sorted(found - want))))
    P = purity.Purity(A.project, purity.entries())
    rs = P.run()
    out.extend(Result(*r) for r in rs)
    present = [k for k in P.entries if k in P.E.funcs]
    if len(present) < 200 or P.E.calls < 2000:
        out.append(Result('no-side-effects', 'instances', 'broken', '', 'only %d of %d known functions and %d call sites found' % (len(present), len(P.entries), P.E.calls)))
    kinds = {}
    for s in P.E.sum.values():
        for (x, w) in s.effects:
            k = w.split(' ')[0]
            kinds[k] = kinds.get(k, 0) + 1
    return out, {'functions_summarised': len(P.E.funcs), 'entry_functions': sum(P.is_entry(k) for k in P.E.funcs), 'call_applications': P.E.calls,
                 'rounds_to_fixpoint': P.E.rounds, 'effects_by_construct': kinds}


RULES = {'C28': [side_effects], 'C29': [references]}
