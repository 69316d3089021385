#!/usr/bin/env python3
"""Decide one property:  python3 check.py C15

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the analysis itself failed.
"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)

from result import Result  # noqa: E402

ROOT = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
LIMIT = 400 if TIER == 'thorough' else 150       # seconds for one obligation
BUDGET = 780                                     # seconds after which no further obligation is begun
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, len(os.sched_getaffinity(0)))
SEED = int(os.environ.get('VERIF_SEED', '0') or 0)


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout()


def rel(path):
    return os.path.relpath(path, ROOT) if path and path.startswith(ROOT) else path


def decide(A, ob):
    """One value-flow obligation -> Result, stats.

    First for all inputs at once.  If that stays undecided, case by case: by the constants that names are compared with, and for
    some fixed sizes, where loops are followed step by step.
    """
    import terms as tm
    tm.TESTS.clear()
    r, st = attempt(A, ob, None, LIMIT)
    if r.verdict not in ('undecided', 'agreed'):
        return r, st
    t0 = time.time()
    good, bad = [], []
    for case in A.cases(ob, {k: set(v) for k, v in tm.TESTS.items()}):
        left = int(LIMIT - (time.time() - t0))
        if left <= 0:
            break
        if case.row is not None and bad == [] and any(c.row is None for c in good):
            break        # every case decided for all sizes
        r2, _ = attempt(A, ob, case, min(left, max(10, LIMIT // 3)))
        if r2.verdict == 'violation':
            r2.message += ' (case %s)' % case.show()
            return r2, st
        if r2.verdict in ('held', 'agreed'):
            good.append(case)
        else:
            bad.append(case)
    if good and not bad and all(c.row is None for c in good) or len([c for c in good if c.row is not None]) >= 2:
        return Result(r.rule, r.instance, 'bounded', r.where, 'for ' + '; '.join(c.show() for c in good)), st
    return r, st


def attempt(A, ob, sizes, limit):
    """The obligation for all sizes (sizes None) or for fixed ones."""
    import oblig
    import randint
    import tdiff
    from terms import pretty, find_ops, has_op, Blowup, FALSE
    rule = 'summary-equals-definition'
    st = {}
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        miss = A.missing_anchor(ob)
        if miss:
            return Result(rule, ob.id, 'broken', '', 'public name %s no longer exists' % miss), st
        spec = A.side(ob, 'spec', sizes)
        impl = A.side(ob, 'impl', sizes)
        st = {'functions': {k: v for k, v in impl.flow.analysed.items()}, 'call_sites': impl.flow.call_sites,
              'joins': impl.flow.joins, 'loops': impl.flow.loops, 'steps': impl.flow.steps}
        a, b, guard = oblig.compare(impl, spec, ob.opts)
        if has_op(b, ('unknown',)):
            return Result(rule, ob.id, 'broken', '', 'definition is not expressible: ' + pretty(b)[:300]), st
        where = A.anchor_location(ob, impl)
        if impl.alive is FALSE and spec.alive is not FALSE:
            locs = sorted({'%s:%d' % (rel(x[2][0]), x[2][1]) for x in impl.raises if x[2]})
            return Result(rule, ob.id, 'violation', locs[0] if locs else where,
                          '%s: `%s` always raises %s' % (ob.id, ob.expr, sorted({x[1] for x in impl.raises}))), st
        if guard is FALSE:
            return Result(rule, ob.id, 'broken', where, 'nothing to compare: the two sides are never defined together'), st
        if a is b:
            if TIER == 'thorough':
                # cross-check of the rewriting: the unsimplified outcomes must agree as well
                x, y, g = oblig.outcomes(impl, spec, ob.opts)
                w = None
                if oblig.cross_checkable(x) and oblig.cross_checkable(y):
                    keep = ob.opts.get('names') == 'keep'
                    w = randint.distinguish(oblig.rename_fresh(x, keep), oblig.rename_fresh(y, keep), g, SEED, 60)
                if w:
                    return Result(rule, ob.id, 'broken', where, 'internal: equal normal forms, different values: %s'
                                  % (str(w)[:400],)), st
            return Result(rule, ob.id, 'held', where), st
        why = A.not_comparable(a, b)
        if why and oblig.only_raises(a, b):
            a, b = oblig.only_raises(a, b)
            why = A.not_comparable(a, b)
        if why:
            return Result(rule, ob.id, 'undecided', where, why), st
        w = randint.distinguish(a, b, guard, SEED, (1000 if TIER == 'thorough' else 500) // (1 if sizes is None else 5), ob.indices())
        if not w:
            return Result(rule, ob.id, 'undecided' if w == () else 'agreed', where,
                          'normal forms differ but no interpretation tells them apart'), st
        ds = tdiff.diff(a, b)
        where = A.locate(ob, impl, ds) or where
        det = {'expected': pretty(b)[:3000], 'found': pretty(a)[:3000],
               'differences': [{'found': tdiff.show(x)[:800], 'expected': tdiff.show(y)[:800]} for x, y in ds],
               'functions': {k: '%s:%s' % (rel(v[0]), v[1]) for k, v in impl.flow.analysed.items()},
               'witness': {'found': str(w[1])[:600], 'expected': str(w[2])[:600]}}
        x, y = ds[0] if ds else (a, b)
        return Result(rule, ob.id, 'violation', where, '%s: the summary of `%s` is not the defined one: found %s, expected %s'
                      % (ob.id, ob.expr, tdiff.show(x)[:300], tdiff.show(y)[:300]) + (' (%s)' % w[1] if w[1] is randint.PAST else ''), det), st
    except Timeout:
        return Result(rule, ob.id, 'undecided', '', 'time limit'), st
    except (Blowup, RecursionError) as e:
        return Result(rule, ob.id, 'undecided', '', 'size limit: %s' % (e,)), st
    except Exception as e:
        return Result(rule, ob.id, 'undecided', '', 'analysis error: %s' % traceback.format_exc()[-1500:]), st
    finally:
        signal.alarm(0)


def decide_all(A, obs, t0):
    """Every obligation in a process of its own, so that none depends on what was analysed before it."""
    from multiprocessing import get_context
    from multiprocessing.connection import wait
    ctx = get_context('fork')
    out = [None] * len(obs)
    todo = list(range(len(obs)))
    busy = {}

    def child(i, c):
        c.send(decide(A, obs[i]))
        c.close()

    def finish(c, why=None):
        i, p, _ = busy.pop(c)
        if why is None:
            try:
                out[i] = c.recv()
            except (EOFError, OSError):
                why = 'the process of the analysis ended early'
        if out[i] is None:
            out[i] = Result('summary-equals-definition', obs[i].id, 'undecided', '', why), {}
            p.kill()
        p.join()
        c.close()
    while todo or busy:
        while todo and len(busy) < JOBS:
            i = todo.pop(0)
            if time.time() - t0 > BUDGET:
                out[i] = Result('summary-equals-definition', obs[i].id, 'undecided', '', 'time limit of the check'), {}
                continue
            mine, theirs = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, theirs))
            p.start()
            theirs.close()
            busy[mine] = (i, p, time.time())
        for c in wait(list(busy), 5) if busy else ():
            finish(c)
        for c in [c for c, (_, _, t) in busy.items() if time.time() - t > 2 * LIMIT + 40 or time.time() - t0 > BUDGET + 20]:
            finish(c, 'time limit')
    return out


def run(prop):
    import oblig
    t0 = time.time()
    A = oblig.Analysis(root=ROOT, spec_dir=os.path.join(HERE, 'specs'), data=os.path.join(HERE, 'data'))
    results = []
    functions = {}
    tot = {'call_sites': 0, 'joins': 0, 'loops': 0, 'steps': 0}
    for r, st in decide_all(A, [o for o in A.obligations if o.prop == prop], t0):
        functions.update(st.get('functions', {}))
        for k in tot:
            tot[k] += st.get(k, 0)
        results.append(r)
    rule_stats = {}
    import rules
    for f in rules.RULES.get(prop, ()):
        try:
            rs, stats = f(A)
            results.extend(rs)
            rule_stats.update(stats)
        except Exception:
            results.append(Result(f.__name__, '*', 'broken', '', traceback.format_exc()[-1500:]))
    known = load_known(prop)
    viol = [r for r in results if r.verdict == 'violation']
    old = [r for r in viol if r.key in known]
    new = [r for r in viol if r.key not in known]
    # the construct of a known finding may have moved to another function of the same module
    gone = [k for k in known if k not in {r.key for r in old}]
    for r in list(new):
        for k in gone:
            if site(k) is not None and site(k) == site(r.key):
                gone.remove(k)
                new.remove(r)
                old.append(r)
                known[r.key] = known[k]
                break
    broken = [r for r in results if r.verdict == 'broken']
    und = [r for r in results if r.verdict == 'undecided']
    weak = [r for r in results if r.verdict in ('bounded', 'agreed')]
    held = [r for r in results if r.verdict == 'held']
    print('%s: %d obligations, %d discharged, %s%d undecided, %d violated, %d known; %d functions analysed'
          % (prop, len(results), len(held), '%d in part, ' % len(weak) if weak else '', len(und), len(new), len(old), len(functions)))
    for r in held[:60]:
        print('  held       %s %s' % (r.key, r.where))
    for r in weak:
        print('  %-9s  %s %s: %s' % (r.verdict, r.key, r.where, r.message[:300]))
    for r in und:
        print('  undecided  %s %s: %s' % (r.key, r.where, r.message.strip().splitlines()[-1][:300] if r.message else ''))
    for r in broken:
        print('  broken     %s: %s' % (r.key, r.message))
    for r in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[r.key]))
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    code = 0
    if new:
        path = os.path.join(evdir, '%s.violation.json' % prop)
        with open(path, 'w') as f:
            json.dump([{'rule': r.rule, 'instance': r.instance, 'where': r.where, 'message': r.message, 'detail': r.detail}
                       for r in new], f, indent=1)
        for r in new:
            print('  violated   %s at %s\n      %s' % (r.key, r.where, r.message))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif broken or not (held or old or weak):
        print('analysis broken: no verdict')
        code = 2
    cov = {
        'explanation': 'Static analysis of the working tree of /repo; every obligation is one (rule, construct) pair. '
                       'Counts are of this run.',
        'obligations': len(results), 'discharged': len(held), 'discharged_in_part': len(weak), 'undecided': len(und), 'known_findings': len(old),
        'rules': sorted({r.rule for r in results}),
        'instances': [{'rule': r.rule, 'instance': r.instance, 'where': r.where, 'verdict': r.verdict} for r in results][:400],
        'functions_analysed': {k: '%s:%s' % (rel(v[0]), v[1]) for k, v in sorted(functions.items())},
        'call_sites': tot['call_sites'], 'joins': tot['joins'], 'loops_summarised': tot['loops'],
        'statements_interpreted': tot['steps'],
    }
    cov.update(rule_stats)
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 3), 'violations': len(new),
          'assumptions': ['library models in engine/lib.py describe numpy, casadi and builtins',
                          'exact arithmetic instead of floating point']}
    with open(os.path.join(evdir, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    return code


def site(key):
    """(rule, module, construct) of a finding keyed 'rule module.place: construct'."""
    rule, _, rest = key.partition(' ')
    place, _, what = rest.partition(': ')
    parts = place.split('.')
    mods = [i for i in range(len(parts), 0, -1) if os.path.exists(os.path.join(ROOT, *parts[:i]) + '.py')]
    return (rule, '.'.join(parts[:mods[0]]), what) if mods and what else None


def load_known(prop):
    """known-findings.txt lines:  known: property=<id> key=<rule instance> | <what fails>"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s key=' % prop):
                k, _, msg = l[len('known: property=%s key=' % prop):].partition(' | ')
                out[k.strip()] = msg.strip()
    return out


if __name__ == '__main__':
    try:
        code = run(sys.argv[1])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
