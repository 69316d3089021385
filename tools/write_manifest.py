"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
VF = 'static value-flow analysis (abstract interpretation over value terms, gated joins, loop summaries); function summaries compared with written definitions'
VF_NOTE = ('For all inputs of the declared kinds and symbolic sizes: the function summary computed from the source has the same normal '
           'form as an independently written definition. Trusts the library models in engine/lib.py (numpy, casadi, builtins), exact '
           'instead of floating-point arithmetic, and the rewriting rules of engine/terms.py (a difference counts only if a random interpretation of the two terms tells them apart). '
           'Where no normal form is reached the same comparison is repeated case by case or for a list of fixed sizes, and the evidence says so. '
           'A summary outside the modelled vocabulary is reported as undecided, not as a violation.')
CLAIMED = {}
ST_NOTE = VF_NOTE + (' Bounds: the structures of the obligations have a fixed nesting, a fixed set of entry kinds and fixed repetition counts; '
                     'entry shapes, data and, where the definition allows, indices are symbolic.')
for c in 'C01 C02 C03 C04 C05 C06 C07 C08'.split():
    CLAIMED[c] = (VF, ST_NOTE)
for c in 'C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27'.split():
    CLAIMED[c] = (VF, VF_NOTE)
RS = 'static reference resolution over the syntax tree (names, definite assignment, attributes, call signatures, format strings)'
RS_NOTE = ('Every name, local-variable use, attribute, call of a package or numpy function and format string of the package is resolved; '
           'a reference is reported only if nothing that could define it exists. Attributes of objects whose class is not known are only '
           'checked against all attribute names of the package, casadi, numpy and the builtins. Trusts the name lists in data/.')
CLAIMED['C29'] = (RS, RS_NOTE)
EF = 'static interprocedural effect and alias analysis over the syntax tree (function summaries to a fixpoint)'
EF_NOTE = ('For every function of the package: the set of objects it may change, expressed by how they are reached from its arguments, default values, '
           'class and module level; anything outside the table of permitted effects (initialisers, item assignment, setters, own caches keyed by the '
           'arguments) is reported at the changing construct. Callables of unknown origin and library calls outside the listed in-place functions are '
           'taken to be free of effects; in-place arithmetic on a name counts only where the name is known to be able to hold an array or list.')
CLAIMED['C28'] = (EF, EF_NOTE)
NA = {}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the source only', 'source_commits': []}}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in CLAIMED:
        t, n = CLAIMED[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                            'technique': t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not covered yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
