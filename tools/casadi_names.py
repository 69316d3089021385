"""Names defined by the installed casadi module and members of its classes, read from its source (not imported)."""
import ast
import json
import os
import sys

P = '/opt/venv/lib/python3.12/site-packages/casadi/casadi.py'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'casadi_names.json')


def main():
    import warnings
    warnings.simplefilter('ignore')
    t = ast.parse(open(P, encoding='utf-8').read())
    names = set()
    classes = {}

    def collect(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                if isinstance(n, ast.ClassDef):
                    mem = set()
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef):
                            mem.add(m.name)
                        elif isinstance(m, ast.Assign):
                            for x in m.targets:
                                if isinstance(x, ast.Name):
                                    mem.add(x.id)
                    classes[n.name] = {'bases': [ast.unparse(b).split('.')[-1] for b in n.bases], 'members': sorted(mem)}
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        names.add(x.id)
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in classes:
                        classes[x.value.id]['members'] = sorted(set(classes[x.value.id]['members']) | {x.attr})
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For)):
                for f in ('body', 'orelse', 'finalbody'):
                    collect(getattr(n, f, []))
                for h in getattr(n, 'handlers', []):
                    collect(h.body)
    collect(t.body)
    json.dump({'names': sorted(names), 'classes': classes}, open(OUT, 'w'), indent=0, sort_keys=True)


main()
