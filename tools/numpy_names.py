"""Writes data/numpy_names.json: public names of numpy, members of its array and poly1d types, of builtin types, and call
signatures of the numpy functions.  Run with the interpreter that has numpy."""
import inspect, json, os, builtins, operator, collections, collections.abc
import numpy as np

out = {'numpy': sorted(dir(np)), 'numpy.linalg': sorted(dir(np.linalg)), 'operator': sorted(dir(operator)),
       'collections': sorted(dir(collections)), 'collections.abc': sorted(dir(collections.abc)),
       'builtins': sorted(dir(builtins)), 'members': {}, 'signatures': {}}
for t in (np.ndarray, np.poly1d, np.float64, np.bool_, str, list, dict, tuple, set, int, float, slice, type, object, Exception, BaseException,
          type(lambda: 0), property, bytes, frozenset, range, complex):
    out['members'][t.__name__] = sorted(dir(t))
for mod, prefix in ((np, 'numpy'), (np.linalg, 'numpy.linalg')):
    for n in dir(mod):
        f = getattr(mod, n)
        if not callable(f) or isinstance(f, type):
            continue
        try:
            s = inspect.signature(f)
        except (TypeError, ValueError):
            continue
        ps = [[p.name, str(p.kind), p.default is not inspect._empty] for p in s.parameters.values()]
        out['signatures'][prefix + '.' + n] = ps
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'numpy_names.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
