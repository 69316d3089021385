"""Nothing to build: checks that the analysis modules load and that the package parses."""
import ast, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(HERE, 'engine'))
import oblig
A = oblig.Analysis(root='/repo', spec_dir=os.path.join(HERE, 'specs'), data=os.path.join(HERE, 'data'))
print('%d modules, %d obligations' % (len(A.package_modules), len(A.obligations)))
