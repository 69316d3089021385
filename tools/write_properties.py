"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, quantifier, why, anchors):
    over = ['inputs']
    if 'histor' in quantifier or 'sequences' in quantifier or 'round trips' in quantifier:
        over.append('histories')
    files = []
    for a in anchors:
        f = a.split(':')[0]
        if f not in files:
            files.append(f)
    mech = [dict(name=a.split(':')[1], where=a.split(':')[0]) for a in anchors if ':' in a] or \
        [dict(name='every function and method', where=f) for f in files]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quantifier),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mech)))


S = 'casadi_extras/structure3.py'
D = 'casadi_extras/dae_model.py'
I = 'casadi_extras/inequality.py'
Y = 'casadi_extras/system_trajectory.py'
PO = 'casadi_extras/collocation/polynomial.py'
PP = 'casadi_extras/collocation/piecewise_poly.py'
BU = 'casadi_extras/collocation/butcher.py'
CO = 'casadi_extras/collocation/collocation.py'

p('C01', 'Flat layout of a structure is a gap-free bijection with its entries',
  'For every structure definition, each stored (structurally nonzero) scalar of each entry instance has exactly one flat position, and positions are handed out consecutively from 0 in the declared traversal order (entry order, grouped entries interleaved, repetitions row-major, nested structures depth first), so that the size equals the number of stored scalars. '
  'An enclosing name (a nested structure, a repeated entry) covers exactly the positions of everything below it, in that order. '
  'Looking up a flat position returns the index path, the running number inside the entry or the (row, column) pair of the scalar stored there, and positions outside 0..size-1 are rejected.',
  'all structure definitions (any nesting depth, repetition counts, sparsity patterns, orderings) and all flat positions',
  'tests look at a handful of two- or three-entry structures; the layout must hold for every nesting, repetition, sparsity and order combination',
  [S+':CasadiStructure.__init__', S+':CasadiStructure.getCanonicalIndex', S+':CasadiStructure.canonicalIndices', S+':CasadiStructure.labels', S+':StructEntry.traverseCanonicalIndex', S+':Structure.traverseCanonicalIndex', S+':listindices', S+':combine', S+':canonicalIndexAncestors'])
p('C02', 'Reading and writing a path touch exactly the cells of that path',
  'Reading a path of a structured object returns exactly the elements stored at that path\'s flat positions, in the shape of the entry; assigning through a path changes exactly those elements to the (converted) value, and no others. '
  'Extra matrix indices after the path (one or two indices, a callable applied to the rest, names or delayed indices resolved through the row/column structure) select the same sub-block on reads and on writes; more than two are rejected. '
  'For symmetric entries the two triangles stay consistent, a non-scalar value must have the declared sparsity, and paths that do not exist are rejected on read and write.',
  'all structures, all valid and invalid paths, all extra indices, all element types',
  'the number of path/extra-index/entry-type combinations is unbounded; each test fixes one',
  [S+':GetterDispatcher.__call__', S+':SetterDispatcher.__call__', S+':performExtraIndex', S+':delegation', S+':MasterGettable.__getitem__', S+':MasterSettable.__setitem__', S+':correct_vector_indexing', S+':CasadiStructure.FlatIndexDispatcher', S+':CasadiStructure.IMDispatcher'])
p('C03', 'Power indices select the documented sub-elements and distribute values',
  'Inside a path, an integer (negative counts from the end), slice or list selects repetitions in the given order, missing trailing repetition indices mean all of them, an ellipsis visits all entries in declared order, {} and a set produce dicts keyed by entry name, nesteddict recurses through all levels, a list of names visits each of them, and a callable is applied to the result of the remaining path. '
  'On assignment, a list given for all repetitions, all entries or a list of names is distributed positionally, a dict by name, `repeated(v)` and scalars are given to every element, and a list that is too short is rejected. '
  'Index kinds that make no sense at a level (slice or integer among entries, dict/set among repetitions, unknown names) are rejected with an error.',
  'all index paths over all structures, for reads and for writes',
  'paths nest arbitrarily (index kinds per level to the power of depth)',
  [S+':StructEntry.traverseByPowerIndex', S+':Structure.traverseByPowerIndex', S+':payloadUnpack', S+':canonical', S+':Dispatcher.callableInner', S+':Dispatcher.callableOuter', S+':SafeDict.__getitem__', S+':vec', S+':properGetitem'])
p('C04', 'Structure and entry definitions are validated and interpreted as declared',
  'An entry definition is accepted only with known keywords in compatible combinations (shape/struct, struct/shapestruct, sym with shape/repeat/expr, expr with shape/repeat/sym exclude each other), integer repetition counts, shapes given as an integer, 1 or 2 integers or a sparsity pattern, and square symmetric entries; everything else raises. '
  'Accepted definitions get the sparsity, repetition, nested structure and row/column structures they declare (scalar by default, the size of the row/column structures when only those are given, the upper triangle for symmetric entries, taken from the expression for sym/expr). '
  'Duplicate names, orders naming unknown entries, and combining grouped entries with an explicit order are rejected; otherwise the entry order is the declared or explicitly given one.',
  'all entry keyword combinations and values, all entry lists and orders',
  'the keyword combinations multiply; only a few are exercised by tests',
  [S+':CasadiStructEntry.__init__', S+':EntryList.__init__', S+':Structure.__init__', S+':entry', S+':ssymStruct.__init__', S+':msymStruct.__init__', S+':MatrixStruct.__init__', S+':MXVeccatStruct.__init__'])
p('C05', 'Expression structures always reflect the latest assignment',
  'An expression structure concatenates, in layout order, the stored elements of the expression most recently assigned to each entry instance; reading an entry after assigning it yields the assigned expression. '
  'Assigning an expression whose sparsity differs from the entry, indexing below entry level, or assigning an unknown entry raises and leaves the entry as it was, and asking for the concatenation while an entry instance is missing raises.',
  'all structures and all sequences of assignments and reads',
  'the guarantee ranges over histories of interleaved assignments and reads',
  [S+':MXVeccatStruct.__init__', S+':MXVeccatStruct.__setitem__', S+':MXVeccatStruct.master', S+':VertsplitStructure.buildMap', S+':MXStruct.__init__'])
p('C06', 'Saving and restoring structures loses and shares nothing',
  'Pickling (or saving and loading) a structure or a structured object and restoring it gives an object with the same entries, order, sparsity, symmetric/shape information and data. '
  'Serialising an object changes neither the object nor any other object that shares its structure, so several objects saved together keep their own data.',
  'all structures and structured objects, alone or sharing a structure, any number of round trips',
  'the failure needs a particular sharing pattern or entry kind in the pickled graph',
  [S+':CasadiStructure.__getstate__', S+':CasadiStructured.__getstate__', S+':DMStruct.__getstate__', S+':CasadiStructEntry.__getstate__', S+':CasadiStructured.__setstate__', S+':Prefixer.__getstate__', S+':struct_load', S+':DMStruct.save', S+':CasadiStructure.save'])
p('C07', 'Calling a structure wraps, broadcasts or rejects data exactly as documented',
  'Calling a structure with numeric data gives a numeric structure over that data, with a single scalar broadcast to every element; symbolic data gives a symbolic structure of the same kind, and data of another size is rejected. '
  'A dict must have exactly the entry names of the structure and each value is stored under its own name; anything that is neither numeric nor symbolic is rejected. '
  'Splitting a matrix gives, for every entry, the columns obtained by reading that entry from each data column, in column order.',
  'all structures and all call arguments',
  'argument kinds, sizes and entry sets vary without bound',
  [S+':CasadiStructureDerivable.argtype', S+':CasadiStructureDerivable.__call__', S+':CasadiStructureDerivable.parseMatrix', S+':MatrixStruct.__init__', S+':DMStruct.__init__', S+':SXStruct.__init__', S+':MXStruct.__init__'])
p('C08', 'Matrix-shaped views read and write the right block of the underlying matrix',
  'The repeated, squared, product and squared-repeated views of a matrix expose column, block or block-repetition structure over the given matrix: reading a path returns the matrix elements at the corresponding rows and columns, and writing through the view changes exactly those elements of the underlying matrix and nothing else. '
  'Arguments whose shape does not match the structure(s) are rejected; a scalar is broadcast where documented.',
  'all structures, all matrix sizes, all paths',
  'needs every block position of every size',
  [S+':CasadiStructureDerivable.repeated', S+':CasadiStructureDerivable.squared', S+':CasadiStructureDerivable.product', S+':CasadiStructureDerivable.squared_repeated', S+':DataReferenceRepeated', S+':DataReferenceSquared', S+':DataReferenceProduct', S+':DataReferenceSquaredRepeated', S+':Prefixer', S+':PrefixConstructor'])
p('C10', 'DAE models are validated on construction',
  'Constructing any DAE model raises a ValueError exactly when x, z, u, ode, alg, xdot or dae is given and is not a column, when a given x, z, u, p, t or tdp is not purely symbolic, when t is not scalar, or when the sizes of ode and x, alg and z, xdot and x, or dae and x plus z disagree. '
  'Every other combination of given and omitted arguments is accepted, and an omitted argument becomes an empty symbol (a scalar symbol for t).',
  'all subsets of arguments and all argument expressions',
  'the argument subsets times the ways each can be invalid exceed the tested ones',
  [D+':Dae.__init__', D+':SemiExplicitDae.__init__', D+':ImplicitDae.__init__'])
p('C11', 'DAE quantities are reported and bound under their own names',
  'Each accessor of a DAE model returns the expression given under that name and each size accessor the number of elements of its own quantity. '
  'A function created from a model has the requested inputs and outputs, in the requested order, each bound to the quantity of that name.',
  'all models, all name lists',
  'a swapped pair only shows for models in which the two quantities differ in the right way',
  [D+':Dae', D+':Dae.createFunction', D+':SemiExplicitDae', D+':ImplicitDae'])
p('C12', 'Implicit conversion and parallel composition preserve the dynamics',
  'Converting a semi-explicit model to implicit form keeps x, z, u, p, t, quad and tdp, introduces a new symbol of the size of x as state derivative, and has as equations xdot - ode stacked over alg; an implicit model converts to itself. '
  'Connecting models in parallel gives a semi-explicit model whose x, z, u, p, ode, alg and quad contain, for every model in order and under its own name, exactly that model\'s quantity.',
  'all models, any number of models in parallel',
  'holds for every model; sign or order mistakes can be invisible for the tested systems',
  [D+':SemiExplicitDae.makeImplicit', D+':ImplicitDae.makeImplicit', D+':parallel'])
p('C13', 'Lagrange basis and differentiation matrix are exact for all nodes',
  'For every set of distinct nodes, the basis polynomial j takes the value 1 at node j and 0 at all other nodes, and the differentiation matrix applied to values at the nodes gives the derivative of the interpolating polynomial at the nodes (off-diagonal barycentric weight quotient, zero row sums). '
  'The number of points is the number of nodes, the order one less, and composing a coefficient matrix gives for each row the linear combination of the basis polynomials with the coefficients of that row.',
  'all node sets (any size, any distinct values), all coefficient matrices',
  'tests use a few fixed node sets; the identity must hold for all',
  [PO+':PolynomialBasis.__init__', PO+':PolynomialBasis.compose', PO+':PolynomialBasis.numPoints', PO+':PolynomialBasis.order'])
p('C14', 'Interpolation reproduces the interpolating polynomial, nodes included',
  'Every row of the interpolation matrix gives the weights of the interpolating polynomial at the corresponding query point: the unit row if the point is exactly a node, the normalised barycentric weights otherwise; rows are in query order and scalars are accepted. '
  'The barycentric and the power-basis interpolators return the values weighted by these rows.',
  'all node sets and all query points, inside, outside and on the nodes',
  'exact node hits and points arbitrarily close to nodes are a measure-zero set that sampled tests do not cover systematically',
  [PO+':PolynomialBasis.interpolationMatrix', PO+':barycentricInterpolator', PO+':polynomialInterpolator'])
p('C15', 'Butcher tableau of a collocation method is exact for all nodes',
  'For every set of distinct nodes the tableau has A[i,j] equal to the integral of Lagrange polynomial j from 0 to node i, b[j] equal to its integral from 0 to 1, and c equal to the nodes. '
  'A tableau is only accepted if A is square and b and c are vectors of the same length, and it reports A, b and c as given.',
  'all node sets; all A, b, c',
  'row/column or index swaps are invisible for small symmetric examples',
  [BU+':butcherTableuForCollocationPoints', BU+':butcherTableuForCollocationMethod', BU+':ButcherTableau'])
p('C16', 'Collocation grids are scaled and ordered correctly',
  'The collocation points of the Chebyshev scheme are (1 - cos(pi k / order)) / 2 for k = 0..order (the single point 0 for order 0), those of every other scheme are 0 followed by the collocation points of that scheme, all in increasing order. '
  'The Chebyshev grid on an interval maps these points affinely onto [t0, tf] and scales the differentiation matrix by 1/(tf - t0).',
  'all orders, schemes and intervals',
  'must hold for every order and interval, tests fix a few',
  [PO+':collocationPoints', PO+':cheb'])
p('C17', 'Piecewise polynomials are evaluated on the right interval and side',
  'Evaluating a piecewise polynomial at a point uses the interval containing it, at an interior boundary the interval selected by the requested one-sided continuity, and the first/last interval outside the range; the point is mapped affinely to [0, 1] and the value is the basis interpolation of the coefficients of that interval, with one column per query point in query order. '
  'Any other continuity value is rejected, and so is a number of coefficient matrices that differs from the number of intervals.',
  'all breakpoints, coefficients, bases and query points, both continuity modes',
  'boundary hits, ends and exterior points are special cases for every interval',
  [PP+':PiecewisePoly.__call__', PP+':PiecewisePoly.__init__', PP+':PiecewisePoly.intervals', PP+':PiecewisePoly.numIntervals'])
p('C18', 'Derivative, local polynomials and sampling agree with the function',
  'The derivative of a piecewise polynomial has the same intervals and basis and, on each interval, the coefficients differentiated in the basis and divided by that interval\'s length. '
  'The local polynomials of interval n satisfy p[i](t) = f(interval[n] + t)[i] for every row. '
  'Sampling with a maximal step returns, interval by interval and with both ends of each interval included, abscissas spaced by the step and the values of that interval\'s polynomial at them.',
  'all piecewise polynomials, intervals of different lengths, all steps, all rows',
  'unequal interval lengths and degree-deficient rows are needed to see a mistake',
  [PP+':PiecewisePoly.derivative', PP+':PiecewisePoly.poly', PP+':PiecewisePoly.discretize'])
p('C19', 'Differential-quadrature grid, derivative and integral are consistent',
  'For every set of interval bounds and order, the grid consists of the scaled collocation points of every interval in order, shared ends stored once, followed by the final bound; t0, tf, length, number of intervals and order describe that grid. '
  'The derivative multiplies, for each point except the last, the values of its own interval with that interval\'s differentiation matrix; the integral inverts exactly this relation starting from zero and continuing each interval from the end of the previous one. '
  'Expanding an input repeats the value of each interval at all of that interval\'s points.',
  'all interval bounds, orders and data',
  'interval index arithmetic has to be right for every number of intervals and order',
  [CO+':Pdq.__init__', CO+':Pdq.derivative', CO+':Pdq.integral', CO+':Pdq.expandInput', CO+':Pdq.t0', CO+':Pdq.tf', CO+':Pdq.intervalLength', CO+':Pdq.numIntervals'])
p('C20', 'Grid interpolation uses the interval, points and side that were asked for',
  'An interpolator for grid values evaluates the interpolating polynomial of the interval containing the query point (clamped to the first/last interval), through all points of the interval for two-sided continuity, all but the last for right and all but the first for left continuity, and at a boundary takes the value belonging to that side. '
  'Values with another number of columns than the points covered, and other continuity values, are rejected. '
  'A system trajectory checks the number of columns of its data, interpolates the state two-sided, algebraic state and input right-continuously, and reports the interval bounds as time.',
  'all grids, data and query times',
  'group/column arithmetic has to be right on every interval and at every boundary',
  [CO+':Pdq.interpolator', CO+':_PdqInterpolator.__init__', CO+':_PdqInterpolator.__call__', Y+':SystemTrajectory.__init__', Y+':SystemTrajectory.state', Y+':SystemTrajectory.algState', Y+':SystemTrajectory.input', Y+':SystemTrajectory.time'])
p('C21', 'Collocation equations are the Runge-Kutta equations of the tableau',
  'For every model, time grid and order, the state at collocation point m of interval n is x_n + h_n * sum_l A[m,l] K_{n,l}, the continuity residual of interval n is x_n + h_n * sum_m b_m K_{n,m} - x_{n+1}, and the collocation residual is the model equation evaluated at exactly that point\'s state, derivative, algebraic state, input, parameter, time and time-dependent parameter. '
  'Collocation times are t_n + h_n c_m in interval-major order.',
  'all models, grids (non-uniform included), orders and methods',
  'non-uniform grids, several intervals and several stages must be combined to see index mistakes',
  [CO+':CollocationScheme.__init__', CO+':CollocationScheme.X', CO+':CollocationScheme.eq', CO+':CollocationScheme.tc', CO+':CollocationScheme.K', CO+':CollocationScheme.Z', CO+':CollocationScheme.x'])
p('C22', 'Inputs and parameters reach every collocation point unchanged',
  'The input at every collocation point of an interval is the input of that interval; the time-dependent parameter at each collocation point is its function evaluated at that point\'s time, and a model with time-dependent parameters but no such function is rejected. '
  'A shared parameter is one vector used at every point; with repeated parameters there is one column per collocation point and the equations force neighbouring columns to be equal.',
  'all models, grids, orders and option combinations',
  'options multiply, and constant inputs or parameters hide misrouting',
  [CO+':CollocationScheme.__init__', CO+':CollocationScheme.U', CO+':CollocationScheme.u', CO+':CollocationScheme.p'])
p('C23', 'Quadratures are integrated with the tableau on every interval',
  'The quadrature at interval ends starts at zero and grows on interval n by h_n * sum_m b_m * quad_{n,m}; the quadrature at collocation point m of interval n is the value at the interval start plus h_n * sum_l A[m,l] * quad_{n,l}, where quad is the model quadrature at the collocation points.',
  'all models, grids and orders',
  'only non-uniform grids with several intervals reveal indexing errors',
  [CO+':CollocationScheme.__init__', CO+':CollocationScheme.q', CO+':CollocationScheme.Q', CO+':CollocationScheme.quad'])
p('C24', 'The integrator solves the collocation system and labels its outputs correctly',
  'The integrator solves for the unknowns (x, K, Z) the collocation equations together with the initial condition x_0 = x0, with given input and parameter, and every output is the scheme quantity of that name evaluated at the solution: xf all interval ends but the first, qf the last quadrature, X, Z, Q, x, K at the solution, tc the collocation times. '
  'Inputs named x0, z0, u and p are the initial state, the guess for the algebraic state, the inputs and the parameters, and integrating additionally returns the state trajectory of the returned x and K.',
  'all models, grids, orders and arguments',
  'mislabelled or wrongly bound arguments are invisible when the model lacks the corresponding quantity',
  [CO+':CollocationIntegrator.__init__', CO+':CollocationIntegrator.integrate', CO+':collocationIntegrator'])
p('C25', 'Combining scheme parts and reconstructing trajectories match the scheme',
  'Combining parts of a scheme gives a structure with the requested parts, in the requested order, each holding the scheme quantity of that name; unknown names are rejected. '
  'Evaluating the state for given x and K substitutes exactly these, and the reconstructed trajectory has on every interval the start state followed by that interval\'s collocation states, over the scheme\'s grid and the nodes 0 and c.',
  'all schemes, part lists and values',
  'needs several intervals with distinct data',
  [CO+':CollocationScheme.combine', CO+':CollocationScheme.evalX', CO+':CollocationScheme.piecewisePolyX'])
p('C26', 'Inequalities keep bounds consistent with their expression',
  'An inequality holds the expression, lower bound, upper bound and nominal value given; a missing lower (upper) bound is minus (plus) infinity in the shape of the expression, and bounds or nominal values of another shape are rejected. '
  'A bounded variable is a fresh symbol of the given name in the shape of its nominal value with the given bounds; the number of elements is that of the expression.',
  'all expressions, bounds and nominal values',
  'combinations of given/omitted/structured bounds are not enumerated by tests',
  [I+':Inequality.__new__', I+':Inequality.numel', I+':BoundedVariable.__new__'])
p('C27', 'Stacking inequalities keeps rows, bounds and names together',
  'Stacking a list of inequalities stacks expressions, lower bounds, upper bounds and nominal values in list order, each from its own inequality. '
  'Stacking a dict gives structures in which every name holds the expression, lower bound, upper bound and nominal value of the inequality of that name.',
  'all lists and dicts of inequalities',
  'a mix-up between bounds or rows needs inequalities that differ in exactly the right way',
  [I+':vertcat'])
p('C28', 'Queries do not change objects or their inputs',
  'Constructing and querying structures, models, polynomials, grids, schemes and inequalities never changes the arguments passed in, default argument values, class-level or module-level state or any other object; a query (reading, evaluating, converting, labelling, serialising) does not change the object it is called on, apart from caching its own result, and a cached result is returned only for the arguments it was computed from. Only assignment (item assignment, property setters, restoring from a pickle) changes an object, and it does not change the structure definition the object is built on. (A matrix handed over as the storage of a structured object belongs to that object.)',
  'all call histories',
  'interference shows only in particular histories of calls on shared objects',
  [S, D, I, Y, PO, PP, BU, CO])
p('C29', 'Public operations refer only to things that exist',
  'No public operation can fail because it refers to a variable, attribute, function, module member or argument that is never defined, or because it calls a function of the package with arguments it does not accept or formats an error message with the wrong number of values.',
  'all code paths, including error paths',
  'error paths and rarely used operations are not executed by tests',
  [S, D, I, Y, PO, PP, BU, CO])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
