#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing the table below)."""
import json, os
S = "casadi_extras/structure3.py"
Q = "casadi_extras/inequality.py"
D = "casadi_extras/dae_model.py"
PO = "casadi_extras/collocation/polynomial.py"
BU = "casadi_extras/collocation/butcher.py"
PP = "casadi_extras/collocation/piecewise_poly.py"
CO = "casadi_extras/collocation/collocation.py"
ST = "casadi_extras/system_trajectory.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=obs, hook_needed=None)))

prop("C01", "Structure layout numbers every stored element once, in declared order",
 "For every structure declaration (nesting, repetition dimensions, matrix shape or sparsity, symmetric entries, grouped entries, explicit ordering) the stored elements are numbered 0..size-1 without gap or overlap: entries in declared order, grouped entries interleaved one outer repetition at a time, repetitions in row-major order, nested structures expanded in place, matrix elements column by column. "
 "The size, the key list, the index queries (matrix form and flat form), the element-to-index lookups and the labels all describe that one numbering. "
 "This is the same for plain, symbolic (SX, MX) and numeric structures.",
 ["inputs", "configurations"], "every declaration: any list of entries, shapes, sparsity patterns, repeats, nesting depth, tuple groups and order arguments",
 "The tests declare one flat two-entry structure; nesting, repeats, grouping, order, sparsity and the index queries are never exercised, and the space of declarations is unbounded.",
 [S], [("canonical traversal and flat map construction", "structure3.py CasadiStructure.__init__, Structure.traverseCanonicalIndex, StructEntry.traverseCanonicalIndex, listindices, intersperse"), ("lookups", "structure3.py getCanonicalIndex, canonicalIndices, getLabel, labels, .i, .f")],
 ["size", "keys()", "canonicalIndices()", "labels()", ".i[...]", ".f[...]"])

prop("C02", "Structured reads return exactly the addressed elements",
 "Reading a structured object with any well-formed index (names, repetition integers including negative ones, slices, integer lists, all-entries, name lists, dict / nested-dict / name-set forms, matrix-level indices, callables applied to a selection, or a saved prefix followed by any of these) returns exactly the elements of its flat vector that the layout assigns to that index, in the nesting and matrix shape the index asks for. "
 "This holds identically for symbolic, numeric and expression-valued containers. Reading changes nothing.",
 ["inputs", "programs", "histories"], "every declaration x every well-formed index x every container kind, after any history of reads",
 "The tests read whole un-repeated entries by name only; index forms compose freely, so the space is a product of declarations and index terms.",
 [S], [("power index traversal", "structure3.py Structure.traverseByPowerIndex, StructEntry.traverseByPowerIndex"), ("element selection", "structure3.py GetterDispatcher, performExtraIndex, VertsplitStructure.buildMap, Prefixer")],
 ["container[index]", "container.prefix[...]"])

prop("C03", "Structured writes change exactly the addressed elements",
 "After any sequence of assignments through well-formed indices, the flat vector and every read of a mutable structured container show, for each element, the value most recently assigned to it: scalars are broadcast, matrices are stored element by element, and lists, dictionaries and repetition markers are distributed over the selection. "
 "Elements outside the selection keep their values, and assigning back what an index reads changes nothing.",
 ["inputs", "histories"], "every declaration, every finite history of writes and reads, every payload form, numeric / SX / MX containers",
 "Histories of mixed writes and reads are unbounded; the tests only fill a fresh container from a dictionary.",
 [S], [("distribution of the right-hand side", "structure3.py payloadUnpack, traverseByPowerIndex(payload)"), ("storage update", "structure3.py SetterDispatcher, MasterSettable, MXStruct (cached pieces)")],
 ["container[index] = value", "container.cat", "container[index]"])

prop("C04", "Ill-formed structure requests are refused and leave the data untouched",
 "Unknown names, repetition or matrix indices out of range, index kinds not allowed in their context, values whose shape does not fit the selected matrix, data of wrong length, dictionaries with missing or extra keys, duplicate entry names, orderings naming unknown entries, and contradictory or unknown entry attributes are refused with an exception, for reads, writes, conversions and declarations. "
 "A refused read or single-target write leaves the container exactly as it was.",
 ["inputs", "histories"], "every ill-formed request of the listed classes, at any point of a history",
 "The tests try one wrong key set and one wrong shape; each class of ill-formed request exists at every nesting level and in every context.",
 [S], [("checked lookups", "structure3.py SafeDict, GetterDispatcher/SetterDispatcher map membership, canonical()"), ("declaration checks", "structure3.py CasadiStructEntry.__init__, EntryList.__init__, Structure.__init__"), ("conversion checks", "structure3.py CasadiStructureDerivable.__call__, MatrixStruct.__init__")],
 ["exceptions of container[...], struct(...), entry(...), struct_*([...])", "container.cat before and after"])

prop("C05", "Vectors, scalars, dictionaries and matrices convert faithfully to structures",
 "Calling a structure on a vector of its length yields a container whose flat vector equals that data, numeric, SX or MX as the argument is; a scalar number is broadcast to all elements; a dictionary with exactly the structure's keys fills every entry as an assignment of that value would. "
 "Splitting a data matrix by a structure returns, for each entry, the values that entry has in each column, columns in order, so that no value is lost, duplicated or moved to another entry.",
 ["inputs"], "every declaration and every data vector, scalar, dictionary and matrix of fitting size",
 "The tests convert one dictionary and one 5x3 matrix for one two-entry structure.",
 [S], [("conversion", "structure3.py CasadiStructureDerivable.__call__, argtype, parseMatrix")],
 ["struct(data).cat", "struct(dict)[...]", "struct.parseMatrix(data)"])

prop("C06", "Structured views of a matrix read and update exactly the named block",
 "Viewing a matrix as repeated columns of a structure, as a block matrix between two structures (or a structure and itself), or as a row of such square blocks gives, for every column number, entry name, name list or delayed structure index, exactly the corresponding block of the matrix. "
 "Writing through the view changes exactly that block, and both the view and the matrix obtained from it show the change. This holds for numeric, SX and MX matrices, and matrices of the wrong size are refused.",
 ["inputs", "histories"], "every pair of structures, every matrix, every sequence of block reads and writes",
 "No test touches the views at all.",
 [S], [("views", "structure3.py repeated, squared, product, squared_repeated, DataReference*"), ("delayed indices", "structure3.py delegation, index, indexf, Prefixer")],
 ["view[...]", "view[...] = value", "view.cast()"])

prop("C07", "Symmetric entries read and stay symmetric",
 "An entry declared symmetric stores only one triangle yet reads as the full symmetric matrix, whole or through any matrix-level index (element, row, column, block). "
 "Writing an element, row, column or a whole symmetric matrix updates both mirrored positions, and changes no other element of the entry or of the container.",
 ["inputs", "histories"], "every symmetric entry size, every element/row/column/block index, every history of writes, all container kinds",
 "No test declares a symmetric entry.",
 [S], [("triangle storage", "structure3.py CasadiStructEntry type='symm', GetterDispatcher and SetterDispatcher symm branches, performExtraIndex(flip)")],
 ["container[entry, i, j]", "container[entry, ...] = value", "size"])

prop("C08", "Saved structures and numeric containers load back identical",
 "Pickling or saving to a file and loading back, any number of times, a structure or a numeric structured container yields one with the same keys, size, layout, labels, nesting, repetition, sparsity and symmetry, and with the same numbers. "
 "The loaded object answers every read like the original, and changing one afterwards does not change the other.",
 ["inputs", "histories"], "every declaration and content, every number of save/load rounds, and operations after loading",
 "No test saves or pickles anything.",
 [S], [("state capture", "structure3.py __getstate__/__setstate__ of CasadiStructure, CasadiStructured, DMStruct, CasadiStructEntry, Prefixer"), ("file io", "structure3.py save, struct_load")],
 ["pickle.loads(pickle.dumps(s))", "s.save(f); struct_load(f)"])

prop("C09", "Structures assembled from expressions concatenate them in layout order",
 "A structure built from named expressions (single matrices, nested lists, SX or MX, other structures, caller-supplied symbols) has as flat vector exactly the stored elements of those expressions in layout order, and each entry reads back as its expression. "
 "Replacing an entry's expression changes that entry and nothing else, in every later read. Reading while some entry has no expression yet is refused instead of returning a value.",
 ["inputs", "histories"], "every list of expressions, any order of filling and replacing entries, reads in between",
 "The tests build one such structure inside the collocation scheme and never replace an entry after reading.",
 [S], [("assembly", "structure3.py MXVeccatStruct, MatrixStruct, ssymStruct, CasadiStructEntry expr/sym handling"), ("caching", "structure3.py MXVeccatStruct.master")],
 ["struct_MX/struct_SX/struct_MX_mutable/struct_symSX .cat", "s[name]", "s[name] = expr"])

prop("C10", "An inequality has bounds and nominal of exactly its expression's shape",
 "For every expression, an absent lower (upper) bound is minus (plus) infinity in every element, given bounds and nominal values are kept element by element, and a bound or nominal whose shape differs from the expression's is refused. "
 "A bounded variable is a pure symbol with the given name and the shape of its nominal value, and the element count is that of the expression.",
 ["inputs"], "every expression shape (vectors, matrices, empty, structured), every combination of given and absent bounds and nominal",
 "The tests use a few column vectors; shape/absence combinations multiply.",
 [Q], [("construction", "inequality.py Inequality.__new__, BoundedVariable.__new__")],
 ["expr, lb, ub, nominal, numel()"])

prop("C11", "Concatenating inequalities keeps every row with its own bounds",
 "Concatenating any sequence or dictionary of inequalities yields one whose expression, lower bound, upper bound and nominal are the respective parts stacked in the same order, so that each row keeps its own bounds and nominal; a dictionary also keeps each part accessible under its name. "
 "This holds for any number of parts, any sizes (also empty), and results that are concatenated again. Parts without nominal values give a result without nominal value.",
 ["inputs", "programs"], "every list or dictionary of inequalities, nested concatenation",
 "The tests concatenate two fixed-size inequalities with nominal values.",
 [Q, S], [("concatenation", "inequality.py vertcat"), ("dictionary fill", "structure3.py CasadiStructureDerivable.__call__")],
 ["vertcat(...).expr/lb/ub/nominal, named access"])

prop("C12", "A DAE model is accepted exactly when its parts fit together",
 "Constructing a semi-explicit or implicit model succeeds exactly when states, algebraic states and inputs are purely symbolic columns, parameters and time-dependent parameters purely symbolic, time a symbolic scalar, there is one differential equation per state and one algebraic equation per algebraic state (also when either is omitted), and in the implicit case one derivative per state and as many residuals as states plus algebraic states, equations being columns; anything else is refused. "
 "Omitted optional parts are empty, and the reported sizes are the actual element counts.",
 ["inputs", "configurations"], "every combination of present/absent/ill-shaped/non-symbolic parts and sizes",
 "The tests only build a handful of valid models.",
 [D], [("construction checks", "dae_model.py Dae.__init__, SemiExplicitDae.__init__, ImplicitDae.__init__")],
 ["constructor outcome", "nx nz nu np ntdp nq", "x z u p t quad tdp ode alg"])

prop("C13", "Model conversion, parallel connection and functions preserve the equations",
 "The implicit form of a semi-explicit model has as residual the state derivative minus its right-hand side followed by the algebraic equations, with the same variables and quadrature; an implicit model converts to itself. "
 "A function created from a model with any selection and order of named inputs and outputs evaluates exactly those quantities. Connecting models in parallel gives the model whose states, algebraic states, inputs, parameters, equations and quadratures are those of the parts stacked in order.",
 ["inputs", "programs"], "every model (sizes, equations), every evaluation point, every input/output selection, every list of time-invariant models",
 "The tests evaluate converted models only through a few integrator runs and never use parallel connection.",
 [D], [("conversion", "dae_model.py makeImplicit, createFunction, parallel")],
 ["createFunction(...)(...)", "makeImplicit()", "parallel(models)"])

prop("C14", "Polynomial bases interpolate and differentiate exactly",
 "For any distinct nodes, the interpolation matrix maps node values of a polynomial of degree below the number of nodes to its values at every query point (exactly the node value at a node, also outside the node range), the differentiation matrix maps them to its derivative at the nodes, and composing coefficients gives the polynomials with those node values, all up to rounding. "
 "The barycentric and power-basis interpolators and the Chebyshev grid/differentiation pair on any interval agree with this. No call changes its arguments or the basis.",
 ["inputs", "histories"], "every set of distinct nodes (any order, spacing, count within conditioning), every query point, coefficient matrix and interval",
 "The tests check four Legendre nodes and Chebyshev grids at a few points.",
 [PO], [("barycentric weights, Lagrange polynomials, differentiation matrix", "polynomial.py PolynomialBasis"), ("wrappers", "polynomial.py polynomialInterpolator, barycentricInterpolator, cheb")],
 ["interpolationMatrix, D, poly, compose, numPoints, order, cheb(...)"])

prop("C15", "Collocation points and Butcher tableaus have their defining exactness",
 "Collocation points of every order and scheme start at 0, increase strictly within [0, 1], have order+1 members, and are 0 plus the Legendre or Radau points, or the Chebyshev extrema ending at 1. "
 "For any distinct nodes the tableau's matrix and weights integrate every polynomial of degree below the number of nodes exactly from 0 to each node and to 1, its nodes are the given ones; Legendre weights are exact to degree 2s-1 and Radau weights to 2s-2. Ill-shaped tableaus are refused.",
 ["inputs", "configurations"], "every order, scheme, node set and polynomial",
 "The tests check Legendre orders 1..4 with one random polynomial; Radau, Chebyshev and arbitrary nodes are untested.",
 [BU, PO], [("tableau", "butcher.py butcherTableuForCollocationPoints, butcherTableuForCollocationMethod, ButcherTableau"), ("points", "polynomial.py collocationPoints")],
 ["collocationPoints(order, scheme)", "tableau.A, b, c"])

prop("C16", "Piecewise polynomials evaluate on the right interval with the right polynomial",
 "Evaluating a piecewise polynomial at any scalar or list of points (any order, inside, at breakpoints, or outside the range) returns one column per point holding the value of the polynomial of the interval containing it: the left or right neighbour at an interior breakpoint as requested, the nearest interval outside the range. "
 "Unknown continuity names are refused, and evaluation depends only on the arguments, not on earlier calls.",
 ["inputs", "histories"], "every breakpoint grid, coefficients (any number of rows), basis, query points and continuity, after any earlier calls",
 "The tests evaluate a few points of 1- and 2-interval functions.",
 [PP], [("interval search and local interpolation", "piecewise_poly.py PiecewisePoly.__call__")],
 ["pp(t, continuity)", "intervals", "numIntervals"])

prop("C17", "Derivative, interval polynomials and sampling agree with the piecewise function",
 "The derivative of a piecewise polynomial is, on every interval, the derivative of its polynomial there; the polynomials returned for an interval reproduce the function on it as functions of the offset from its left end, whatever their degree. "
 "Sampling with a step returns ascending points that contain both ends of every interval, are never further apart than the step, and come with the function's one-sided values on each interval. None of these change the original function.",
 ["inputs", "histories"], "every grid, coefficients (including degenerate degrees), basis, interval number and step",
 "The tests compare one random quadratic's interval polynomials, plot one sampling without assertion, and never use the derivative.",
 [PP, PO], [("derivative", "piecewise_poly.py derivative"), ("interval polynomials", "piecewise_poly.py poly, polynomial.py compose"), ("sampling", "piecewise_poly.py discretize")],
 ["pp.derivative()(t)", "pp.poly(n)[i](t)", "pp.discretize(step)"])

prop("C18", "Multi-interval differential quadrature differentiates and integrates exactly",
 "For any ascending interval bounds, order and end-point-including scheme, the collocation points are the scaled scheme points of every interval with shared ends counted once, from the first to the last bound. "
 "Differentiating the point values of a function that is polynomial (degree up to the order) on each interval gives its derivative at every point but the last, taken from the right at shared points; integrating that result gives back the values minus the initial value at every point but the first; expanding per-interval inputs repeats each of them over its interval's points.",
 ["inputs", "configurations"], "every grid, order, scheme (chebyshev, radau), matrix of values and inputs",
 "All tests of this class are skipped.",
 [CO], [("assembly", "collocation.py Pdq.__init__"), ("operators", "collocation.py Pdq.derivative, integral, expandInput")],
 ["collocationPoints, t0, tf, intervalLength(), numIntervals, polyOrder", "derivative(y), integral(dy), expandInput(u)"])

prop("C19", "Trajectory interpolation honours the requested continuity",
 "Interpolating values at collocation points returns, for every query time, the value of the interval's interpolating polynomial: through all points of the interval for continuity from both sides, through all but its right end for right-continuity, and through all but its left end for left-continuity, with a shared bound belonging to the right interval (for left-continuity to the left one), and end intervals extended outside the range. "
 "A system trajectory reports its state, algebraic state and input accordingly; value matrices with the wrong number of columns are refused.",
 ["inputs", "configurations"], "every grid, order, scheme (chebyshev, radau), value matrix, query times and continuity",
 "One test interpolates a first-order trajectory at a few points; left-continuity and higher orders are untested.",
 [CO, ST], [("interpolator", "collocation.py _PdqInterpolator"), ("trajectory", "system_trajectory.py SystemTrajectory")],
 ["pdq.interpolator(continuity)(x, t)", "trajectory.state/algState/input(t)", "trajectory.time"])

prop("C20", "The collocation scheme's equations are the collocation equations of the model",
 "For every model (semi-explicit or implicit), ascending time grid, number of collocation points, method, parallelization, expansion and parameter-repetition choice, the scheme's residual consists exactly of the model residual at every collocation point (with the state reconstructed from interval start state and stage derivatives, that point's algebraic state, its interval's input, the parameters, and the point's time and time-dependent parameter), the state mismatch at the end of every interval, and the differences between successive parameter copies. "
 "Nothing else enters any of them, and the reported point times and inputs are the ones used.",
 ["inputs", "configurations"], "every model, grid, order, method, option, and every value of all scheme variables",
 "The tests check the solution of one scalar ODE on one interval; multi-interval, Radau, parameters, time-dependent parameters and residual ordering are not checked.",
 [CO, D], [("scheme construction", "collocation.py CollocationScheme.__init__")],
 ["scheme.eq, X, U, tc, t, x, K, Z, u, p, numTotalCollocationPoints, butcher"])

prop("C21", "Scheme quadratures, state reconstruction and combination are consistent",
 "The quadrature values at interval ends and at collocation points are the running integrals, from zero at the first bound, of the collocation polynomial of the quadrature integrand, carried across intervals; the reconstructed states and the piecewise-polynomial trajectory pass through the interval start states and the collocation-point states, with the stage derivatives as slopes. "
 "Combining any selection of scheme parts, in any order, gives a structure holding exactly those parts under their names in that order; unknown parts are refused.",
 ["inputs", "configurations", "programs"], "every model, grid, order, method, values, selection of parts",
 "The tests look at one final quadrature value on one interval.",
 [CO, PP], [("quadrature", "collocation.py CollocationScheme.__init__ (q, Q)"), ("reconstruction", "collocation.py evalX, piecewisePolyX"), ("selection", "collocation.py combine")],
 ["scheme.q, Q, quad, evalX, piecewisePolyX, combine"])

prop("C22", "The integrator returns the solution of the collocation equations",
 "For every solvable model, grid, order, method, initial state, per-interval input, parameter and time-dependent parameter, the integrator's states, derivatives and algebraic states satisfy all collocation equations and start at the given initial state; the end states, point states, quadratures (also parameter-dependent ones) and point times it reports belong to that same solution. "
 "The trajectory returned by integration passes through those states, and integrating over several intervals equals integrating interval by interval from each end state.",
 ["inputs", "configurations", "histories"], "every solvable model, grid, order, method, and all call arguments, in any sequence of calls",
 "The tests integrate scalar models with a fixed order and compare one end value; multi-state models, Radau, parameters, time-dependent parameters and the trajectory are untested.",
 [CO], [("root finding and outputs", "collocation.py CollocationIntegrator.__init__, integrate, collocationIntegrator")],
 ["integrator(x0, z0, u, p) outputs", "integrate(...)['x_traj']"])

ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
