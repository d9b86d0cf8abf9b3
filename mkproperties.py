#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
L = []


def P(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=['matslise/' + f for f in files.split()],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))


P('P03', 'Propagation outside the domain is rejected',
  'Every way to propagate a solution between two points of a scalar, periodic or matrix problem (state, columns or psi matrix) '
  'throws an exception when either end point is outside the closed domain of the problem or is NaN, and never throws for end points inside it. '
  'No such call ever reads outside the list of sectors.',
  'inputs', 'all end points (any real or NaN), states, energies, sector layouts',
  'Tests only propagate between points inside the domain; a missing or one-sided guard shows only on out-of-range or NaN arguments.',
  'matslise/matslise.cpp matslise/periodic.cpp matscs/matscs.cpp util/find_sector.h',
  [('domain guard before the sector walk', 'Matslise::propagate, Matscs::propagate, propagateColumn, propagatePsi'),
   ('binary search over sectors', 'find_sector')])

P('P09', 'Propagation composes the exact per-sector flows in order, both ways',
  'Propagating a solution from a to b applies, in order from a towards b, the flow of every sector between them, each restricted to its part of [a,b], '
  'and nothing else; inside one sector the result is T(b)T(a)^-1 relative to the sector\'s anchor (left end in forward, mirrored from the right end in backward sectors), for the value, '
  'the derivative and both energy derivatives. Consequently propagating a to b and back, or through any intermediate point, is consistent; the accumulated angle (argdet) is the sum of the per-sector contributions, '
  'negated when moving left.',
  'inputs', 'all a, b in the domain (either order, on or off sector boundaries), all initial states, energies, numbers of columns, sector layouts and matching positions',
  'Tests propagate over whole domains from the ends towards the matching point; interior starts, leftward moves through forward sectors and boundary hits are barely sampled.',
  'matslise/matslise.cpp matslise/sector.cpp matslise/periodic.cpp matscs/matscs.cpp matscs/sector.cpp',
  [('sector walk', 'Matslise::propagate, Matscs::propagate*'), ('anchored flow', 'Sector::propagate, propagateDelta, propagateDeltaColumn')])

P('P01', 'User functions are evaluated during construction only',
  'The potential (and the weight functions of a Sturm-Liouville problem) supplied by the user is stored when a problem is constructed and evaluated only while it is being constructed. '
  'No query - eigenvalues, eigenvalue errors, eigenfunctions and their evaluation, eigenpairs, propagation, matching errors, number of eigenvalues, transformation-free evaluation of a computed eigenfunction - '
  'calls the potential of a Schroedinger problem, on any path.',
  'inputs histories', 'all queries on all solvers (scalar, half-range, periodic, matrix), all arguments, all call sequences',
  'Tests use pure lambdas whose extra evaluations cannot be observed; a user function that is expensive, stateful or no longer valid (a Python callback) shows them.',
  'matslise.h matscs.h matslise/matslise.cpp matslise/sector.cpp matslise/halfrange.cpp matslise/periodic.cpp matscs/matscs.cpp matscs/sector.cpp liouville/sturm_liouville.cpp',
  [('sector construction samples the potential once', 'Sector::Sector'), ('Legendre interpolation', 'Legendre::Legendre'), ('queries only read sectors', 'calculateT, calculateDeltaT')])

P('P02', 'Queries leave no trace: a constructed problem behaves as immutable',
  'After construction no query modifies the problem, any object shared with it, or any global or static state, so queries can be repeated, interleaved or run concurrently from several threads '
  'on one problem with the same results; nothing a query returns depends on earlier queries, clocks or random numbers. Statics are initialised from constants only, never from a call argument.',
  'histories schedules', 'all sequences and interleavings of queries on all solvers and on the eigenfunctions they return',
  'Tests run each query once on a fresh object in one thread; caches, memoised statics and lazily computed members only show on later or concurrent calls.',
  'matslise.h matscs.h liouville.h matslise/matslise.cpp matslise/periodic.cpp matslise/halfrange.cpp matscs/matscs.cpp liouville/liouville.cpp util/legendre.h',
  [('const queries without mutable state', 'AbstractMatslise and derived classes'), ('constant tables', 'Legendre data, formulas')])

P('P15', 'Overloads of one query agree; half-range needs symmetric conditions',
  'Every overload of eigenvalues, eigenvaluesByIndex, eigenvalueError and eigenfunction on the full-range, half-range and Sturm-Liouville style scalar solver computes the same thing: the form with one boundary condition equals the form with that '
  'condition on both sides, a call through the abstract base equals the call on the concrete solver, and the arguments reach the implementation unpermuted. The half-range solver throws exactly when left and right conditions differ. '
  'No overload calls itself endlessly.',
  'inputs', 'all boundary conditions, index and energy ranges, all overloads and dynamic types',
  'Tests exercise one overload per solver, mostly with equal Dirichlet conditions for which permuted or dropped arguments are invisible.',
  'matslise.h matslise/abstract_matslise.cpp matslise/matslise.cpp matslise/halfrange.cpp',
  [('one-sided overloads', 'AbstractMatslise'), ('symmetry guard', 'MatsliseHalf')])

P('P21', 'Nothing leaks, even when a user function throws',
  'Every object the library allocates is owned, from the moment it exists, by an owner that releases it exactly once, so that an exception from a user function or an allocation failure at any point leaks nothing; '
  'objects deleted through a base class have a virtual destructor.',
  'inputs crash_points', 'every allocation site, every point at which a user function or an allocation may throw',
  'Tests use functions that never throw and do not run under a leak detector.',
  'util/sectorbuilder.cpp util/sectorbuilder.h matslise.h matscs.h matslise/matslise.cpp matslise/periodic.cpp matslise/halfrange.cpp matscs/matscs.cpp liouville/sturm_liouville.cpp',
  [('unique_ptr ownership', 'sectors, eigenfunctions'), ('virtual destructors', 'AbstractMatslise, Eigenfunction, SectorBuilder')])

P('P22', 'No dangling references: solvers keep and return only what they own',
  'Problems own copies of everything the caller passed at construction (functions, boundary data); no function returns or stores a reference, pointer, iterator, '
  'lazy matrix expression or closure that refers to a local or temporary that ends before it is used. Queries therefore stay valid after the arguments used for construction are gone. '
  '(The evaluators of eigenfunctions, which refer to the problem they came from, need that problem to stay alive.)',
  'inputs histories', 'all object lifetimes a caller can arrange, every field, return value, closure and view',
  'Use after free of stack slots mostly reads the old value, so tests pass; it needs a particular optimisation level or lifetime to show.',
  'matslise.h matscs.h liouville.h matslise/matslise.cpp matslise/halfrange.cpp matscs/matscs.cpp matscs/sector.cpp liouville/liouville.cpp util/sectorbuilder.cpp util/y.h util/legendre.h',
  [('owning members', 'solver classes'), ('Eigen expressions evaluated before returning', 'Y, T, Sector')])

P('P24', 'The library never writes to standard output',
  'No library function (outside the language bindings) writes to standard output on any path: programs that emit data on stdout are not corrupted. Diagnostics go to the error stream.',
  'inputs', 'every function, every path including rarely taken ones', 'Tests ignore the output of the code under test.',
  'matslise/periodic.cpp matslise/matslise.cpp matslise/sector.cpp matscs/matscs.cpp liouville/liouville.cpp util/sectorbuilder.cpp',
  [('diagnostics via cerr only', 'all library sources')])

P('P06', 'Matching error: both end solutions compared at one common point',
  'The matching error of a scalar problem is the Wronskian l\' r - r\' l of the solution that starts at the left end with the left condition and the one that starts at the right end with the right condition, '
  'both taken at one and the same point of the domain with the same energy and step mode, and its angle is the left accumulated angle minus the right one. The matching error of a periodic problem is the left fundamental pair minus the pair '
  'started at the right end from K times the same data, at one common point. It exists for every energy and condition.',
  'inputs', 'all energies, conditions, K, sector layouts and matching positions',
  'Tests see eigenvalues, which survive a mismatch in sign or point for most symmetric test problems.',
  'matslise/matslise.cpp matslise/periodic.cpp',
  [('Wronskian at the matching point', 'Matslise::matchingError'), ('fundamental pair', 'PeriodicMatslise::matchingError')])

P('P07', 'Derivatives with respect to the energy are the derivatives of the values',
  'Wherever the library returns a value together with its derivative with respect to E - transfer matrices of a scalar or matrix sector, products and inverses of transfer matrices applied to a state, '
  'the scalar and periodic matching error - the derivative part is the exact formal E-derivative of the value part.',
  'inputs', 'all energies, offsets in a sector, potentials (formula coefficients symbolic), states',
  'Newton\'s iteration converges with a wrong derivative too, only slower or to a neighbouring root; tests with tolerances do not see it.',
  'matslise/sector.cpp matscs/sector.cpp util/y.h matslise/matslise.cpp matslise/periodic.cpp',
  [('eta derivative identity', 'calculateT'), ('product rule', 'T::operator*, operator/'), ('matching errors', 'matchingError')])

P('P19', 'Eigenfunctions evaluate consistently: arrays, single points, every sector',
  'Evaluating a returned eigenfunction at an array of points gives row by row what evaluating it at each point gives; a half-range eigenfunction may refuse (throw on) an array that is not sorted, but not answer it wrongly, and never refuses a sorted one. A full-range eigenfunction takes at each point the value propagated from the stored '
  'state at the matching side of a sector that contains the point, and zero outside the domain. Evaluation never reads outside the sectors and never fails.',
  'inputs', 'all points and arrays of points: unsorted, repeated, on sector boundaries, outside the domain, of every sign',
  'Tests evaluate sorted interior grids; backwards jumps, boundary hits, empty sign parts and points outside are not sampled.',
  'matslise/matslise.cpp matslise/halfrange.cpp liouville/sturm_liouville.cpp',
  [('sector cursor', 'array evaluation of MEigenfunction'), ('split at zero', 'EigenfunctionHalf'), ('Liouville transform per point', 'SLEigenfunction')])

P('P05', 'Bracketing keeps every requested eigenvalue and respects the range',
  'The search for eigenvalues of a scalar problem by index or by energy range starts from an interval that contains every requested crossing of the matching angle, and one step of it - splitting, discarding or turning an interval into a result - '
  'never loses a requested crossing (an energy interval with index j between the angle counts of its ends), never keeps one twice, never returns a result from an interval without a requested crossing and never turns an interval with several crossings into one result, however narrow; '
  'each result carries the index of its crossing; an eigenvalue hit exactly by an end point counts once.',
  'inputs', 'all angle functions, energy and index ranges, conditions; every state of the work list',
  'Tests ask for ranges whose ends and bisection points never hit an eigenvalue and whose spectra are well separated.',
  'matslise/matslise.cpp', [('work list of intervals', 'eigenvaluesByIndex, eigenvalues'), ('splitting and discarding', 'computeEigenvaluesHelper')])

P('P13', 'The half-range solver is the even/odd reduction of the symmetric problem',
  'A half-range problem on [-xmax, xmax] solves the given potential on [0, xmax] with the same tolerance, with value 0 (odd) or derivative 0 (even) at zero: index i uses the even condition exactly when i is even; without an index the parity with the smaller matching error is taken. '
  'The eigenfunction of an even index is an even function and that of an odd index an odd function - derivatives accordingly - scaled by 1/sqrt(2) from the half-range one; the error estimate uses the same parity.',
  'inputs', 'all indices (or none), energies, conditions, evaluation points left of, right of and at zero',
  'Tests check eigenvalues and a few positive points; signs at negative points, of derivatives and of odd functions are not sampled.',
  'matslise.h matslise/halfrange.cpp', [('parity choice', 'getEven, is_even'), ('reflection', 'EigenfunctionHalf')])

P('P27', 'Eigenfunctions are continuous, normalised solutions across the matching point',
  'The full-range eigenfunction computed at an eigenvalue is one nonzero multiple of the solution that starts from the left condition left of the matching point and of the solution that starts from the right condition right of it, with the factors chosen such that value and derivative agree at the '
  'matching point, and its squared norm - the energy derivative of the matching error of exactly these chains - is one. The state stored at every sector boundary lies on these chains.',
  'inputs', 'all energies, conditions, sector layouts and matching positions, including end solutions that vanish at the matching point',
  'Tests compare with tolerances at interior points of a few smooth problems; solutions with a zero at the matching point are not sampled.',
  'matslise/matslise.cpp', [('scaling of both chains', 'Matslise::eigenfunction')])

P('P08', 'Eigenvalue lists are complete and ascending; bad index ranges get no answer',
  'Whatever order the search of a scalar problem finds its results in, the list returned by eigenvalues and eigenvaluesByIndex is ascending and contains every result found, each with its own index. '
  'An index range with a negative lower end or with its ends reversed is never answered with a list.',
  'inputs schedules', 'all orders in which the work list can produce results, all index and energy ranges',
  'The breadth-first search happens to find the eigenvalues of the test problems in nearly ascending order; invalid ranges are not tested.',
  'matslise/matslise.cpp', [('sort before returning', 'computeEigenvaluesHelper'), ('range check', 'computeEigenvaluesHelper')])

P('P28', 'Wide number types keep their precision through every computation',
  'In the long double and quad precision builds no computed value ever passes through a narrower floating-point type on its way to a result: every constant of the methods that is not an exactly representable or short decimal '
  '(quadrature nodes and weights, pi, quotients) is given and computed in the wide type. The only narrow arithmetic is in choosing automatic sector widths, and the sector boundaries themselves are wide.',
  'inputs configurations', 'all number types the library is instantiated for, every function, all inputs',
  'Tests of the wide builds compare with references of double accuracy, and the default build has no wide type at all.',
  'matslise/matslise.cpp', [('wide instantiations', 'newtonIteration'), ('wide constants', 'constants')])

P('P14', 'Half-range eigenvalue lists interleave even and odd with exact indices',
  'For a half-range problem the eigenvalues of index range [Imin,Imax) are exactly those indices in ascending order, index i being eigenvalue i/2 of the half-range problem of its parity with the condition asked for at xmax; '
  'the eigenvalues of an energy range are those of both parities in that same range, in index order - also where an even and an odd eigenvalue agree up to rounding. Every valid range (also empty or odd ends) is accepted, every negative or reversed one rejected.',
  'inputs', 'all index ranges, energy ranges, conditions and spectra',
  'Tests ask for the first ten or a hundred from an even start; odd ends, empty and reversed ranges are not sampled.',
  'matslise/halfrange.cpp', [('translation of ranges', 'MatsliseHalf::eigenvaluesByIndex'), ('merge of both lists', 'mergeEigenvalues')])

P('P17', 'The Liouville transformation is a transformation with exact inverse',
  'The pieces of a Liouville transformation tile the whole domain in r and in x, each piece mapping r to x by the integral of sqrt(w/p); a point is looked up in a piece that contains it, in both directions, and x -> r inverts r -> x. '
  'Solutions and their derivatives are transformed with the factor (p w)^(-1/4) at the point itself: transforming back what was transformed gives the same value, derivative and energy derivatives. '
  'The transformed potential at x is q/w + m\'\'/m with m = (p w)^(1/4), taken at the r that corresponds to x.',
  'inputs', 'all coefficient functions, domains, numbers of pieces, points (also break points and both ends) and states',
  'The tests compare one transformation at sampled points with closed forms to 1e-8; pieces met only by other coefficients, break points and energy derivatives are not compared.',
  'liouville/liouville.cpp liouville.h',
  [('pieces', 'constructPiecewise, Piece::Piece, setXMin'), ('lookup', 'findPiece, r2x, x2r'), ('boundary data', 'z2y, y2z'), ('potential', 'V')])

P('P18', 'Sturm-Liouville queries are those of the transformed problem',
  'A Sturm-Liouville problem -(p y\')\' + q y = E w y answers every query with the Schroedinger problem of its Liouville transformation: posed with the transformed potential, on the whole transformed domain and with the tolerance asked for; '
  'index ranges and energies are passed on unchanged, the left condition is transformed at the left end of the domain and the right condition at the right end; indices and eigenvalues are returned unchanged and each '
  'eigenfunction is the transformed eigenfunction of the same result, evaluated at the transformed point and transformed back there.',
  'inputs', 'all coefficient functions, domains, tolerances, index ranges, energies, boundary conditions, result lists and evaluation points',
  'The tests use two problems, with the same kind of condition at both ends and a handful of points.',
  'liouville.h liouville/sturm_liouville.cpp',
  [('forwarded queries', 'SturmLiouville::eigenvaluesByIndex, eigenpairsByIndex, eigenvalueError'), ('transformed eigenfunctions', 'SLEigenfunction')])

P('P10', 'One step solves the sampled equation exactly to the order of the method',
  'The propagation matrix of one sector holds, for the potential given by its Legendre coefficients, the two fundamental solutions of y\'\' = (V - E) y and their derivatives, and the derivatives of all four with respect to E: '
  'every power-series coefficient through the order of the method is exact, at inner points and at the far end of the sector, for scalar and for coupled equations (where coefficient matrices do not commute). A step of length zero is the identity, '
  'and the error estimate of a sector compares the formula of the whole step with the one for inner points.',
  'inputs', 'all Legendre coefficients, energies, sector lengths and inner points',
  'The tables have thousands of entries, generated once; a wrong entry for a high coefficient changes eigenvalues of smooth test problems by less than the tolerance of the tests, or only costs sectors.',
  'matslise/matslise_formulas.cpp matslise/sector.cpp matscs/matscs_formulas.cpp matscs/sector.cpp',
  [('coefficient tables', 'calculate_tcoeff_matrix'), ('assembly with the eta functions', 'Sector::calculateT')])

P('P12', 'The eta functions are their definition for every argument',
  'calculateEta returns eta_0 .. eta_{n-1} of its argument Z: eta_0 = cosh sqrt Z (cos sqrt -Z for negative Z), eta_1 = sinh sqrt Z / sqrt Z, eta_{i+1} = (eta_{i-1} - (2i-1) eta_i) / Z, continued analytically through Z = 0, '
  'with a truncation error below 1e-15 of the value at 0, through all its regimes; closed forms that cancel are not used near 0. The array version evaluates each argument on its own.',
  'inputs', 'all real Z', 'No test calls calculateEta; the regimes away from Z = 0 (long steps, high energies, tall barriers) are met only by few test problems.',
  'util/calculateEta.h', [('series and recursion', 'calculateEta')])

P('P26', 'A sector describes its potential in its current direction',
  'After construction and after every sequence of direction changes a sector has the ends it was built for, the Legendre coefficients of the potential on it - sign of the odd ones reversed exactly when the sector is '
  'traversed backward, in the basis of eigenvectors for coupled systems - and coefficient tables computed from exactly these.',
  'inputs histories', 'all potentials, sector ends, start directions and sequences of direction changes',
  'Directions are changed twice only when the matching sector moves during automatic construction; tests never look at a sector.',
  'matslise/sector.cpp matscs/sector.cpp', [('direction change', 'Sector::setDirection'), ('construction', 'Sector::Sector')])

P('P11', 'Legendre coefficients and the polynomial built from them are exact',
  'The coefficients that represent a function on an interval are linear in its values at points inside the interval, exact (to rounding of the scalar type) for every polynomial that the Gauss-Legendre rule of their number of points can '
  'integrate, and scale with the length of the interval as the step formulas expect; the polynomial of the coefficients is their sum with the shifted Legendre polynomials. Asking again gives the same. This holds for all table sizes '
  'and for double, long double and float128.',
  'inputs', 'all integrands, intervals, numbers of coefficients, scalar types',
  'Tests compare sin and cos to 1e-8; a wrong high digit of a table, a wrong weight of a high coefficient or a table of a wider type with double literals passes them.',
  'util/legendre.h util/legendre_data.h', [('quadrature', 'Legendre::getCoefficients'), ('polynomial', 'Legendre::asPolynomial'), ('tables', 'nodes, weights, polynomials')])

P('P25', 'Polynomial arithmetic is that of polynomials',
  'Sums, differences, products, scalar multiples, derivatives of every order (as polynomial and at a point), antiderivative, evaluation, widening and comparison of the polynomials that represent transformations are those of polynomials, '
  'for every degree, and leave their operands unchanged.',
  'inputs', 'all coefficients, arguments and degrees of the operands',
  'Tests use one polynomial with integer coefficients; operators with operands of unlike degree, higher derivatives at a point and the integral at a point are not covered.',
  'util/polynomial.h util/horner.h', [('operators', 'Polynomial::operator+= etc.'), ('calculus', 'derivative, integral')])

P('P20', 'Eigenpairs are the eigenvalues with eigenfunctions; periodic lists exact',
  'For the scalar solvers the list of eigenpairs for an index range is the list of eigenvalues for that range, each with the eigenfunction of its own energy, conditions and index. A periodic solver lists the eigenpairs and the eigenvalues of '
  'the same query with the same indices, energies and multiplicities, one eigenfunction per multiplicity; indices increase and no index appears twice when multiplicities are counted; index 0 is single for a periodic condition, and only the '
  'pairs (1,2), (3,4), ... (antiperiodic: (0,1), (2,3), ...) can be double; every index of the requested range is listed (a double eigenvalue that reaches into the range under its lower index), none outside; an energy query '
  'lists exactly the eigenvalues with emin <= E < emax.',
  'inputs', 'all potentials, coupling matrices, energy intervals and index ranges, every pattern of single and double eigenvalues',
  'Tests query a handful of ranges that start at 0 for a few potentials; ranges that cut a double eigenvalue, antiperiodic and coupled conditions in every position are not sampled.',
  'matslise/periodic.cpp matslise/abstract_matslise.cpp', [('list building', 'eigenpairsHelper, addToResult'), ('index range of an energy interval', 'eigenpairsHelper(eMin, eMax)'), ('generic eigenpairs', 'AbstractMatslise::eigenpairsByIndex')])

P('P23', 'Periodic eigenfunctions satisfy the quasi-periodic condition',
  'Every eigenfunction returned by a periodic solver is the solution whose data at the right end is K times its data at the left end; for a simple eigenvalue this data is the kernel vector of the matching error at that same energy (the eigenvector '
  'of its smallest eigenvalue), for a double one the two eigenfunctions are independent. Asked for the eigenfunctions at an energy, the solver returns one per eigenvalue of the matching error that vanishes, never the same one twice. The matching error '
  'is the difference at a common point of the solutions started at the left end with independent data and at the right end with K times that data.',
  'inputs', 'all potentials, coupling matrices K and energies',
  'Tests look at K = 1 and -1, where K, its transpose and its inverse agree, and at potentials whose kernel vector is a coordinate vector.',
  'matslise/periodic.cpp', [('start data', 'periodicInitialValue'), ('kernel of the matching error', 'PeriodicMatslise::eigenfunction, addToResult')])

P('P04', 'Sectors tile the domain, break at every jump and meet at the matching point',
  'A constructed problem splits its domain into sectors of positive length that start at the left end of the domain, each begin exactly where the one before ends, and end at the right end; a uniform sector builder gives the requested number. '
  'With the automatic builder every given jump strictly inside the domain is a boundary between two sectors, also when jumps are repeated, lie next to each other or outside the domain, and each sector keeps to the tolerance while refinement steps are left. '
  'Sectors up to and including the one at the matching index are built forward, those after it backward, and the matching index refers to an existing sector. The problem keeps those sectors, their number and the matching index of the builder it was given '
  '(by default an automatic builder with its tolerance), and all its sectors scale angles by the potential value of the matching sector.',
  'inputs', 'all domains, jump lists, sector counts, potentials (every outcome of the sector comparisons and error estimates)',
  'Tests build a few problems without jumps or with one jump in the middle; which sectors are made next depends on the potential.',
  'matslise/util/sectorbuilder.cpp matslise/matslise.h matslise/matscs.h', [('builders', 'UniformSectorBuilder, AutomaticSectorBuilder, automaticNextSector'), ('construction', 'Matslise, Matscs constructors')])

P('P29', 'The angle of a propagated solution counts its half turns correctly',
  'The angle that propagation reports is continuous along the solution: over every piece of a sector it changes from the angle of the state at one end to the angle of the state at the other end (tan(theta) is value over derivative, on one scale common to all '
  'sectors: the square root of the energy above the potential of the matching sector where that exceeds 1, else 1), with the right number of half turns. Multiples of pi, the zeros of the solution, are passed upwards only; where the solution cannot oscillate at most one '
  'is passed; where it oscillates the end angle is the one nearest to uniform rotation at the frequency of the sector. Vanishing values or derivatives and overall signs do not matter, each column of a pair of solutions has its own angle, and the start angle lies within a quarter turn of zero.',
  'inputs', 'all energies, states, sectors and step lengths',
  'The angle is piecewise affine with a dozen cases at thresholds of pi/2 and sign changes; tests compare the eigenvalue indices of some potentials, which never look inside a sector.',
  'matslise/sector.cpp util/theta.h', [('angle advance', 'Sector::prufer, pruferHelper'), ('start angle', 'Sector::theta0'), ('common scale', 'rescale')])

P('P30', 'Periodic eigenvalue searches find exactly the eigenvalues asked for',
  'For every potential and every coupling matrix K of determinant one, PeriodicMatslise::eigenvaluesByIndex and eigenvalues find exactly the eigenvalues of the requested index range or energy interval, each with its own index and multiplicity, whatever '
  'the arrangement of the spectrum: instability intervals open or closed (a double eigenvalue), wherever in them the angles of the start columns match and wherever the mismatch has its extrema, and whether the interval starts below the first eigenvalue, '
  'inside a band or a gap. Two eigenvalues further apart than the tolerance are never merged, a double one is never split or lost, an energy that is no eigenvalue is never listed. The index counts from the first eigenvalue for every K: '
  'the start data at the right end are K times those at the left end, independent, and K (-K if antiperiodic) does not change the sign of the value of either column.',
  'inputs', 'all arrangements of band edges, matches and extrema, all coupling matrices, index ranges and energy intervals',
  'Tests use a few symmetric potentials from energies below the spectrum; the search relied on where the extremum of the discriminant falls, on the interval starting below the first eigenvalue, and on K01 being small.',
  'matslise/periodic.cpp', [('pair search', 'eigenvaluePair'), ('brackets', 'eigenpairsHelper'), ('index range', 'eigenpairsByIndexHelper'), ('start data', 'periodicInitialValue, matchingError')])

P('P31', 'The angle of coupled systems follows det Theta up to full turns',
  'For every coupled system, energy and state, the angle returned by Matscs::propagate is, up to full turns, the change of the argument of det Theta between the two positions, where Theta = (Y\' + iY)(Y\' - iY)^-1 of the state; '
  'forward and backward, whether the reference components oscillate, grow or are flat. Steps inside a sector go between its anchor and the end points, and their angles are added.',
  'inputs', 'all energies, states, reference potentials, step lengths and directions',
  'No test looks at the angle; it is the quantity from which eigenvalues of coupled systems are counted.',
  'matslise/matscs/sector.cpp matslise/matscs/matscs.cpp', [('angle of a step', 'Matscs::Sector::propagateDelta'), ('unitary matrix', 'Matscs::Sector::theta'), ('sum over steps', 'Matscs::Sector::propagate, Matscs::propagate')])

P('P32', 'The Python bindings pass every argument where it belongs',
  'Every function of the Python module (pyslise) calls the library method it is named after, with each argument in its documented place: energies or indices, left and right boundary conditions in that order (right defaulting to left), positions, index, initial values and derivatives; '
  'the answer comes back unchanged; parameter names, order and defaults are those documented. Constructors pass potential, domain, tolerance, number of steps, K and the jumps that lie inside the domain (sorted) on, and reject contradictory arguments (a K whose determinant is not 1, both or neither of steps and tolerance). '
  'An eigenfunction handed to Python evaluates the function the library returned and keeps its solver alive.',
  'inputs', 'all arguments of every bound function',
  'The C++ tests never touch the bindings, and the Python tests need a built wheel and sample a few problems.',
  'matslise/pyslise/pyslise.cpp matslise/pyslise/sturm_liouville.cpp matslise/pyslise/pyscs.cpp matslise/pyslise/module.h', [('bound functions', 'pyslise, pyslise_sturm_liouville, pyscs'), ('ownership', 'EigenfunctionWrapper, wrapEigenfunction')])

P('P33', 'The JavaScript bindings pass every argument where it belongs',
  'Every function of the JavaScript module (matslise/js) calls the library method it is named after, with each argument in its documented place (indices or energy, left and right boundary conditions in that order, index, positions), and hands the answer back in the documented shape: lists of {index, eigenvalue[, eigenfunction]}, values [y, y\'] of an eigenfunction at a number or at each number of an array, {y, theta} after a propagation, the points between the sectors. '
  'Constructors pass each function, the domain and the tolerance on; the value objects expose the members they are named after.',
  'inputs', 'all arguments of every bound function',
  'The bindings are only compiled with emscripten; no C++ test touches them.',
  'matslise/js/matslise.cpp matslise/js/sturm_liouville.cpp matslise/js/module.cpp matslise/js/module.h', [('bound functions', 'bind_matslise, bind_sturm_lioville'), ('conversions', 'wrapEigenfunction, toValArray, val2function, val2ArrayXd, ArrayXd2val, ArrayX2d2val')])

P('P34', 'Problems are set up from their arguments; error and minimum estimates exact',
  'Every constructor of Matslise, MatsliseHalf, PeriodicMatslise and Matscs uses the domain, tolerance, sector builder and K it is given (without a builder: an automatic one with the tolerance given and no jumps), keeps the sectors and matching index that were built, and gives every sector the reference value of the matching sector. '
  'Matslise::eigenvalueError is the distance between the energy given and the eigenvalue of the method without perturbation corrections, for the same boundary conditions. estimatePotentialMinimum is the smallest of the sector averages of the potential.',
  'inputs', 'all domains, tolerances, builders, energies, boundary conditions; all sectors',
  'Tests construct problems in one or two ways and never compare these estimates with their definition.',
  'matslise/matslise.h matslise/matscs.h matslise/matslise/matslise.cpp matslise/matslise/halfrange.cpp', [('constructors', 'Matslise, MatsliseHalf, PeriodicMatslise, Matscs'), ('estimates', 'Matslise::eigenvalueError, estimatePotentialMinimum')])

# ---------------------------------------------------------------- not decidable statically
P('P90', 'Computed eigenvalues are accurate to the requested tolerance',
  'Every returned eigenvalue is within a modest multiple of the requested tolerance of an exact eigenvalue of the problem.',
  'inputs', 'all smooth potentials, domains, boundary conditions, tolerances', 'tests compare some dozen published problems',
  'matslise/matslise.cpp matslise/sector.cpp', [('error-controlled sectors', 'Sector::error, automaticNextSector')])
P('P91', 'The refinement of bracketed eigenvalues converges to the bracketed one',
  'Newton iteration and angle evaluation started from an isolating interval return the eigenvalue of that interval, so that the returned list contains every eigenvalue of the requested range exactly once.',
  'inputs', 'all potentials, ranges, boundary conditions', 'tests cover a dozen spectra',
  'matslise/matslise.cpp matslise/periodic.cpp', [('Pruefer-angle bracketing', 'computeEigenvaluesHelper')])
P('P92', 'Eigenvalue searches and sector refinement terminate',
  'Construction and every eigenvalue search terminate for every continuous potential and finite range.',
  'inputs', 'all potentials, ranges', 'tests run finitely many problems',
  'matslise/matslise.cpp util/sectorbuilder.cpp liouville/liouville.cpp matslise/periodic.cpp', [('bracketing loops', 'eigenvaluesByIndex')])

L.sort(key=lambda p: p['id'])
open(R + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in L))
print(len(L), 'properties')
