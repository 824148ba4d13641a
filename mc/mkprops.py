"""python -m mc.mkprops: regenerate properties.jsonl and MANIFEST.json from the table below"""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'psdr/domains/'
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations'), observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('D01', 'A domain contains exactly the points that satisfy its constraints',
     'For every domain (box, linear inequality/equality, quadratic, convex hull, point, unbounded, truncated normal, '
     'log-normal, tensor product, restricted or empty) isinside answers True for a point that satisfies every constraint the '
     'user gave and False for a point that violates one by more than the tolerance. The answer has one entry per point, '
     'does not depend on whether a point is asked alone, as a list or inside a batch, or on the batch order, and is False for points of the wrong dimension. '
     'The bounds and the linear and quadratic constraint arrays such a domain reports describe that same set.',
     'every combination of constraint types, every spelling of the constructor arguments and every query point',
     'Tests probe a few random points of a few domains; a dropped constraint, a wrong sign on one face or a batch-shape error needs the right constraint combination and the right face.',
     [D + 'box.py', D + 'linineq.py', D + 'linquad.py', D + 'convexhull.py', D + 'point.py', D + 'normal.py', D + 'lognormal.py', D + 'tensor.py', D + 'unbounded.py', D + 'euclidean.py'],
     [('isinside / _isinside', D + '*.py'), ('_isinside_bounds, _isinside_ineq, _isinside_eq, _isinside_quad', D + 'euclidean.py')])
prop('D02', 'corner returns the point of the domain furthest in a direction',
     'For every domain and every direction, corner returns a point of the domain that maximizes the inner product with the direction over the whole domain. '
     'It reports the domain empty exactly when no point satisfies the constraints, and unbounded when the maximum is infinite; the scale of the direction, its type and previous calls do not change the answer.',
     'every domain, every direction, every previous query',
     'Tests compare a few random directions for a few domains; optimality needs an independent oracle and the infinite/empty cases need specific constraint combinations.',
     [D + 'euclidean.py', D + 'box.py', D + 'point.py', D + 'convexhull.py', D + 'linquad.py', D + 'tensor.py'],
     [('corner', D + 'euclidean.py'), ('_corner', D + '*.py'), ('_build_constraints_norm', D + '*.py')])
prop('D03', 'Closest point and constrained least squares find the true constrained minimum',
     'closest_point returns a point of the domain that minimizes the (optionally weighted) distance to the query, and returns members of the domain unchanged; '
     'constrained_least_squares returns a point of the domain that minimizes the residual norm. Empty domains are reported as empty and arguments are not modified.',
     'every domain, query point, weighting matrix and least-squares system',
     'Optimality over a constrained set cannot be read off an example: a shifted objective or a dropped constraint still returns plausible members of the domain.',
     [D + 'euclidean.py', D + 'box.py', D + 'linineq.py', D + 'linquad.py', D + 'convexhull.py'],
     [('closest_point', D + 'euclidean.py'), ('constrained_least_squares', D + 'euclidean.py'), ('_closest_point', D + '*.py')])
prop('D04', 'extent is the exact distance to the boundary along a direction',
     'For a point of the domain and a direction, extent returns the largest step that stays inside: every point up to that step belongs to the domain and any longer step leaves it (infinite only if the ray never leaves, zero if the ray leaves at once or is not permitted by an equality constraint). '
     'A point outside the domain is rejected.',
     'every domain, every point in it including faces, edges and vertices, every direction including tangents to faces',
     'Tests use random interior points and random directions, which meet ties, faces and equality constraints with probability zero.',
     [D + 'euclidean.py', D + 'box.py', D + 'linineq.py', D + 'linquad.py', D + 'convexhull.py', D + 'point.py', D + 'tensor.py'],
     [('extent', D + 'euclidean.py'), ('_extent_bounds, _extent_ineq, _extent_quad', D + 'euclidean.py'), ('_extent', D + '*.py')])
prop('D05', 'Normalization is an exact affine change of variables',
     'normalize and unnormalize are mutually inverse, act on single points and batches alike and accept domains with zero-width or infinite sides; the reported bounds map to -1 and 1 where they are finite and distinct. '
     'The normalized domain contains exactly the images of the points of the domain, and its corners and closest points are the images of those of the domain.',
     'every domain and every point',
     'A missing rescale of one constraint type (center, radius, equality row) shows only for domains with that constraint and bounds that are not already normalized.',
     [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'convexhull.py', D + 'tensor.py', D + 'normal.py', D + 'box.py'],
     [('normalize/unnormalize', D + 'euclidean.py'), ('normalized_domain', D + '*.py')])
prop('D06', 'Set algebra on domains means intersection and product of the sets',
     'Adding constraints or intersecting two domains gives the domain of exactly the points satisfying both descriptions, and a product of domains gives exactly the concatenations of their points, in order, with the names of the factors. '
     'Operand order does not change the resulting set, names are kept, and the operands themselves are unchanged.',
     'every pair and triple of domains of equal dimension (intersection) or of any dimension (product), every kind of added constraint',
     'Tests intersect two or three hand-picked pairs; dropping one constraint type of one operand is invisible unless that pair is tried.',
     [D + 'euclidean.py', D + 'linquad.py', D + 'linineq.py', D + 'tensor.py', D + 'convexhull.py', D + 'unbounded.py', D + 'box.py'],
     [('add_constraints / __and__ / __mul__', D + '*.py'), ('names', D + 'euclidean.py')])
prop('D07', 'Answers of a domain do not depend on what was asked before',
     'Any sequence of queries (emptiness, pointness, boundedness, corners, closest points, samples, sweeps, intersections, copies) leaves a domain answering every later query exactly as a freshly built copy would, and emptiness, pointness and boundedness are answered correctly in every order. '
     'Arrays passed in or handed out are not modified afterwards by the domain.',
     'every sequence of queries up to a bounded depth on every kind of domain',
     'Cached flags are written by unrelated methods; tests query fresh objects in one order.',
     [D + 'euclidean.py', D + 'box.py', D + 'linineq.py', D + 'linquad.py', D + 'convexhull.py', D + 'tensor.py', D + 'normal.py'],
     [('is_empty / is_point / is_unbounded caches', D + 'euclidean.py'), ('_hit_and_run state', D + 'euclidean.py')], over=('histories', 'configurations'),
     state=[('_empty, _point, _unbounded', 'memoised classification of the domain', D + 'euclidean.py'), ('_hit_and_run_state', 'walker position', D + 'euclidean.py')])
prop('D08', 'Every sampling routine stays inside the domain',
     'Random samples, hit-and-run steps, parameter sweeps, grid samples and boundary samples return the requested number of points with the right shape, all of them in the domain (boundary samples on its boundary), for every possible outcome of the random number generator. '
     'Sweeps run in order along a line through the given point, grid samples contain exactly the tensor grid points of the bounds inside the domain, and arguments are not modified.',
     'every domain, every sample size, every outcome of each random draw up to the deviation bound',
     'Random tests see typical draws; the extreme draws (0, almost 1, axis-aligned directions, repeated values) have probability near zero.',
     [D + 'euclidean.py', D + 'box.py', D + 'point.py', D + 'convexhull.py', D + 'tensor.py', D + 'normal.py', D + 'lognormal.py', 'psdr/sample/random_sample.py'],
     [('sample/_sample/_hit_and_run/sweep/sample_grid/sample_boundary/random_direction', D + 'euclidean.py')], over=('fault_sequences', 'inputs', 'configurations'))
prop('D09', 'Random domains report a genuine probability density on their support',
     'The density of a uniform, (truncated) normal or log-normal domain is nonnegative, zero outside the support, integrates to one over it and is the density of the stated distribution; batches and single points agree. '
     'The support of a truncated domain holds exactly the stated probability and its samples are never outside.',
     'every mean, covariance, offset, scaling, truncation and every point',
     'Tests check one or two parameter settings where normalization constants happen to be one.',
     [D + 'normal.py', D + 'lognormal.py', D + 'random.py', D + 'uniform.py', D + 'tensor.py'],
     [('pdf / _pdf', D + 'random.py'), ('truncation', D + 'normal.py')])
prop('D10', 'Quadrature rules integrate over the domain',
     'The quadrature rule of a bounded domain has all nodes in the domain, at most the requested number of nodes and, on boxes, integrates polynomials exactly up to the degree of its Gauss rule, with weights summing to the volume. '
     'Monte-Carlo quadrature nodes lie in the domain with equal weights, and one-dimensional Gauss rules are exact on any interval for polynomials of degree 2n-1.',
     'every interval, every degree, every bounded domain and node budget',
     'Exactness must hold for each degree and each anisotropic box; tests check one integrand.',
     ['psdr/quadrature.py', D + 'euclidean.py'], [('gauss', 'psdr/quadrature.py'), ('quadrature_rule', D + 'euclidean.py')])
prop('D11', 'Convex hull domains represent exactly the hull of their points',
     'Coefficients returned for a point of a convex hull are a convex combination of the vertices reproducing the point, reported vertices generate the same hull, and conversion to linear inequalities gives the same set including any extra constraints. '
     'Points outside the hull are reported as outside by both representations.',
     'every small point set including degenerate, repeated and one-dimensional ones, every query point',
     'Degenerate and restricted hulls take different code paths that no test combines.',
     [D + 'convexhull.py'], [('coefficients / to_linineq', D + 'convexhull.py')])
prop('D12', 'The Chebyshev center is the center of a largest inscribed ball',
     'For a bounded domain described by linear inequalities, equalities and bounds, the Chebyshev center lies in the domain and the ball of the reported radius about it satisfies all inequality constraints and bounds; no point of the domain has a larger such ball. '
     'Empty domains, and domains where the radius is not limited, are reported; answers do not depend on scaled rows or previous queries.',
     'every polyhedral domain of the alphabet',
     'Optimality of an inscribed ball requires an independent enumeration of touching faces.',
     [D + 'linineq.py', D + 'box.py', D + 'euclidean.py'], [('chebyshev_center', D + 'linineq.py')])
prop('G01', 'Voronoi vertices and fill distances are exact',
     'The bounded Voronoi vertices reported for a point set are exactly the points of the domain that are equidistant from enough nearest sites for the number of active constraints, and the fill distance is the largest distance from any point of the domain to the set. '
     'Fill distance estimates never exceed the true value and Voronoi-vertex sampling returns points in the domain that are local maximizers of the distance.',
     'every small point set in every small polyhedron, every weighting matrix',
     'Tests only check a necessary condition on random sets; missing vertices on faces and edges go unnoticed.',
     ['psdr/geometry/vertex.py', 'psdr/geometry/fill.py'], [('voronoi_vertex, voronoi_vertex_sample', 'psdr/geometry/vertex.py'), ('fill_distance, fill_distance_estimate', 'psdr/geometry/fill.py')])
prop('G02', 'Geometric helpers agree with their definitions',
     'Weighted pairwise distances equal the definition for every weighting matrix; unique points returns a subset covering every input exactly once within the tolerance; a low-rank factor reproduces the same inner product; simplex samples are nonnegative and sum to one. '
     'The minimum enclosing ball contains all points and no smaller ball does.',
     'every small point set, every weighting matrix, every random outcome',
     'The helpers are used by all designs, but tests cover them through one random configuration.',
     ['psdr/geometry/cdist.py', 'psdr/geometry/geometry.py', 'psdr/geometry/miniball.py'], [('cdist', 'psdr/geometry/cdist.py'), ('unique_points, sample_simplex, low_rank_L', 'psdr/geometry/geometry.py')])
prop('S01', 'Latin hypercube designs occupy every stratum exactly once',
     'Every Latin hypercube sampler returns the requested number of points in the box, and in each coordinate every one of the equal-width strata holds exactly one point, for every outcome of the random generator. '
     'The variants that optimize a criterion return a design at least as good as each of the candidates they examined.',
     'every box, dimension, sample size and every outcome of each random draw',
     'Stratification must hold for all permutations and all in-cell offsets, including the extreme ones.',
     ['psdr/sample/latin.py'], [('latin_hypercube_random, _maximin, latin_hypercube_design', 'psdr/sample/latin.py')], over=('fault_sequences', 'inputs', 'configurations'))
prop('S02', 'Sobol samples are the Sobol sequence restricted to the domain',
     'Requesting n Sobol samples on a bounded domain returns exactly the first n points of the Sobol sequence, scaled to the normalization bounds of the domain, that lie in the domain: in order, none skipped or repeated, all inside. '
     'A longer request therefore extends a shorter one, and repeated requests on the same or an equal domain agree.',
     'every bounded full-dimensional domain, every request size and order of requests',
     'Only one request on one box is tested; continuing the sequence across rejection rounds (skip, left-over points) only shows for particular sizes and domains.',
     ['psdr/sample/sobol.py'], [('sobol_sequence', 'psdr/sample/sobol.py')], over=('histories', 'configurations'))
prop('S03', 'Space-filling designs are feasible and deliver their criterion',
     'Every design routine (maximin, coffeehouse, sequential maximin, minimax, covering, Lloyd, Poisson disk, stretch, projection based, initial samples) returns the number of points it promises, all of them in the domain, with the separation or covering it promises, and never worse than the design it started from: coffeehouse points are farthest from the previous ones when the full Voronoi diagram is used, maximin and Lloyd iterations and scaling never lose separation or covering radius, Poisson disks keep their distance, discrete coverings are smallest, one-dimensional designs are equally spaced and projection designs have one point per cell. '
     'Inputs such as starting points are not modified.',
     'every small domain, sample size, weighting matrix and every random outcome up to the deviation bound',
     'Separation and covering guarantees must hold for each outcome of the random draws and each domain shape.',
     ['psdr/sample/maximin.py', 'psdr/sample/maximin_coffeehouse.py', 'psdr/sample/seqmaximin.py', 'psdr/sample/minimax.py', 'psdr/sample/minimax_lloyd.py', 'psdr/sample/minimax_scale.py', 'psdr/sample/poisson.py', 'psdr/sample/stretch.py', 'psdr/sample/projection.py', 'psdr/sample/initial.py'],
     [('design routines', 'psdr/sample/*.py')], over=('fault_sequences', 'inputs', 'configurations'))
prop('S04', 'Samplers keep samples, values and requests consistent',
     'For every history of draws with the sequential maximin sampler, including draws of zero points, starting data with or without values, functions that raise in the middle of a draw and callers that overwrite the arrays they passed in or were handed, the sampler stores each drawn point once, in order, next to the value the function returned for that very point, and the total equals what was requested. '
     'Points already drawn are not changed by later draws, new points lie in the domain apart from the earlier ones, and after a failed draw the sampler is as before it.',
     'every sequence of draws, failures and mutations up to the depth bound, for every function spelling, starting data and metric',
     'Tests draw once; a history with a failure or given samples is never formed.',
     ['psdr/sample/sample.py', 'psdr/sample/seqmaximin.py'], [('Sampler, SequentialMaximinSampler', 'psdr/sample/sample.py')], over=('histories', 'fault_sequences'))
prop('P01', 'Polynomial bases evaluate the polynomials and derivatives they name',
     'For every basis (monomial, Legendre, Chebyshev, Laguerre, Hermite, Arnoldi) the columns span exactly the polynomials of that total degree, products with coefficients agree with the matrix, and first and second derivatives are the derivatives of the evaluated functions for any scaling of the inputs. '
     'Index sets contain exactly the admissible multi-indices once each, and roots returned are zeros of the polynomial.',
     'every basis type, dimension, degree, input scaling and evaluation point',
     'Tests check random points of some pairs; a scale factor lost in one derivative of one basis shows for one combination.',
     ['psdr/basis.py', 'psdr/vandermonde.py'], [('V, VC, DV, DDV, roots', 'psdr/basis.py'), ('Arnoldi iteration', 'psdr/vandermonde.py')])
prop('P02', 'Polynomial approximations reproduce polynomials and minimize their norm',
     'A polynomial fitted to data of a polynomial of at most its degree reproduces that polynomial, its gradient and its Hessian everywhere; otherwise the fit minimizes the chosen norm of the residual among all polynomials of the degree, respecting one-sided bounds. '
     'A polynomial function evaluates the sum of its coefficients times basis functions, one value per point.',
     'every degree, basis, dimension, norm, bound and small data set',
     'Minimality and exactness are universally quantified over polynomials and evaluation points.',
     ['psdr/poly.py'], [('PolynomialApproximation.fit, eval, grad, hessian', 'psdr/poly.py')])
prop('P03', 'Polynomial ridge approximations are consistent ridge functions that fit',
     'A fitted polynomial ridge approximation has orthonormal subspace, is constant along directions orthogonal to it, has gradients equal to the derivative of its values, recovers exact ridge functions started at the truth, and its fit is never worse than its starting subspace. '
     'The residual and Jacobian used for fitting are the residual of the best polynomial and its derivative.',
     'every degree, subspace dimension, basis, norm and small data set',
     'Jacobians must be right for every configuration; tests check one random instance.',
     ['psdr/polyridge.py', 'psdr/polyridge_vec.py', 'psdr/ridge.py'], [('PolynomialRidgeApproximation', 'psdr/polyridge.py'), ('residual, jacobian', 'psdr/polyridge.py')])
prop('F01', 'Function evaluates the user function once per point in any calling style',
     'For every way of calling a function object (one point, several points, values with gradients, asynchronous, vectorized or not, one or many component functions, with normalized or application coordinates) the value for each point is the value of the user function there, in order, with the documented shapes. '
     'Supplied, returned or finite-difference gradients are those of the wrapped function in the coordinates used, and extra arguments reach the user function.',
     'every combination of wrapper options, number of components, batch sizes and coordinate systems',
     'The option product is large and each option alone is tested in isolation.',
     ['psdr/function.py'], [('Function.__call__, eval, grad', 'psdr/function.py')])
prop('F02', 'Demonstration problems match their published formulas and gradients',
     'Each demonstration function returns, for every point of its domain, the value of its published formula with the same result for single points and batches, and its gradient is the derivative of its value. '
     'Its domain is the published box with named coordinates and normalized and unnormalized use agree.',
     'every demo, every corner and interior lattice point of its domain, every batch',
     'Tests check gradients at a few random points and values not at all.',
     ['psdr/demos/borehole.py', 'psdr/demos/golinski.py', 'psdr/demos/hartmann.py', 'psdr/demos/otl_circuit.py', 'psdr/demos/piston.py', 'psdr/demos/robot_arm.py', 'psdr/demos/wing_weight.py', 'psdr/demos/polynomial.py'],
     [('demo functions', 'psdr/demos/*.py')])
prop('A01', 'The active subspace is the dominant eigenspace of the gradient covariance',
     'Fitting an active subspace yields an orthonormal basis ordered by nonincreasing singular values whose spectral decomposition reproduces the weighted average outer product of the gradients, for every number of gradients and weights. '
     'Sign conventions only flip columns, Lipschitz bounds and coordinates derived from it are consistent with the gradients.',
     'every small gradient set including rank-deficient and sign-symmetric ones, every weight vector',
     'Sign fixing and weights fail only for degenerate symmetric gradient sets.',
     ['psdr/subspace.py', 'psdr/ridge.py'], [('ActiveSubspace.fit, SubspaceBasedDimensionReduction', 'psdr/subspace.py')])
prop('A02', 'A fitted Lipschitz matrix certifies the data and its bounds are sound',
     'After fitting, the weighted distance of every pair of samples bounds their difference in value (up to the allowed noise) and every gradient is bounded by the matrix, no smaller certificate of the same type would do, and the factor reproduces the matrix. '
     'Uncertainty bounds contain every function with that Lipschitz matrix, interpolate the data, and bounds over a domain contain the bounds at each of its points.',
     'every small data set of values and gradients, each kind of Lipschitz certificate, every noise level and query point',
     'Feasibility and minimality of the certificate are universally quantified and refits must not keep stale state.',
     ['psdr/lipschitz.py', 'psdr/lipschitz_partial.py', 'psdr/lipschitz_approx.py', 'psdr/lipschitz_utils.py'], [('LipschitzMatrix, LipschitzConstant, DiagonalLipschitz, PartialLipschitz', 'psdr/lipschitz*.py')], over=('inputs', 'histories', 'configurations'))
prop('A03', 'Local linear models and outer product gradients recover linear functions exactly',
     'Local linear models interpolate affine data exactly for every kernel bandwidth, the outer-product-of-gradients subspace of a ridge function of affine type is the true ridge direction independent of scaling of the inputs, and perplexity bandwidths attain the requested perplexity. '
     'Results do not depend on the order of the samples.',
     'every small data set, bandwidth rule, kernel and standardization option',
     'Exact recovery needs all option combinations; tests check one.',
     ['psdr/opg.py', 'psdr/local_linear.py'], [('OuterProductGradient.fit', 'psdr/opg.py'), ('local_linear, perplexity_bandwidth', 'psdr/local_linear.py')])
prop('O01', 'Optimizers return feasible points that do not increase the objective',
     'Gauss-Newton, sequential linear programming and minimax optimizers return a point satisfying the given constraints whose objective is at most that of the starting point and which is stationary when they report convergence. '
     'Trajectory, step-length and tolerance options change only how the optimum is found, and callers arguments are unchanged.',
     'every small test problem, start, trajectory, norm and option combination',
     'Monotonicity and stationarity are universally quantified; output options change control flow.',
     ['psdr/gn.py', 'psdr/minimax.py', 'psdr/seqlp.py'], [('gauss_newton', 'psdr/gn.py'), ('minimax', 'psdr/minimax.py'), ('sequential_lp', 'psdr/seqlp.py')])
prop('I01', 'Plot tables and contour files contain exactly the data they were given',
     'A table written for plotting parses back to the same columns, in the order added, with the same values row for row, for every sequence of adding columns, writing, overwriting, reading back and changing the caller\'s data afterwards; '
     'columns of inconsistent length are rejected. Contour files list, in either format, every path of every level of the contour set they were given, point for point up to the requested simplification, and nothing else.',
     'every operation sequence on a table and every small contour set',
     'No test reads the written files back.',
     ['psdr/pgf.py'], [('PGF.add / write / read, save_contour', 'psdr/pgf.py')], over=('histories', 'inputs'))
prop('I02', 'Gaussian process models interpolate and maximize their likelihood',
     'A fitted Gaussian process has a length scale matrix of the requested structure and coefficients solving the documented system for it; it reproduces the data it was given without noise (as far as the conditioning of its kernel allows), evaluates the documented kernel and trend sum everywhere, and reports '
     'variance that is nonnegative, vanishes at the data and equals the posterior formula of its kernel. The objective it minimizes is the documented likelihood, its derivative is exact, and well-conditioned fits are stationary points not worse than their start. '
     'Evaluation of a batch equals evaluation point by point, and refitting an object forgets its previous data.',
     'every kernel structure, trend degree, nugget and small data set, and every order of refits',
     'The posterior identity must hold for each structure option; tests check interpolation for one data set.',
     ['psdr/gp.py'], [('GaussianProcess', 'psdr/gp.py')], over=('inputs', 'histories'))
prop('I03', 'Nonlinearity, initialization, study and coordinate tools mean what they say',
     'The nonlinearity measure is the smallest ratio of Lipschitz constants after and before subtracting a linear function, zero exactly for affine data, attained by the coefficients returned, and unchanged by scaling and shifting the data. '
     'Initial subspaces are complete orthonormal bases whose leading directions are those the gradients, or the gradients estimated from samples, determine. Convergence studies report the number of samples taken and the angle between consecutive subspaces of freshly fitted models. '
     'Coordinate reductions order the coordinates by decreasing score, and sample data is normalized or rejected consistently.',
     'every small data set, random subset and sequence of sample sizes',
     'These helpers have no or one test each.',
     ['psdr/nonlin.py', 'psdr/coord.py', 'psdr/study.py', 'psdr/initialization.py', 'psdr/misc.py'], [('helpers', 'psdr/nonlin.py')], over=('inputs', 'fault_sequences'))

NOTES = {}
NA = {}


def main():
    here = os.path.join(HERE, 'mc', 'checks')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if glob.glob(os.path.join(here, pid.lower() + '_*.py')) and pid not in NA:
            checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                           'technique': 'explicit bounded-exhaustive model checking of the implementation (finite alphabet of configurations, operation histories and scripted random outcomes, all enumerated) against an independent reference model',
                           'level': 'model_checking',
                           'level_note': NOTES.get(pid, 'Every configuration/history/random outcome of the stated finite alphabet is executed on the real code and each answer is compared with an independent reference; nothing is claimed outside that alphabet, and numerical answers are compared within stated tolerances.')})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
                   'notes': 'Harness: mc/core.py (runner, scripted randomness), mc/zoo.py (domain alphabet and reference geometry), mc/checks/*. Replay a violation with ./check <ID> --replay <file>. No hooks in /repo are needed.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
