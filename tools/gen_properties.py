"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay reviewable)."""
import json, os
P = []
SRC = 'src/reor/'
AA, GP, CR, MT = SRC + 'archetypal_analysis.py', SRC + 'gpnh_convex_coding.py', SRC + 'gpnh_convex_coding_crom.py', SRC + 'mtd_convex_coding.py'
FB, FK, FV, PW = SRC + 'fembv.py', SRC + 'fembv_kmeans.py', SRC + 'fembv_varx.py', SRC + 'pwvarx.py'
KM, FS, SP, SG, RM, VA = SRC + 'crom.py', SRC + 'furthest_sum.py', SRC + 'simplex_projection.py', SRC + 'spg.py', SRC + '_random_matrix.py', SRC + '_validation.py'


def add(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe), 'hook_needed': None}})


add('C01', 'Affiliation weights always lie on the probability simplex',
    'Whatever the data, the initialisation and the number of iterations, every weights matrix that a factorisation or FEM-BV model returns from fit_transform or transform has non-negative entries and rows that sum to one (up to solver and rounding accuracy).',
    ['inputs', 'configurations', 'histories'],
    'every data matrix, every init option, every iteration count and line-search outcome, for KernelAA, ArchetypalAnalysis, GPNHConvexCoding, GPNHConvexCodingCROM, MTDConvexCoding, FEMBVKMeans and FEMBVVARX',
    'The tests start from a handful of random stochastic matrices and check row sums after a few updates with one step pattern; they do not reach shortened steps, every init option, transform, or FEM-BV fits.',
    [AA, GP, CR, MT, FB, FK, FV, SP, SG, RM, VA],
    [('projection of the trial point, then a step in [0, 1] towards it', AA + '::_update_weights'),
     ('row-wise simplex projection', SP + '::simplex_project_rows'),
     ('linear program with one sum-to-one row per sample, clipped to [0, 1]', FB + '::_update_weights')],
    [('S / Gamma', 'current weights', 'estimator attributes')],
    ['return value of fit_transform', 'return value of transform'])

add('C02', 'Archetypes, transition matrices and lag weights stay stochastic',
    'Kernel and standard archetypal analysis always return a dictionary with non-negative rows summing to one; the lag-weighted models always return non-negative lag weights summing to one and transition matrices with non-negative entries and unit column sums. Probability forecasts of cluster membership keep these properties for every horizon.',
    ['inputs', 'configurations', 'histories'],
    'every data matrix, init option, iteration count, step pattern, set of lags and forecast horizon',
    'Tests check the sums after a few updates from random starts; they never shorten the steps, use several lags with CROM, or look at forecasts.',
    [AA, MT, CR, KM, SP, SG, RM],
    [('projection + convex step', AA + '::_update_dictionary'),
     ('projection + convex step', MT + '::_update_parameters'),
     ('projection + convex step', CR + '::_update_parameters'),
     ('row-stochastic times transposed column-stochastic', KM + '::predict')],
    [('C', 'archetype dictionary', AA), ('order_weights, transition_matrices', 'Markov parameters', MT + ', ' + CR)],
    ['dictionary_', 'order_weights', 'transition_matrices', 'KMeansMarkovCROM.predict'])

add('C03', 'The reported cost is the objective at the returned factors',
    'After a fit, cost_ is exactly the model objective evaluated at the very dictionary, weights and parameters that the model exposes: squared reconstruction error (mean-normalised for the convex codings) plus epsilon_states times the mean squared distance between dictionary states plus, for MTD, epsilon_weights times the mean squared one-step prediction error of the weights. No cached intermediate from an earlier iterate takes part in it.',
    ['inputs', 'histories', 'configurations'],
    'every data matrix and every number and order of updates; also n_components equal to one',
    'A stale cache gives a plausible number; tests compare costs for exact factorisations or for decrease, where stale and fresh values agree in order.',
    [AA, GP, CR, MT, FB, FK, FV],
    [('caches refreshed before every evaluation', GP + '::_evaluate_cost'),
     ('caches refreshed before every evaluation', MT + '::_update_predicted_weights'),
     ('cost recomputed after every update', AA + '::_iterate')],
    [('CK, CKCt, StS, SSt, GtG, GtX, XSt, Z, distance_matrix', 'quantities derived from the factors', 'estimator attributes')],
    ['cost_', 'dictionary_', 'return value of fit_transform'])

add('C04', 'Every descent step uses the exact gradient of the current objective',
    'In each half-step of the factorisation fits, the direction that is followed comes from the exact gradient, at the current factors, of the same objective that the line search evaluates, with respect to the factor being updated.',
    ['inputs', 'configurations', 'histories'],
    'all factor values, regularisation strengths, numbers of lags and components, and all earlier updates',
    'Numerical-gradient tests exist for some factors at a few random points with one lag set; the gradient with respect to MTD weights with regularisation and CROM parameters is never compared, and stale caches are invisible right after initialisation.',
    [AA, GP, CR, MT],
    [('analytic gradients', AA + '::_update_weights_gradient'), ('analytic gradients', MT + '::_weights_penalty_gradient'),
     ('analytic gradients', GP + '::_update_dictionary_gradient'), ('analytic gradients', CR + '::_update_parameters_gradient')],
    [('grad_*', 'gradients', 'estimator attributes')], ['fit_transform'])

add('C05', 'Line searches accept only sufficient decrease and always stop',
    'Every trial step that a line search keeps either satisfies the sufficient-decrease test against a recent cost value, evaluated at exactly that trial point, or is shorter than the step-size tolerance. Each rejected step is shortened by at least a fixed factor and stays positive and at most one, so every line search terminates, and the spectral step length always stays between its configured bounds.',
    ['inputs', 'configurations', 'histories'],
    'all costs, directions and curvature estimates, including non-positive curvature, and all settings with 0 < sigma_one, sigma_two < 1',
    'Tests run a few random problems where the first step is usually accepted; rejection, safeguarding and bound clipping are not reached systematically.',
    [SG, AA, GP, CR, MT],
    [('safeguarded quadratic interpolation', SG + '::get_next_spg_step_length'), ('clamped spectral step', SG + '::get_next_spg_alpha'),
     ('backtracking loops', GP + '::_weights_line_search')],
    [('step_size, f_*_mem', 'trial step and cost memory', 'line searches')], ['fit_transform'])

add('C06', 'An update that increases the cost never passes silently',
    'With require_monotonic_cost_decrease enabled, a fit raises RuntimeError as soon as the cost after any half-update exceeds the cost at the start of that iteration (for FEM-BV: from the second iteration on and beyond the tolerance), so that a fit which returns never carries a larger cost out of an iteration than it took in.',
    ['inputs', 'histories', 'fault_sequences'],
    'every iteration, every half-update and every way in which an update can fail to decrease the cost',
    'No test makes an update increase the cost.',
    [AA, GP, CR, MT, FB],
    [('comparison and raise after each update', AA + '::_iterate'), ('same', GP + '::_iterate'), ('same', MT + '::_iterate'),
     ('same', CR + '::_fit_parameters'), ('same, with tolerance', FB + '::_iterate')],
    [], ['fit_transform', 'RuntimeError'])

add('C07', 'A fixed random_state makes every run reproducible',
    'When an integer random_state is given, all randomness used by a model comes from that seed: nothing is drawn from the global generator, from entropy, time, addresses or hash order, and the global generator is never reseeded. Two identical sequences of calls therefore give identical results.',
    ['inputs', 'configurations', 'histories'],
    'every estimator, every init option and every call sequence',
    'Tests fix seeds but hardly compare two runs, and a draw from the global generator only shows when its state differs.',
    [RM, AA, GP, CR, MT, FB, FK, FV, PW, KM],
    [('check_random_state threaded through every initialiser', AA + '::_initialize_kernel_aa'), ('random_state passed to sampling', GP)],
    [('random_state', 'generator or seed', 'estimator attributes')], ['fit_transform', 'transform', 'predict'])

add('C08', "Caller's arrays are never modified, and earlier results never change",
    "No public function or estimator method modifies an array, list or dict that the caller passed in (data, kernel, custom factors, exclusion lists, options), except the in-place projection helpers. Results that a model returned earlier are not changed by later calls on the same model.",
    ['inputs', 'histories'],
    'every public entry point, every option, every sequence of calls',
    'Tests rarely look at their inputs again after the call and never at an earlier result after a later call.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM, FS, RM],
    [('defensive copies of data and initial factors', GP + '::_gpnh_convex_coding'), ('same', AA + '::_kernel_aa'), ('same', MT + '::_mtd_convex_coding'),
     ('same', FB + '::_initialize_weights'), ('np.roll copies the window before it is overwritten', MT + '::predict')],
    [], ['arguments after the call', 'earlier return values after a later call'])

add('C09', 'Refitting a model forgets the previous fit',
    'The outcome of a fit depends only on the constructor settings, the generator state and the arguments of that call: nothing computed by an earlier fit, transform or predict on the same object (factors, caches, step lengths, cost history, fitted parameters) enters it, and attributes of an earlier fit that do not apply any more are reset.',
    ['histories', 'inputs'],
    'every estimator and every pair of consecutive calls with different data or options',
    'No test fits the same object twice.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM],
    [('workspace reset at the start of each fit', GP + '::_initialize_workspace'), ('same', AA + '::_initialize_workspace'), ('same', MT + '::_initialize_workspace'),
     ('parameters reallocated', FV + '::_initialize_components'), ('same', CR + '::_initialize_parameters_workspace')],
    [], ['attributes after the second fit'])

add('C10', 'Applying a fitted model uses and preserves what it learned',
    'transform, predict and inverse_transform work with the dictionary, centroids, transition parameters and classifier learned by the last fit, do not re-estimate or replace them, and leave them exactly as they were; they are available after every successful fit, whatever the init option was.',
    ['histories', 'inputs', 'configurations'],
    'every estimator with transform/predict/inverse_transform, every init option, new data of any size',
    'A single test calls transform once, on one class.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM],
    [('dictionary=self.S, update_dictionary=False', GP + '::transform'), ('parameters held fixed', MT + '::transform'), ('update_parameters=False', FB + '::transform')],
    [], ['dictionary_', 'transition_matrices', 'Theta', 'transform', 'predict'])

add('C11', 'Invalid settings and malformed custom factors are rejected up front',
    'Before any optimisation, a fit raises ValueError for a component count or iteration limit that is not a positive integer, a tolerance that is not a non-negative number, an unknown init option, a non-square kernel, and custom starting factors whose shape is wrong, whose required sums are not one or whose required entries are negative. Lags and memories that are not positive (respectively non-negative) integers and mismatching sample counts are rejected likewise.',
    ['inputs', 'configurations'],
    'all invalid values of each kind, for every estimator and every path that accepts the input',
    'The tests exercise validation only in furthest_sum.',
    [VA, AA, GP, MT, FB, FK, FV, FS],
    [('guards at the top of each fit', AA + '::_kernel_aa'), ('shape and sum checks', VA), ('lag check', MT + '::__init__')],
    [], ['ValueError'])

add('C12', 'Array shapes fit together for every size and option combination',
    'For every number of samples, features, components, lags, memories and exogenous variables (large enough for the lags), and every documented option combination, no fit, transform or predict combines arrays of incompatible shapes, and the returned weights, dictionaries, labels and parameters have the documented shapes.',
    ['inputs', 'configurations'],
    'all sizes (symbolic dimensions) and all documented option combinations, such as per-component memories with exogenous factors, one-column series, several lags',
    'Tests use a few fixed sizes, often square, and never the multi-memory, exogenous or one-column cases.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM],
    [('slicing by presample length', FV), ('design matrices', PW + '::_stack_predictors')],
    [], ['fit_transform', 'transform', 'predict'])

add('C13', 'Regression designs use the stated lags and read coefficients back in order',
    'In the VARX models, the regression for time t uses the endogenous values at exactly t-1, ..., t-p and the exogenous values at exactly the stated lags, each once, and never a later value. The coefficient matrix reported for lag i is the one that multiplies the value at lag i, oriented so that the prediction is mu + sum_i A_i x(t-i) + sum_j B_j u(t-j), and the reported residuals are those of that regression.',
    ['inputs', 'configurations'],
    'every order p and s (including p < s, p = 0 and s = 0), every number of variables, weighted and unweighted fits',
    'One test fits a single dataset with p = 2 and no exogenous variables.',
    [FV, PW],
    [('lag blocks written side by side', FV + '::FEMBVVARXLocalLinearModel'), ('lag blocks', PW + '::_stack_predictors'), ('coefficient unpacking', PW + '::_fit_var_model')],
    [('_z', 'design matrix', FV), ('x', 'design matrix', PW)], ['A', 'B', 'B0', 'mu', 'residuals'])

add('C14', 'Markov models pair each lag with its own matrix, in fits and forecasts',
    'The predicted weights at time t are the sum over lags of the lag weight times the transition matrix of that same lag applied to the weights at exactly t minus that lag, both in the objective being fitted and in forecasts, and never use later samples. A forecast over horizon h applies the one-step prediction exactly h times starting from the current weights, horizon zero returns the reconstruction, and the k-means transition matrix counts moves from column cluster to row cluster.',
    ['inputs', 'configurations'],
    'every set of lags, in any order, every horizon and every series length',
    'Tests use few lag sets for fitting and one forecast check on a single model.',
    [MT, CR, KM],
    [('one-step prediction', MT + '::_update_predicted_weights'), ('forecast recursion', MT + '::predict'), ('forecast recursion', CR + '::predict'), ('transition counts', KM + '::kmeans_markov_crom')],
    [('Z', 'predicted weights', MT)], ['predict', 'transition_matrix_'])

add('C15', 'The FEM-BV weights problem states exactly the intended constraints',
    'The linear program solved for the weights minimises sum over samples and components of weight times distance, subject to unit row sums, non-negative weights and, when a total-variation bound is set, auxiliary variables that dominate the absolute successive differences of each component and sum to at most that bound per component; the solution is read back in the order in which it was laid out.',
    ['inputs', 'configurations'],
    'every number of samples and components, with and without a total-variation bound, including a bound of zero',
    'Tests compare the matrices for one or two tiny sizes with equal numbers of samples and components, and never look at how the solution is read back.',
    [FB],
    [('constraint assembly', FB + '::_initialize_constraints'), ('objective vector and read-back', FB + '::_update_weights')],
    [('A_eq, b_eq, A_ub, b_ub', 'constraints', FB)], ['Gamma'])

add('C16', 'A failed weights solve never corrupts a FEM-BV model',
    'The solution of the weights problem replaces the weights only when the solver reports that it solved the problem. For every other solver status the model keeps its previous valid weights and issues a warning.',
    ['fault_sequences', 'inputs'],
    'every status that the solver can report',
    'No test makes the solver fail.',
    [FB], [('status test', FB + '::_update_weights')], [], ['Gamma', 'UserWarning'])

add('C17', 'Iteration counts are exact and non-convergence is reported',
    'Every iterative fit performs at most max_iterations iterations and stops early only when the change of the cost is below the tolerance; n_iter_ is the number of iterations performed, and a fit that uses up its iterations without meeting a positive tolerance issues a warning, while a converged one does not.',
    ['inputs', 'configurations', 'histories'],
    'every data set, tolerance and iteration limit',
    'Tests only check that n_iter_ is below the limit after convergence.',
    [AA, GP, MT, FB, CR],
    [('iteration loop and warning', AA + '::_iterate'), ('same', GP + '::_iterate'), ('same', MT + '::_iterate'), ('same', FB + '::_iterate')],
    [], ['n_iter_', 'UserWarning'])

add('C18', 'FurthestSum selects distinct, admissible samples, always the furthest candidate',
    'For every symmetric dissimilarity matrix, admissible start index, list of distinct excluded indices that leaves enough samples, and number of extra steps, furthest_sum answers with exactly n_components pairwise distinct sample indices in range, none of them excluded. Each index entering the selection is, among all admissible samples not selected, one with the largest sum of dissimilarities to the other selected samples; in an extra step the oldest position is vacated first, and the vacated index is itself a candidate again.',
    ['inputs', 'histories'],
    'every matrix (also with ties), exclusion list and number of extra steps',
    'Tests use few points, mostly without exclusions, and default extra steps.',
    [FS, AA, GP, MT],
    [('candidate pool', FS + '::_furthest_sum_impl')], [('q, selected', 'pool and selection', FS)], ['furthest_sum'])

add('C19', 'Verbosity and timing never influence results',
    'Changing verbose changes only what is printed: fitted attributes, return values, exceptions and random draws are the same for every verbosity, nothing is printed when it is zero, and measured times influence nothing but printed output.',
    ['configurations', 'inputs', 'histories'],
    'every estimator, every verbosity value, every input',
    'No test uses verbose.',
    [AA, GP, CR, MT, FB],
    [('verbose-guarded prints', AA + '::_iterate')], [], ['stdout', 'attributes'])

add('C20', 'Every documented option is honoured',
    'Every constructor and fit option that the documentation describes influences the computation as described: it is used rather than silently dropped, reaches each routine that needs it under its own meaning, documented None values work, and options accepted by one initialisation step do not make another step fail.',
    ['configurations'],
    'every documented option of every estimator, for every init option',
    'Tests set few options and never the None forms or the initialiser options.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM],
    [('keyword options', AA + '::__init__'), ('initialiser options', AA + '::_initialize_kernel_aa_dictionary')], [], ['constructors', 'fit_transform'])

add('C21', 'Empty clusters and single components never divide by zero',
    'No fit divides by a count, weight total or component-count expression that can be zero for admissible input: single-component models, clusters without members, clusters never left before the last sample, and duplicated samples give finite parameters rather than NaN.',
    ['inputs', 'configurations'],
    'all admissible data, including duplicated samples, and n_components equal to one',
    'Tests use generic random data in which every cluster is populated.',
    [KM, FK, GP, MT, AA, SG, CR],
    [('single-component guards', GP + '::_evaluate_dictionary_penalty'), ('centroid normalisation', FK + '::_update_parameters'), ('transition counts', KM + '::kmeans_markov_crom'),
     ('squared distances before the root', AA + '::_initialize_kernel_aa_dictionary_furthest_sum')], [], ['transition_matrix_', 'Theta', 'cost_'])

add('C22', 'Every public method can run: calls bind and attributes exist',
    'Every call reachable from the public API, into the package or into numpy, scipy, scikit-learn and cvxpy, passes arguments that its target accepts, and no fitting method of a freshly constructed model and no public method of a freshly fitted one reads an attribute or variable that no earlier step on that path has set. In particular fit_predict, fit_transform and predict of the k-means model work on a fresh, respectively fitted, object.',
    ['programs', 'histories', 'configurations'],
    'every public method, from the freshly constructed and the fitted state, on every path',
    'Many public methods have no test at all.',
    [AA, GP, CR, MT, FB, FK, FV, PW, KM, FS],
    [('fitted-model attributes', KM + '::KMeansMarkovCROM'), ('forwarded keyword options', MT)], [], ['TypeError', 'AttributeError'])

add('C23', 'Equivalent ways of asking give the same answer',
    'fit followed by reading the attributes gives the same model as fit_transform; archetypal analysis without a kernel function equals kernel archetypal analysis of the inner-product kernel of the same samples, in fit and in transform; and the two lag-weighted models produce the same forecast from the same dictionary, weights and Markov parameters. Integer-valued data give the same model as the same values in floating point.',
    ['inputs', 'configurations'],
    'all data, options and horizons',
    'No test compares two entry points with each other.',
    [AA, GP, CR, MT, FB, PW, KM],
    [('fit delegates to fit_transform', AA + '::fit'), ('duplicated forecast code', MT + '::predict'), ('duplicated forecast code', CR + '::predict')], [], ['fit', 'fit_transform', 'transform', 'predict'])

# ---- properties that a user relies on but that this family cannot decide here ----
add('C24', 'The simplex projection returns the nearest point',
    'The projection helpers return, for every finite vector, the Euclidean-nearest point of the probability simplex, up to rounding.',
    ['inputs'], 'all finite vectors of every length',
    'Tests compare a few vectors.', [SP], [('sorted threshold search', SP + '::simplex_project_vector')], [], ['simplex_project_*'])
add('C25', 'Fits converge to a stationary point of the objective',
    'With unlimited iterations every factorisation fit converges to a stationary point of its objective on the feasible set.',
    ['inputs', 'histories'], 'all data and starting points',
    'Tests run a few starts.', [AA, GP, MT, CR], [('alternating projected spectral gradient', AA + '::_iterate')], [], ['fit'])
add('C26', 'Planted models are recovered from noiseless data',
    'Data generated exactly by a model of the fitted class are reproduced by the fit within the tolerance.',
    ['inputs'], 'all generating parameters',
    'Tests use a few instances.', [AA, GP, MT, FK, FV, PW], [('whole fit', AA)], [], ['cost_'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
