"""The properties and what decides them"""

A = 'copulae/archimedean/'
E = 'copulae/elliptical/'
S = 'copulae/special/'

PROPS = []


def P(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note and note + ' '))


P('C01', 'A copula\'s CDF is the defining distribution function, with uniform margins',
  'For every family, admissible parameter, dimension and point of the closed unit cube, the distribution function equals the '
  'one that defines the family. It is 0 where a coordinate is 0, equals u where all other coordinates are 1, never '
  'decreases, and gives every box a non-negative mass.',
  ['inputs', 'configurations'], 'all parameters, dimensions and points, including faces, corners and near-degenerate strengths',
  'Tests compare a handful of default-parameter values with R output; negative, zero, very weak and very strong parameters, '
  'higher dimensions, faces and corners of the cube are not sampled.',
  [A + 'clayton.py', A + 'frank.py', A + 'gumbel.py', E + 'gaussian.py', 'copulae/indep/indep.py'],
  [('generator composition', A + 'abstract.py cdf'), ('normal integral', E + 'gaussian.py cdf')],
  ['cdf of every copula class'],
  'runtime monitoring: oracle on cdf observations (mpmath/quadrature reference, box-mass and margin monitors)')
P('C02', 'A copula\'s density is the mixed derivative of its CDF, and its log agrees',
  'For every family, admissible parameter, dimension and interior point, the density equals the analytic density of the '
  'family and its logarithm is the log density. The log-likelihood of data is the sum of the log densities of the '
  'pseudo-observations, and points outside the cube carry no density.',
  ['inputs', 'configurations'], 'all parameters, dimensions and interior points, including corners and diagonals; all data sets',
  'Tests pin a few points in low dimensions at moderate parameters; overflow, cancellation and sign errors appear at other '
  'parameters, dimensions or corners.',
  [A + 'clayton.py', A + 'frank.py', A + 'gumbel.py', E + 'gaussian.py', E + 'student.py', 'copulae/copula/base.py',
   'copulae/stats/_multivariate_t.py'],
  [('closed-form densities', A + '*.py pdf'), ('polynomials of the Gumbel density', A + 'auxiliary.py')],
  ['pdf and log_lik of every copula class'],
  'runtime monitoring: oracle on pdf/log_lik observations (mpmath derivatives of the generators)')
P('C03', 'Random variates follow the copula they are drawn from',
  'A sample drawn from any copula has the requested shape, lies in the unit cube, has uniform margins, and falls into every '
  'box with the probability the copula\'s distribution function assigns to it. Successive rows are independent.',
  ['inputs', 'configurations', 'histories'], 'all families, parameters (including perfect dependence), dimensions and sizes',
  'Tests check shapes and a few seeded values; no test compares the law of a sample with the copula.',
  [A + 'clayton.py', A + 'frank.py', A + 'gumbel.py', A + 'auxiliary.py', E + 'gaussian.py', E + 'student.py',
   'copulae/stats/_multivariate_t.py', 'copulae/stats/stable/stable.py', 'copulae/stats/log.py'],
  [('Marshall-Olkin frailties', A + '*.py random'), ('elliptical variates', E + '*.py random')],
  ['random of every copula class'],
  'runtime monitoring: statistical oracle over recorded samples at the 1e-10 level')
P('C04', 'Seeded draws are reproducible and nothing else resets the random stream',
  'Drawing with a seed gives the same values whatever was drawn before, in whatever copula instance of equal parameters. '
  'Drawing without a seed continues the global stream, and no other operation resets that stream.',
  ['histories', 'schedules', 'inputs'], 'all interleavings of draws, fits, tests and queries',
  'Tests draw once with one seed; reproducibility and non-interference are statements about pairs of histories.',
  ['copulae/archimedean', 'copulae/elliptical', 'copulae/empirical/empirical.py', 'copulae/mixtures/gmc', 'copulae/marginal',
   'copulae/gof', 'copulae/stats'],
  [('seeding', 'random methods'), ('private generator of the symmetry test', 'copulae/gof/_exchangeability.pyx')],
  ['random', 'numpy.random.get_state around every operation'],
  'runtime monitoring: paired executions with the generator\'s state recorded')
P('C05', 'Kendall tau, Spearman rho and tail dependence are those of the copula',
  'The dependence measures a copula reports equal their defining integrals or limits for its parameters; the inverse '
  'functions map each attainable value of tau or rho to the parameter that has it, elementwise. Derivatives reported for '
  'them are their derivatives.',
  ['inputs', 'configurations'], 'all families and parameters in the declared ranges, scalars, vectors and matrices',
  'Tests evaluate one or two parameters against R; sign, zero, extreme and vector inputs are not covered.',
  [A + 'clayton.py', A + 'frank.py', A + 'gumbel.py', E + 'abstract.py', E + 'gaussian.py', E + 'student.py', S + 'debye.py'],
  [('closed forms and Debye functions', A + '*.py tau/rho/itau'), ('arcsine laws', E + 'abstract.py')],
  ['tau, rho, itau, irho, dtau, drho, lambda_ of every copula class'],
  'runtime monitoring: oracle on reported measures (mpmath quadrature, copula cdf, samples)')
P('C06', 'Parameters read back as set, and invalid ones never take effect',
  'After any sequence of parameter assignments through any entry point, the reported parameters, correlation matrix and '
  'item values agree with one another and with what was last accepted; the correlation matrix stays symmetric with unit '
  'diagonal and positive semidefinite. A rejected assignment raises and leaves the state unchanged.',
  ['histories', 'inputs'], 'all sequences of valid and invalid assignments, every dimension, index form and container',
  'Tests set one value at a time; consistency over histories and rollback after a rejected assignment need sequences.',
  [E + 'abstract.py', E + 'gaussian.py', E + 'student.py', A + 'clayton.py', A + 'frank.py', A + 'gumbel.py',
   A + 'abstract.py'],
  [('setters and item access', E + 'abstract.py __setitem__'), ('params setters', '*.py params')],
  ['params, sigma, item access, constructor'],
  'runtime monitoring: model-based monitor over random operation histories')
P('C07', 'A fit finds parameters at least as good as any nearby or true ones',
  'After fitting, the parameters are admissible and, for maximum likelihood, no other parameter (fine grid, perturbation, or '
  'the one that generated the data) has a clearly higher likelihood; moment estimators reproduce the measure of the data. '
  'Only ranks matter, the summary reports that same likelihood, and a rejected or unconverged fit leaves the previous '
  'parameters.',
  ['inputs', 'configurations', 'histories'], 'all families, estimators, optimizer options, data sets, tie rules',
  'Tests fit one data set per family with the default options.',
  ['copulae/copula/estimator', 'copulae/copula/base.py', E + 'student.py', A + 'abstract.py'],
  [('maximum likelihood', 'copulae/copula/estimator/max_likelihood.py'),
   ('inversion estimators', 'copulae/copula/estimator/corr_inversion.py')],
  ['fit, params, log_lik and the fit summary'],
  'runtime monitoring: optimality oracle over recorded fits')
P('C08', 'Answers do not depend on how the input is represented',
  'Queries give the same values for any representation of the same numbers (list, tuple, array of any layout, frame, series, '
  'numbers of any numeric type, one row or many, positional or keyword), an option that is not given has its documented '
  'default, and log queries give the logarithm. After a fit to named columns, queries follow '
  'the names and samples carry them; inputs that do not fit the dimension are rejected.',
  ['inputs', 'histories'], 'all representations, layouts, row subsets and column orders',
  'Tests call with one representation each; equality across representations is never asserted.',
  ['copulae/utility/annotations/reshape.py', 'copulae/utility/annotations/validations.py', 'copulae/copula/base.py'],
  [('input shaping', 'copulae/utility/annotations/reshape.py')],
  ['cdf, pdf, random of every class'],
  'runtime monitoring: differential oracle over equivalent calls')
P('C09', 'Queries are pure: no argument, copula or dataset is altered and answers repeat',
  'Every query leaves the arrays, frames, dictionaries and objects given to it as they were, leaves the copula as it was, '
  'gives the same answer when asked again (or after other queries), and returns a result whose alteration does not change '
  'later answers; merging dictionaries gives a new one and leaves those of the caller alone; every load of a dataset is fresh.',
  ['inputs', 'histories'], 'all queries, arguments in every memory layout, and all orders of queries',
  'Tests call a function once on an array they do not look at again.',
  ['copulae', 'copulae/utility/dict.py', 'copulae/datasets/base.py'],
  [('arrays handed to the special functions', S), ('arguments of cdf, pdf and fit', 'copulae/copula/base.py'),
   ('merging of options', 'copulae/utility/dict.py')],
  ['all public functions and methods'],
  'runtime monitoring: digests of arguments and of object state around each call, and histories of calls compared')
P('C20', 'Probability laws of copulae.stats are the laws they are named for',
  'Densities, distribution functions and samples of the multivariate t, the stable, the log-series and the uniform '
  'laws equal their definitions and fit together for every admissible parameter, shape of argument and size.',
  ['inputs', 'configurations', 'randomness'], 'all admissible parameters, arguments to far in the tails, sizes and seeds',
  'Tests compare a few stored values.',
  ['copulae/stats/_multivariate_t.py', 'copulae/stats/stable', 'copulae/stats/log.py', 'copulae/stats/uniform.py'],
  [('stable density', 'copulae/stats/stable'), ('chi-square mixture', 'copulae/stats/_multivariate_t.py')],
  ['copulae.stats'],
  'runtime monitoring: oracle on outputs (numerical integration, scipy) and statistical monitors over samples')
P('C10', 'Pseudo-observations are ranks over n + 1 under the chosen tie rule',
  'Pseudo-observations equal the rank of each value within its column divided by n + 1, for every tie rule, and lie strictly '
  'between 0 and 1. Labels of frames are kept; increasing transformations and row or column permutations have no other '
  'effect.',
  ['inputs'], 'all data sets with and without ties, every tie rule, container and layout',
  'Tests compare two data sets with stored values.',
  ['copulae/core/misc.py', 'copulae/copula/base.py'],
  [('ranking', 'copulae/core/misc.py rank_data')], ['pseudo_obs, rank_data, pobs'],
  'runtime monitoring: oracle on outputs (ranks by counting) and invariance monitors')
P('C11', 'The empirical copula is the (smoothed) empirical distribution of the ranks',
  'For every data set, smoothing, tie rule and offset the distribution function equals the defining average of indicator, '
  'beta or checkerboard terms, and the beta density is its derivative. Samples are rows of the data drawn with equal '
  'probability, and the back-transformation maps probabilities to order statistics and inverts pseudo-observations.',
  ['inputs', 'configurations'], 'all data sets, smoothings, tie rules, offsets and points, including the jump points',
  'Tests evaluate one data set per smoothing.',
  ['copulae/empirical/empirical.py', 'copulae/empirical/_distribution.pyx', 'copulae/empirical/distribution.py'],
  [('native summation', 'copulae/empirical/_distribution.pyx')], ['cdf, pdf, random, to_marginals'],
  'runtime monitoring: oracle on outputs (defining formulas, mpmath beta)')
P('C12', 'A copula with marginal distributions obeys Sklar\'s theorem',
  'The joint distribution function is the inner copula at the marginal probabilities, the density its density times the '
  'marginal densities (0 outside their supports), and samples are marginal quantiles of the inner copula\'s samples. Fitting '
  'estimates each margin by maximum likelihood and the dependence by the inner copula\'s own estimator; invalid margins are '
  'rejected.',
  ['inputs', 'configurations'], 'all inner copulas, marginal distributions, parameter forms and points',
  'Tests are smoke tests with two normal margins.',
  ['copulae/marginal/marginal.py', 'copulae/marginal/univariate.py'],
  [('composition', 'copulae/marginal/marginal.py'), ('margin construction', 'copulae/marginal/univariate.py')],
  ['cdf, pdf, random, fit, params of the marginal copula'],
  'runtime monitoring: oracle from inner copula observations and scipy margins')
P('C13', 'A Gaussian mixture copula agrees with its Gaussian mixture',
  'Density and distribution function are those of the mixture with the given weights, means and covariances; samples have '
  'uniform margins and the mixture\'s joint probabilities. Parameters survive the conversion to a vector and back, invalid '
  'ones are rejected, and fits return valid parameters no worse than their start whose reported likelihood is their own.',
  ['inputs', 'configurations', 'histories'], 'all numbers of clusters, dimensions, parameters, estimators and data sets',
  'Tests check the interface on one data set.',
  ['copulae/mixtures/gmc'], [('mixture sums', 'copulae/mixtures/gmc/gmc.py'), ('estimators',
                                                                             'copulae/mixtures/gmc/estimators')],
  ['cdf, pdf, random, fit, params of the mixture copula'],
  'runtime monitoring: oracle on outputs (own mixture formulas) and statistical monitors')

P('C14', 'Symmetry tests compute their statistic and a p-value from its null law',
  'The statistics of the exchangeability and radial symmetry tests equal their definitions on the pseudo-observations, for '
  'every grid size and tie rule; the p-value is that of the bootstrap null distribution, so it is a multiple of the '
  'resolution, small for asymmetric data and rarely small for symmetric data.',
  ['inputs', 'configurations', 'schedules'], 'all data sets with and without ties, grid sizes, numbers of replications, tie rules',
  'Tests compare one data set with stored values; level, power and the definition for other grids, ties and sizes are not '
  'covered.',
  ['copulae/gof/_exchangeability.pyx', 'copulae/gof/_radial_symmetry.pyx', 'copulae/gof/exchangeability.py',
   'copulae/gof/radial_symmetry.py', 'copulae/gof/common.py'],
  [('native statistics and multiplier bootstrap', 'copulae/gof/_exchangeability.pyx')],
  ['exch_test, rad_sym_test'],
  'runtime monitoring: oracle on statistics and statistical comparison of p-values with an independent bootstrap')
P('C15', 'Goodness of fit: definition of the statistic, valid bootstrap p-value',
  'The reported statistic is the Cramer-von Mises distance between the fitted copula and the empirical copula of the data, '
  'the parameters are those of a separate fit, and the p-value is that of a parametric bootstrap from the fitted copula. The '
  'answer is the same kind of answer in one or several processes, whose replications are independent, and the test leaves '
  'the data and the caller\'s copula class alone.',
  ['inputs', 'configurations', 'schedules'], 'all families, tie rules, fit options, numbers of replications and processes',
  'Tests run one family with few replications and only look at the type of the result.',
  ['copulae/gof/goodness_of_fit', 'copulae/gof/common.py'],
  [('parametric bootstrap', 'copulae/gof/goodness_of_fit'), ('worker pool', 'copulae/gof/goodness_of_fit')], ['gof_copula'],
  'runtime monitoring: oracle on statistics, statistical comparison of p-values, monitors of level and power')
P('C16', 'Correlation functions follow their formulas and missing value policies',
  'Every entry of a correlation matrix is the Pearson, Spearman or Kendall coefficient of the two columns over exactly the '
  'rows the missing value policy prescribes; the matrix is symmetric with unit diagonal, keeps the labels of frames, and the '
  'policy which forbids missing values raises.',
  ['inputs', 'configurations'], 'all data sets with ties, constants and missing values, methods, policies and containers',
  'Tests use one data set; missing values in generated positions and every policy and method combination are not covered.',
  ['copulae/stats/correlation.py'],
  [('policies', 'copulae/stats/correlation.py')], ['corr, pearson_rho, spearman_rho, kendall_tau'],
  'runtime monitoring: oracle on outputs (textbook formulas on the prescribed rows)')
P('C17', 'Special functions equal their mathematical definitions everywhere',
  'Debye, dilogarithm, Clausen, polylogarithm, stable logarithms of exponentials, trigonometric functions of multiples of pi '
  'and the root finder give the defining values to near machine precision over their domains, in every form of the call '
  '(scalar, list, matrix, threaded), with limits at infinities and NaN for NaN.',
  ['inputs', 'schedules'], 'all arguments, in particular around branch points and the switches between expansions',
  'Tests compare a few stored values per function; branch points and regime boundaries lie between them.',
  [S + 'debye.py', S + 'dilog.py', S + 'clausen.py', S + 'special_func.py', S + '_specfunc.pyx', S + 'trig.py',
   S + 'optimize.py'],
  [('series and Chebyshev expansions', S + '_specfunc.pyx'), ('chunking over threads', S + '*.py')],
  ['functions of copulae.special'],
  'runtime monitoring: oracle on outputs (mpmath) and differential monitor over forms of the call')
P('C18', 'The native code never misuses memory or threads',
  'No call of a public function backed by the native extensions reads or writes outside its arrays, overflows an index, '
  'uses memory before it is set, races between threads, ends the process or leaks memory, whatever the arguments, and its '
  'answer is the same for every number of threads.',
  ['inputs', 'schedules', 'configurations'], 'all arguments (sizes, layouts, special values, misuse) and thread schedules',
  'Tests pass valid input of one size to a build without any checks.',
  [S + '_specfunc.pyx', 'copulae/empirical/_distribution.pyx', 'copulae/gof/_exchangeability.pyx',
   'copulae/gof/_radial_symmetry.pyx'],
  [('unchecked indices (boundscheck off)', 'copulae/*/*.pyx'), ('parallel loops', S + '_specfunc.pyx map_dbl_p')],
  ['reports of the sanitizers, signals, answers of differently built or threaded runs'],
  'sanitizers: ASan, UBSan, TSan and index-checked builds of the native code, fresh memory filled, builds compared')
P('C19', 'Matrix helpers keep their contracts on every matrix',
  'Conversions between correlation and covariance and between a matrix and its parameter vector are inverse to one another; '
  'tests of symmetry and definiteness agree with the eigenvalues; the nearest semi-definite matrix is semi-definite, '
  'symmetric, unchanged for semi-definite input and nearly as near as possible.',
  ['inputs'], 'all matrices: definite, singular, indefinite, barely indefinite, asymmetric, badly scaled',
  'Tests use two or three fixed matrices.',
  ['copulae/core/linalg.py', 'copulae/core/misc.py', 'copulae/core/__init__.py'],
  [('nearest matrix', 'copulae/core/linalg.py near_psd')],
  ['cov2corr, corr2cov, create_cov_matrix, near_psd, is_psd, tri_indices'],
  'runtime monitoring: oracle on outputs (eigenvalues, Higham projections)')
P('C21', 'Threads, copies and worker processes get the answers of one caller',
  'Queries and fits made at once from several threads, on copies (deep, pickled, or sent to another process) or next to other '
  'objects that are being made, altered or fitted, answer as they do for a single caller; altering one object or copy never '
  'alters another.',
  ['schedules', 'histories', 'inputs'], 'all schedules of callers, all copies and all histories of other objects',
  'Tests call from one thread, on one object, which is never copied.',
  ['copulae/copula/base.py', A + 'abstract.py', 'copulae/elliptical/abstract.py', 'copulae/empirical/empirical.py',
   'copulae/mixtures/gmc/gmc.py', 'copulae/marginal/marginal.py', S],
  [('state kept on objects and modules', 'copulae')], ['all queries, fits and copies of copulas'],
  'runtime monitoring: threads with injected delays, answers compared with those of a single caller; copies probed')
P('C22', 'Summaries report the copula and the fit as they are; silence when asked',
  'The summary of a copula, as text and as HTML, shows its name, dimension and present parameters, that of a fit its method, '
  'log likelihood, sample size and results; before a fit it raises NotFittedError; nothing is printed unless asked for, and '
  'string forms never fail.',
  ['inputs', 'histories', 'configurations'], 'all classes, parameters, histories of fits, forms of data and verbosities',
  'Tests look for one or two words in one summary.',
  ['copulae/copula/summary.py', 'copulae/copula/estimator/summary.py', 'copulae/*/summary.py', 'copulae/utility/annotations/summary.py',
   'copulae/copula/base.py'],
  [('NotFitted guard', 'copulae/utility/annotations/summary.py')], ['summary(), str, repr, _repr_html_, standard output'],
  'runtime monitoring: monitors parse the summaries and capture standard output during fits')
P('C23', 'Misuse is refused and leaves no trace',
  'Dimensions below 2, inadmissible parameters, arrays of the wrong shape, values that are no probabilities, unknown methods '
  'and options and copulas without parameters are refused with an exception, and a missing value gives NaN for its own row '
  'only: never an ordinary-looking number. A refused call or a fit that fails half-way leaves the object as it was.',
  ['inputs', 'histories'], 'all classes and functions, every kind of invalid argument, at any point of a history',
  'Tests try a few invalid arguments on fresh objects and never look at what the refused call left behind.',
  ['copulae', 'copulae/copula/estimator/estimator.py', 'copulae/marginal/marginal.py', 'copulae/mixtures/gmc/gmc.py',
   'copulae/mixtures/gmc/parameter.py', 'copulae/utility/annotations', 'copulae/empirical/empirical.py',
   'copulae/stats/correlation.py'],
  [('argument checks', 'constructors and setters of all classes'), ('roll-back of fits', 'fit of all classes')],
  ['exceptions of all public functions, state of the copula before and after them'],
  'runtime monitoring: monitor of refusals, state of the object compared before and after each refused call')
P('C24', 'Archimedean generators, inverses and derivatives fit together',
  'For every family and admissible parameter the generator, its inverse and the first two derivatives of the inverse equal '
  'the defining functions, invert one another, decrease and are convex, and their logarithms are logs of their absolute '
  'values.',
  ['inputs', 'configurations'], 'all parameters (negative, zero, weak, strong) and arguments, in every form',
  'Tests evaluate one parameter at a handful of points.',
  [A + 'clayton.py', A + 'frank.py', A + 'gumbel.py', A + 'abstract.py'],
  [('closed forms', A + '*.py psi/ipsi/dipsi')], ['psi, ipsi, dipsi of the Archimedean copulas'],
  'runtime monitoring: oracle on outputs (mpmath) and shape monitors')
P('C25', 'Combinatorial numbers, polynomials and Pickands functions are exact',
  'Stirling, Eulerian and binomial numbers, the coefficients and values of the Gumbel polynomial, Sibuya probabilities, '
  'polynomial evaluation and the Pickands dependence function equal their definitions for every order, parameter and method '
  'in their domain.',
  ['inputs', 'configurations'], 'all orders, parameters, methods and argument shapes',
  'Tests compare a few orders with stored values.',
  [A + 'auxiliary.py', A + 'gumbel.py', S + 'combinatorics.py', S + 'special_func.py'],
  [('recurrences', S + '*.py'), ('polynomial methods', A + 'gumbel.py')],
  ['functions of copulae.special and of the Gumbel family'],
  'runtime monitoring: oracle on outputs (exact integer and rational arithmetic, mpmath)')

# commit subject (part of it) -> property; the first match counts
FIXED = [
    ('mixtures are drawn from weights', 'C13'), ('Frank measures of weak', 'C05'), ('dilog_complex of angles', 'C17'), ('merge_dicts of one', 'C09'),
    ('truncate later items', 'C06'), ('Gumbel dtau', 'C08'), ('summaries show', 'C22'),
    ('failed or unconverged fit', 'C07'), ('fit that failed', 'C23'), ('dictionary of parameters of another', 'C23'),
    ('made up', 'C23'), ('makes up', 'C23'), ('without a parameter gives NaN', 'C23'), ('outside the unit cube', 'C02'),
    ('of missing values is 0', 'C23'), ('is 0 for missing values', 'C23'), ('maps values outside', 'C23'), ('fits by k-means', 'C13'),
    ('special functions no longer overwrite', 'C09'), ('Clausen', 'C17'), ('log1mexp', 'C17'), ('comb and perm', 'C25'),
    ('poly_log', 'C17'), ('Eulerian', 'C25'), ('sign_ff', 'C25'), ('inverse generator', 'C24'), ('inverse Frank generator', 'C24'), ('Gumbel polynomial of degree', 'C25'),
    ('Sibuya', 'C25'), ('polynomial evaluation', 'C25'), ('dilog of NaN', 'C17'), ('replications of the symmetry', 'C14'),
    ('strong Clayton and Gumbel', 'C01'), ('strong Frank', 'C01'), ('Pickands', 'C25'),
    ('Frank generator overwrites', 'C09'), ('derivative of', 'C05'), ('Frank itau raises', 'C05'),
    ('Frank density', 'C02'), ('Frank cdf', 'C01'), ('log-series', 'C03'), ('Frank samples', 'C03'),
    ('Clayton cdf', 'C01'), ('Clayton density', 'C02'), ('Clayton dipsi', 'C24'), ('Clayton constructor', 'C06'),
    ('Clayton random', 'C03'), ('tail dependence', 'C05'), ('Pickands', 'C25'), ('Gumbel itau overwrites', 'C09'),
    ('Gumbel density', 'C02'), ('random(1) loses', 'C03'), ('params setter', 'C06'), ('Student constructor', 'C06'),
    ('NaN correlation', 'C06'), ('Student fit with fix_df', 'C07'), ('multivariate t density', 'C20'),
    ('Student maximum likelihood', 'C07'), ('seeded multivariate t', 'C20'), ('one-dimensional multivariate t', 'C20'),
    ('fitting bivariate elliptical', 'C07'), ('tau and rho fits is that', 'C07'), ('multiplied by scale', 'C07'),
    ('HTML fit summary', 'C22'), ('merge_dict', 'C09'), ('optim_options', 'C09'), ('range check', 'C07'),
    ('trust-constr', 'C07'), ('does not converge leaves', 'C07'), ('fit prints', 'C22'), ('columns of an earlier', 'C08'),
    ('log_lik raises', 'C02'), ('Gaussian cdf is NaN', 'C01'), ('passed by keyword', 'C08'),
    ('density of the empirical', 'C11'), ('to_marginals', 'C11'), ('truncates', 'C12'), ('cannot be sampled', 'C12'),
    ('caller\'s dictionary', 'C09'), ('mixture density and distribution', 'C13'), ('GMCParam.to_vector', 'C13'),
    ('without parameters raises AttributeError', 'C13'), ('quantiles of the Gaussian mixture', 'C13'),
    ('Gaussian mixture fit', 'C13'), ('GMCParam shares', 'C09'), ('bootstrap for data with ties', 'C15'),
    ('multiprocess goodness', 'C15'), ('ignores fit_ties', 'C15'), ('exch_test resets', 'C04'),
    ('symmetry tests read', 'C14'), ('stable variates', 'C20'), ('stable', 'C20'), ('is_psd', 'C19'), ('log_sum', 'C17'),
    ('Frank variates', 'C03'), ('gof_copula rejects', 'C15'), ('Gumbel variates', 'C03'),
    ('ml fit of an Archimedean', 'C07'), ('log likelihood raises', 'C07'), ('pem and sgd', 'C13'),
    ('overflows an index', 'C18'), ('HTML summary', 'C22'), ('density of the marginal copula', 'C12'), ('sgd fit', 'C13'),
]
