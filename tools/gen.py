#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (run by hand, result committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'measures-distributions/src/distributions/'
C = 'measures-core/src/'
K = 'measures-combinators/src/measures/'
E = 'measures-exponential-family/src/exponential_family/'
S = 'symbolic-math/src/'
B = 'measures-bayesian/src/'
M = 'mathjit/src/'

P = []
BUILT = {}

def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe)))
    if technique:
        BUILT[id] = (technique, note)

COMMON = ("Exploration: every execution made is judged, nothing is claimed beyond the inputs drawn from VERIF_SEED. "
          "The oracle is independent of the code under test and computes in higher precision; tolerance is a small multiple of the rounding "
          "error of a direct evaluation, and ill-conditioned cases are counted as inconclusive, never as held. ")

prop('C01', 'Built-in log-densities equal the textbook formula',
 "For every built-in distribution, every valid parameter value and every point, the log-density with respect to the natural base measure (Lebesgue or counting) equals the logarithm of the distribution's textbook density or mass function up to rounding. It is negative infinity where that density is zero, and is neither NaN nor a panic at any finite point.",
 ['inputs'], "all parameter values accepted by the constructors × all finite points (inside, on the edge of and outside the support), in f32 and f64",
 "The tests compare a few hand-picked points per family, mostly standard parameters in f64; large counts, far tails, boundary parameters, off-support points and f32 are hardly sampled.",
 [D+'continuous/normal.rs', D+'continuous/cauchy.rs', D+'continuous/student_t.rs', D+'continuous/gamma.rs', D+'continuous/beta.rs', D+'continuous/chi_squared.rs', D+'continuous/exponential.rs', D+'discrete/binomial.rs', D+'discrete/negative_binomial.rs', D+'discrete/geometric.rs', D+'discrete/poisson.rs', D+'discrete/bernoulli.rs', D+'discrete/categorical.rs'],
 [('per-family log-density implementation', 'HasLogDensity::log_density_wrt_root in each distribution file'), ('log-factorial table and Stirling series', K+'derived/factorial.rs'), ('dispatch to the root measure', C+'core/density.rs: LogDensity::at')],
 ['log_density().at(&x)', 'log_density_wrt_root', 'Cauchy::log_pdf', 'StudentT::log_pdf'],
 'runtime monitoring: online differential oracle (double-double reference densities) over generated parameters and points', "Trusts the double-double special functions of the harness (self-tested at start-up).")

prop('C02', 'Densities integrate to one and agree with moments and support',
 "The library's own density of every built-in distribution integrates (or sums) to one over the whole space, and the mean, variance, and reparameterisation accessors a distribution offers equal the corresponding functionals of that density. A point is reported to be in the support exactly when the density there is positive, except at points where the density is zero or infinite only because a parameter sits on the boundary of its range.",
 ['inputs'], "all interior parameter values × all points",
 "Normalisation is a statement about the whole sample space: the tests evaluate single points and never integrate; they check moments only against a second copy of the same formula.",
 [D+'continuous/', D+'discrete/'],
 [('density', 'HasLogDensity in each distribution file'), ('moment accessors', 'mean()/variance()/rate()/shape()/scale() in each distribution file'), ('support', 'Measure::in_support in each distribution file')],
 ['log_density().at(&x)', 'mean()', 'variance()', 'in_support(x)'],
 'runtime monitoring: quadrature/summation monitor over observed densities, conservation of total mass', "Quadrature is accurate to about 1e-6 for the parameter ranges drawn; a normalisation error below that is not seen by this check (C01 sees it).")

prop('C03', 'Exponential-family form gives the same density',
 "For every built-in exponential family, the density assembled from its natural parameters, sufficient statistic, log-partition and base measure equals the log-density the distribution itself reports, at every point and for all parameters in the interior of their range. The family's own combined evaluator and the generic one agree, and both are negative infinity outside the family's support.",
 ['inputs'], "all interior parameters × all points, f32 and f64",
 "The equality relates four separately written functions per family at every parameter and point; tests evaluate it at a few standard values.",
 [E+'traits.rs', E+'implementations.rs', D+'continuous/', D+'discrete/'],
 [('natural form', 'ExponentialFamily impl in each distribution file'), ('assembly', E+'traits.rs: compute_exp_fam_log_density, exp_fam_log_density')],
 ['compute_exp_fam_log_density', 'exp_fam_log_density', 'log_density().at(&x)'],
 'runtime monitoring: online differential oracle between natural form and reference density', "NegativeBinomial's natural form is a listed known finding (pinned by an existing test).")

prop('C04', 'Natural parameters round-trip and the log-partition generates moments',
 "Converting an interior parameter to its natural parameter and back gives the same distribution up to rounding, and no conversion of a finite natural parameter of the family's natural space overflows to an invalid distribution. The gradient of the log-partition with respect to the natural parameter equals the mean of the sufficient statistic.",
 ['inputs'], "all interior parameters / all finite natural parameters of moderate size, each family",
 "Round trips and the gradient identity range over the whole natural parameter space; tests convert a couple of values.",
 [D+'continuous/', D+'discrete/', E+'traits.rs'],
 [('conversions', 'ExponentialFamily::{to_natural, from_natural} in each distribution file'), ('log-partition', 'ExponentialFamily::log_partition in each distribution file')],
 ['to_natural', 'from_natural', 'log_partition', 'sufficient_statistic'],
 'runtime monitoring: round-trip and finite-difference gradient monitors', "The gradient is checked by central differences along the natural-parameter path (relative accuracy about 1e-5).")

prop('C05', 'Relative densities obey the chain rule and antisymmetry',
 "For measures sharing a root, the log-density of one with respect to another equals the difference of their log-densities with respect to the root at every point where both are finite. Hence it is zero for a measure against itself, changes sign when the two are swapped, and composes through any third measure; single-point, batch and builder routes return the same values.",
 ['inputs', 'programs'], "all ordered pairs of measures over a common root, including measures that store no parameters × all points of positive density",
 "The identity must hold for every pair of measure types; tests use a few pairs at a few points, mostly a distribution against another of the same family.",
 [C+'core/density.rs', C+'core/measure.rs'],
 [('same-measure short cut and subtraction through the root', C+'core/density.rs: EvaluateAt for LogDensity'), ('helpers', C+'core/density.rs: log_density_at, log_density_batch')],
 ['log_density().wrt(b).at(&x)', 'log_density_at', 'log_density_batch'],
 'runtime monitoring: algebraic-law monitors (self, antisymmetry, chain) plus reference oracle over all family pairs', "")

prop('C06', 'IID joint log-density is the sum of the marginals by every route',
 "The joint log-density of an independent identically distributed sample equals the sum of the individual log-densities, for samples of any length including the empty one (joint log-density zero), through every route the library offers. It is negative infinity as soon as one observation lies outside the support, and does not depend on the order of the observations.",
 ['inputs'], "all interior parameters × samples of any length, route and order",
 "Sample length, composition and route multiply; the tests use short samples, all in support, for a few families.",
 [E+'iid.rs', E+'traits.rs', C+'core/density.rs'],
 [('joint natural form', E+'iid.rs: IID, compute_iid_exp_fam_log_density'), ('sum of sufficient statistics', E+'traits.rs: SumSufficientStats')],
 ['iid().iid_log_density / log_density', 'compute_iid_exp_fam_log_density'],
 'runtime monitoring: conservation monitor (joint = sum of reference marginals) over samples, routes and permutations', "NegativeBinomial (all routes through its natural form) and boundary parameters giving infinite natural parameters are listed known findings.")

prop('C07', 'Structured decompositions evaluate to the sum of their terms',
 "A log-density decomposition evaluates at any point and parameter to the sum of all its data, parameter, mixed and constant terms, whatever the order in which they were added. Its sample evaluation equals the sum of its single-point evaluations over the sample (so parameter and constant terms count once per observation), its partial evaluations return exactly their own group, and a distribution's own decomposition equals its log-density.",
 ['inputs', 'histories'], "all sequences of added terms × points, parameters and sample lengths (including empty)",
 "Tests build one or two decompositions of the Normal; the property concerns every mix and order of terms and every sample length.",
 [C+'core/log_density_decomposition.rs', D+'continuous/normal.rs', D+'continuous/cauchy.rs', D+'continuous/student_t.rs'],
 [('evaluation of term groups', C+'core/log_density_decomposition.rs: LogDensityDecomposition'), ('per-distribution decompositions', 'HasLogDensityDecomposition impls')],
 ['evaluate', 'evaluate_iid', 'evaluate_param_terms', 'evaluate_data_terms', 'constant_sum'])

prop('C08', 'Cached log-densities are indistinguishable from uncached ones',
 "A cached log-density returns, for every query in every sequence of queries, the value the uncached log-density returns at that point, including for points that were queried before and points that compare equal. It asks the underlying density at most once per distinct point.",
 ['histories', 'inputs'], "all sequences of queries and repetitions, any number of distinct points",
 "Stale or mixed-up entries appear only after particular histories; tests query the same point twice.",
 [C+'core/density.rs'],
 [('memo table', C+'core/density.rs: CachedLogDensity')],
 ['cached().at(&x)'])

prop('C09', 'Product measures add log-densities over arbitrary nesting',
 "The log-density of a product measure at a pair equals the sum of the component log-densities at the components, for arbitrary nesting and mixtures of domains, and is negative infinity as soon as one component density is zero. A point is in the support of the product exactly when every component is in the support of its factor.",
 ['inputs', 'programs'], "all pairs and nestings of built-in measures × all points",
 "Nesting shape and component types multiply; the tests evaluate pairs of a few types.",
 [K+'combinators/product.rs', C+'core/density.rs'],
 [('component sum', K+'combinators/product.rs: HasLogDensity for ProductMeasure'), ('support', K+'combinators/product.rs: Measure for ProductMeasure')],
 ['product(..).log_density().at(&(x, y))', 'in_support'])

prop('C10', 'Mixture densities are weighted sums of component densities',
 "The density of a mixture equals the weighted sum of its component densities at every point, accurately (in relative terms) even where every component density underflows, and independently of the order of the components. It is zero exactly where every positively weighted component is zero, infinite where one is infinite, and never NaN; components of weight zero have no effect.",
 ['inputs', 'programs'], "all component lists and weight vectors × all points, including nested mixtures and uniform mixtures",
 "Underflow, dominated components and zero weights need specific inputs; tests use two or three well-separated Normals near their means.",
 [K+'combinators/superposition.rs'],
 [('log-sum-exp', K+'combinators/superposition.rs: HasLogDensity for MixtureMeasure'), ('weights', K+'combinators/superposition.rs: MixtureMeasure::{new, uniform}')],
 ['mixture.log_density().at(&x)', 'in_support'])

prop('C11', 'Pushforward densities obey the change-of-variables formula',
 "The log-density of a measure pushed forward through an invertible transformation equals the base log-density at the preimage plus the log absolute Jacobian of the inverse, at every point of the image, and is negative infinity outside the image. For the provided logarithm, exponential, affine and logit transformations the forward and inverse maps invert each other, the Jacobian is that of the inverse map, and the pushforward is again normalised.",
 ['inputs'], "all base measures, all transformation parameters, all points",
 "Correctness ties together three closures per transformation over the whole line; tests look at a few points of the log-normal and of one affine map.",
 [K+'combinators/pushforward.rs'],
 [('change of variables', K+'combinators/pushforward.rs: HasLogDensity for PushforwardMeasure'), ('transformations', K+'combinators/pushforward.rs: transforms')],
 ['pushforward(..).log_density().at(&y)', 'transforms::*'])

prop('C13', 'Derived base measures have their defining densities',
 "The factorial, binomial-coefficient, negative-binomial-coefficient, weighted and integral measures have, at every point, the log-density that defines them: minus log k!, log C(n,k), log C(k+r-1,k), the base log-density plus the log-weight, and the base log-density plus the given function. Zero coefficients give negative infinity, values are accurate up to the rounding of the log-factorials involved for all counts, and weights compose additively under nesting.",
 ['inputs', 'programs'], "all counts up to the range of the floating-point type, all parameters and nestings",
 "The coefficient identities cover all (n, k); table sizes and asymptotic switches put errors at particular counts the tests do not visit.",
 [K+'derived/factorial.rs', K+'derived/binomial_coefficient.rs', K+'derived/negative_binomial_coefficient.rs', K+'derived/weighted.rs', K+'derived/integral.rs'],
 [('log-factorial', K+'derived/factorial.rs: log_factorial'), ('coefficients', K+'derived/binomial_coefficient.rs, '+K+'derived/negative_binomial_coefficient.rs'), ('weights', K+'derived/weighted.rs, '+K+'derived/integral.rs')],
 ['log_factorial', 'log_binomial_coefficient', 'log_density().at(&k)'])

prop('C14', 'All evaluation routes of an expression agree with its meaning',
 "Evaluating a symbolic expression gives the value of the formula it denotes, by every evaluation route: with an environment, with a single variable, over batches, grids and variable tables, and through the specialised linear, polynomial and adaptive evaluators. Batch routes return one value per input in input order, and a missing variable is an error and never a silent default.",
 ['inputs', 'programs'], "all expressions × variable assignments × batch sizes, including empty batches and the widths at which an implementation may unroll",
 "Routes take shape-dependent short cuts; only randomised expression shapes and batch sizes reach every short cut, and tests use a handful of shapes.",
 [S+'expr.rs', S+'lib.rs'],
 [('interpreter', S+'expr.rs: Expr::evaluate and the evaluate_* family'), ('shape detection', S+'expr.rs: extract_linear_coefficients, evaluate_smart')],
 ['Expr::evaluate', 'evaluate_single_var', 'evaluate_batch*', 'evaluate_grid', 'evaluate_smart', 'evaluate_polynomial', 'evaluate_linear'])

prop('C15', 'Simplification preserves the value of an expression',
 "Simplifying an expression never changes its value: wherever the original and every part of it evaluate to finite numbers, the simplified expression evaluates to the same number up to rounding. Simplification terminates, never introduces variables, and simplifying again still preserves the value.",
 ['inputs', 'programs'], "all expressions × all assignments at which the original is finite (including negative and zero values)",
 "Rewrite rules interact and have side conditions on signs and zeros; tests check a few rewrites at positive points.",
 [S+'expr.rs'],
 [('rewrite rules', S+'expr.rs: Expr::simplify')],
 ['Expr::simplify', 'Expr::evaluate'])

prop('C16', 'Equality-saturation optimisation preserves the value',
 "Optimising an expression by equality saturation never changes its value: wherever the original and every part of it evaluate to finite numbers, the optimised expression evaluates to the same number up to rounding. The result of an optimisation does not depend on what the same optimizer object was asked before, and constants keep their full precision.",
 ['inputs', 'programs', 'histories'], "all expressions × assignments at which the original is finite × optimisation histories of one optimizer",
 "An unsound rule or a rounded constant shows only for particular expressions and points, and leaks between queries only for particular histories; tests optimise a few textbook identities with one fresh optimizer each.",
 [S+'optimization.rs'],
 [('rewrite rules and extraction', S+'optimization.rs: EgglogOptimizer')],
 ['EgglogOptimize::optimize_with_egglog', 'EgglogOptimizer::optimize', 'Expr::evaluate'])

prop('C17', 'Expression caches are transparent, also under concurrency',
 "Cached simplification and cached evaluation return what the uncached operations return, for every history of calls and clears and from any number of threads at once. The cache hits and misses reported add up exactly to the lookups made, and no interleaving deadlocks, poisons the cache or loses a result.",
 ['histories', 'schedules', 'inputs'], "all call histories × thread schedules",
 "Key collisions and races need particular pairs of expressions or particular interleavings; tests call each function once or twice from one thread.",
 [S+'expr.rs'],
 [('global caches and counters', S+'expr.rs: simplify_cached, evaluate_cached, get_cache_stats, clear_caches')],
 ['simplify_cached', 'evaluate_cached', 'get_cache_stats', 'clear_caches'])

prop('C18', 'Compiled expressions compute what the interpreter computes',
 "A natively compiled expression returns, for every input, the value the interpreter returns for the same expression up to rounding, including infinities and NaN where the interpreter gives them (a literal zero factor, which the interpreter short-cuts, aside). Where the interpreter reports a domain error only the absence of a crash is promised. Neither compiling nor calling it crashes the process, whatever finite or non-finite arguments it is called with.",
 ['inputs', 'programs'], "all expressions × all argument values (ordinary, huge, tiny, negative, zero, infinite, NaN)",
 "Compiled code is a second implementation of the language with its own approximations; tests call a few compiled formulas at one or two comfortable arguments.",
 [S+'jit.rs'],
 [('code generation', S+'jit.rs: generate_cranelift_ir and generate_*_call'), ('call thunks', S+'jit.rs: GeneralJITFunction')],
 ['GeneralJITFunction::call_single', 'call_data_param', 'call_batch'])

prop('C19', 'Compiled functions bind arguments by declared order and stay valid',
 "A compiled function binds its data variables and parameters in the order in which they were declared, for every signature the compiler accepts and every calling method that supports it; calling methods that do not fit the signature are refused, names that were not declared make compilation fail, and an order that the compiler works out by itself is the same every time. Compiled functions are independent of each other and of the compiler that made them, also when they are compiled, called and dropped on different threads at once, and give the same results each time.",
 ['inputs', 'programs', 'schedules', 'histories'], "all signatures × argument vectors × compile/drop/call histories × thread schedules",
 "Argument order and code lifetime errors depend on signature, hashing order and drop order; tests compile one function, use it at once and drop it.",
 [S+'jit.rs', S+'final_tagless.rs'],
 [('signatures', S+'jit.rs: GeneralJITCompiler::compile_expression'), ('ownership of code memory', S+'jit.rs: GeneralJITFunction'), ('compile entry points', S+'final_tagless.rs: JITEval')],
 ['compile_expression', 'compile_custom_expression', 'JITEval::compile*', 'call_*'])

prop('C20', 'Every interpretation of a generic expression agrees',
 "An expression written once against the generic expression interface has the same meaning in each interpretation: direct evaluation gives its mathematical value in f32 and f64, its compiled form gives the same value, and its printed form denotes the same formula. The derived statistical helpers (logistic, softplus, sigmoid-like functions and the like) equal their defining formulas for every finite argument, without overflow.",
 ['inputs', 'programs'], "all expressions built from the interface × arguments, both crates that provide the interface",
 "Each interpreter is separate code per operation; tests evaluate a few formulas at a few points in one or two interpreters.",
 [S+'final_tagless.rs', M+'final_tagless.rs'],
 [('interpreters', S+'final_tagless.rs and '+M+'final_tagless.rs: DirectEval, PrettyPrint, JITEval'), ('helpers', 'StatisticalExpr')],
 ['DirectEval', 'PrettyPrint', 'JITEval'])

prop('C21', 'Rendered text denotes the same formula',
 "The plain-text, Python and LaTeX renderings of an expression denote the same formula as the expression: read back under the usual precedence rules of the notation, each evaluates to the same value at every assignment. Distinct formulas with different values are never rendered as the same text, and constants keep their value.",
 ['programs', 'inputs'], "all expressions (nestings of every pair of operators, negative constants, tiny and huge constants) × assignments",
 "Precedence and parenthesisation errors occur for particular parent/child operator pairs; tests look for substrings in a few outputs.",
 [S+'expr.rs'],
 [('renderers', S+'expr.rs: Display, to_python, to_latex, display')],
 ['format!("{}")', 'to_python', 'to_latex', 'display::*'])

prop('C22', 'Bayesian building blocks denote the stated log-densities',
 "The likelihood, prior, posterior, hierarchical and mixture expression builders denote the log-densities they are named for, at every assignment of data and parameters: a normal likelihood or prior is the normal log-density, a posterior is the sum of log-likelihood and log-prior, and a mixture likelihood is the log of the weighted sum of densities (wherever that sum neither underflows nor overflows). A hierarchical log-density is the sum of its log-likelihood and its two log-priors. Evaluating them through the compiled Bayesian optimizer gives the same values as interpreting the expression.",
 ['inputs', 'programs'], "all variable names, data, parameters and weights",
 "The existing tests pin only the shape of the produced expressions; the value must hold for every assignment.",
 [B+'bayesian/mod.rs', B+'lib.rs'],
 [('builders', B+'bayesian/mod.rs: expressions'), ('compiled evaluation', B+'bayesian/mod.rs: BayesianJITOptimizer')],
 ['expressions::*', 'BayesianJITOptimizer::evaluate_*'])

prop('C23', 'Polynomial helpers evaluate the polynomial they are given',
 "Horner evaluation of a coefficient list, its expression form, construction from roots and the derivative helper all agree with the polynomial they stand for: the value of the polynomial, the product over the roots, and the value of the derivative, for any degree including the empty and constant cases and in every interpretation.",
 ['inputs'], "all coefficient and root lists × points",
 "Degree-dependent indexing and edge cases range over all lists; tests evaluate a quadratic and a cubic.",
 [M+'final_tagless.rs', S+'final_tagless.rs'],
 [('polynomial helpers', M+'final_tagless.rs: polynomial')],
 ['polynomial::horner', 'horner_expr', 'from_roots', 'horner_derivative'])

prop('C24', 'Optimised density evaluators equal the standard log-density',
 "Every optimised evaluator obtained for a distribution — pre-computed closures, macros and inlined functions, and compiled ones — returns the distribution's log-density at every point of its support, for every interior parameter and relative to the base measure asked for. Asking for an optimised evaluator either yields such a function or a reported error, never a wrong function.",
 ['inputs', 'programs'], "all interior parameters × points × optimiser routes × base measures",
 "Optimisers bake parameters into code: an error in what is baked shows only for parameters and points other than the few standard ones in the tests.",
 [E+'jit.rs', E+'auto_jit.rs', D+'continuous/normal.rs', D+'continuous/exponential.rs'],
 [('pre-computed evaluators', E+'jit.rs: ZeroOverheadOptimizer, StaticInlineJITCompiler'), ('compiled evaluators', E+'jit.rs: CustomJITOptimizer; '+E+'auto_jit.rs')],
 ['zero_overhead_optimize*', 'static compile', 'compile_custom_jit', 'auto_jit'])

prop('C25', 'Numeric support code is exact or reports failure',
 "The checked numeric conversions return the mathematically equal value of the target type (correctly rounded for floating-point targets) or their documented default, for every input value that double precision represents exactly (fractions are truncated toward zero for integer targets), and the fallback variant returns the fallback exactly when the target type cannot represent the value. Vector helpers (dot products, element-wise sums and differences, sums of a list of arrays) equal the sums they denote for every length.",
 ['inputs'], "all input values of every numeric type pair used × all array lengths",
 "Edge values (extremes, non-finite, rounding ties) and lengths are many; tests convert a few small integers.",
 [C+'core/utils.rs', C+'traits/dot_product.rs', E+'array_utils.rs'],
 [('conversions', C+'core/utils.rs'), ('vector helpers', C+'traits/dot_product.rs, '+E+'array_utils.rs')],
 ['safe_convert', 'safe_convert_or', 'safe_float_convert', 'dot', 'add_arrays', 'sum_arrays'])

prop('C26', 'Constructors accept exactly the valid parameters and keep them',
 "Every distribution and mixture constructor accepts all parameters that define a valid distribution, including boundary values it documents as allowed and probability vectors that sum to one up to rounding. It rejects every parameter that does not: non-positive or NaN scales, rates, shapes and degrees of freedom, probabilities outside their range, mismatched lengths, empty or non-normalised weight vectors. The distribution built is the one asked for: the given parameters come back from its fields and accessors unchanged at every magnitude (weights up to rounding, components in order), the alternative constructors convert correctly, and the default values are the standard members of their families.",
 ['inputs'], "all parameter values including NaN, signed zero, subnormal and values one ulp outside the range; weight vectors of any length",
 "Acceptance is a predicate on all floating-point values; tests try one or two invalid values for some constructors.",
 [D+'continuous/', D+'discrete/', K+'combinators/superposition.rs'],
 [('validation', 'new() in each distribution file and MixtureMeasure::new')],
 ['constructors'],
 'runtime monitoring: acceptance/panic monitor against an independent validity predicate, and parameter read-back', "")

prop('C27', 'Generic density patterns denote the named log-densities',
 "The generic (interpretation-independent) log-density formulas for the named distributions and exponential-family helpers denote, when evaluated, the log-density of that distribution at every point of its support for all valid parameters, and in every interpretation that supports them (as long as the squares and products the formula names stay within range). The accompanying numeric helpers (log-sum-exp, log-gamma, log-factorial and softplus-like functions) are accurate and do not overflow for finite arguments.",
 ['inputs', 'programs'], "all valid parameters × support points × interpretations",
 "The formulas are a second implementation of every density; tests check one standard point per pattern.",
 [D+'final_tagless.rs', E+'final_tagless.rs'],
 [('patterns', D+'final_tagless.rs; '+E+'final_tagless.rs')],
 ['DirectEval of each pattern', 'JIT/printed forms'])

prop('C28', 'No execution triggers undefined behaviour or memory errors',
 "No sequence of safe uses of the public API (memory and stack exhaustion aside) makes the process crash, access memory outside a live allocation, call code that has been freed, or race on shared data; this includes compiling, sharing, calling and dropping compiled functions and using the global caches from several threads.",
 ['histories', 'schedules', 'programs'], "all call histories and thread schedules of the public API",
 "Memory errors and races are invisible to value assertions and appear only under particular histories and schedules; the tests are single-threaded and uninstrumented.",
 [S+'jit.rs', S+'expr.rs', C+'core/density.rs'],
 [('function-pointer calls', S+'jit.rs: unsafe transmutes'), ('shared caches', S+'expr.rs'), ('interior mutability', C+'core/density.rs')],
 ['sanitizer and interpreter reports'])

prop('C29', 'Densities evaluated in a generic number type carry its derivatives',
 "Evaluating a log-density in a number type that propagates derivatives (dual or hyperdual numbers implementing the usual floating-point interface) yields the value a plain f64 evaluation yields together with the correct first and second derivative of the log-density. This holds with respect to the point for the continuous distributions on their own, relative to one another, in products, mixtures, IID joints and decompositions, and in the exponential-family form; and with respect to parameters that enter through elementary functions (locations, scales, rates, success probabilities). Shape parameters inside a log-gamma are excepted.",
 ['inputs', 'programs'], "all interior parameters × all points inside the support × evaluation routes × user-supplied number types",
 "The tests evaluate in f32 and f64 only, where a conversion through f64 inside a formula is invisible; it silently turns every derivative into zero for the number types the documentation promises.",
 [C+'core/density.rs', C+'core/log_density_decomposition.rs', D+'continuous/', D+'discrete/', E+'traits.rs', E+'iid.rs', K+'combinators/superposition.rs', K+'combinators/product.rs'],
 [('generic densities', 'HasLogDensity in each distribution file'), ('assembly of the natural form', E+'traits.rs'), ('joint, product and mixture combination', E+'iid.rs; '+K+'combinators/')],
 ['log_density().at(&dual)', 'wrt(..).at(&dual)', 'exp_fam_log_density', 'iid_log_density', 'log_density_decomposition().evaluate'])

prop('C30', 'Generic programs and helpers carry derivatives like values',
 "A generic expression program run directly in a number type that propagates derivatives (dual or hyperdual numbers with the usual floating-point interface) yields the value the plain f64 run yields together with the first and second derivative given by the rules of calculus, wherever the program is differentiable. This holds for every operation and elementary function of the generic interface, in the direct interpreters of every crate that has one, and for the helper formulas built on them: logistic, sigmoid, softplus, numerically stable log-sum-exp, and the polynomial helpers (evaluation, derivative, construction from roots), also with respect to the polynomial's coefficients and roots.",
 ['inputs', 'programs'], "all programs × variables × points of differentiability × direct interpreters × derivative-propagating number types",
 "The documentation promises that the direct interpreters work with automatic-differentiation types; the tests evaluate in f64 only, where a constant rebuilt from f64 or a branch that drops the derivative is invisible.",
 [S+'final_tagless.rs', 'mathjit/src/final_tagless.rs', D+'final_tagless.rs', E+'final_tagless.rs'],
 [('direct interpreters', 'DirectEval, ExpFamEval, DistributionEval'), ('helpers', 'SummationOps/StatisticalExpr helpers and polynomial module')],
 ['direct evaluation in dual numbers'])

TECH = {}
exec(open(os.path.join(V, 'tools', 'built.py')).read())
for k, (t, n) in TECH.items():
    BUILT[k] = (t, n)

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='bash check.sh build',
  checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick bash check.sh '+p['id'], thorough_cmd='VERIF_TIER=thorough bash check.sh '+p['id'],
               evidence_file='evidence/%s.json' % p['id'], technique=BUILT[p['id']][0], level='exploration', level_note=(COMMON+(BUILT[p['id']][1] or '')).strip())
          for p in P if p['id'] in BUILT],
  not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'Applicable, but its monitor is not built yet.')) for p in P if p['id'] not in BUILT])
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
