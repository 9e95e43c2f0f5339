"""The checks: property -> jobs and description."""
from . import c_causal, c_defaults, c_bound, c_int, c_jac, c_psd, c_sum, c_spec, c_pred, c_ess, c_flow, c_jit, c_use, c_val, c_nf, c_num, c_pipe, c_sym, c_vs

COMMON = [
    "The transfer functions for library calls (LAB, NumPy, JAX, varz, probmods, mlkernels, stheno) describe these libraries.",
    "Unknown branches are explored both; loops over unknown numbers of items are iterated abstractly.",
]

SPECS = {}


def spec(pid, jobs, technique, explanation, min_ok, level="other", assumptions=(), **kw):
    SPECS[pid] = dict(jobs=jobs, technique=technique, explanation=explanation, level=level, min_ok=min_ok, assumptions=COMMON + list(assumptions), **kw)


spec(
    "C01", c_pipe.jobs("C01"), "abstract interpretation with a dimension (units of measure) domain",
    "Every function behind the public interface is interpreted, for each model and scheme, over a domain of units: each value carries the exponent of the unit of time and the coefficient of its logarithm. Each result, stored variable, model attribute, bound of a learnable variable and objective must have the exponent that the property demands; sums, comparisons and arguments of transcendental functions with different units are inconsistencies, and they are reported if they reach a result.",
    1500,
)
spec(
    "C02", c_pipe.jobs("C02"), "abstract interpretation with a dimension (units of measure) domain",
    "As C01, for the unit of the observations: the exponent of the unit and the coefficient of its logarithm (-n for every bound, n for objectives) of every result and stored variable.",
    2000,
)
spec(
    "C04", c_pipe.jobs("C04"), "abstract interpretation with a shift-derivative domain",
    "Every value carries the derivative with respect to a common shift of the time origin, as a symbolic normal form; it must vanish for every result, stored variable and integral (and equal the weight of a time for locations). Non-zero derivatives are confirmed by comparing the normal form of the value at shifted symbolic inputs.",
    1000,
)
spec(
    "C05", c_pipe.jobs("C05"), "abstract interpretation with symbolic shapes",
    "All shapes are interpreted symbolically in pairwise different sizes (data, predictions, lags, inducing points, excitation features, samples); reductions, products, stacks, reshapes and indexing are checked for conformance, and every result and stored variable must have its documented shape.",
    900,
)

spec(
    "C06", c_sym.jobs("C06"), "abstract interpretation with symbolic normal forms of array expressions",
    "Covariances and integrals are interpreted to a normal form of tensor expressions in symbolic inputs and hyperparameters; the normal form and that with exchanged arguments and axes must be identical. Differences of normal forms are confirmed by evaluating both at several symbolic points before they are reported.",
    10, anchors={"symmetries": 8},
)
spec(
    "C07", c_flow.jobs("C07"), "abstract interpretation with a typestate domain for random states",
    "Every random state is a token with the root of its stream; a draw consumes the token and yields a new one with the same root, and states that are created from one constant seed are the same token. Interpreting all public operations (with loops iterated abstractly): no consumed token may be drawn from, stored globally or returned; after every operation the global state must continue its stream; a routine that is given a state must return the continuation of that state and its result must not depend on draws from the global state.",
    60, anchors={"draws": 40, "explicit states": 20},
)
spec(
    "C08", c_flow.jobs("C08"), "abstract interpretation with operation trees, under two orders of iteration over sets",
    "All public operations, the integrals of the models and polynomials with symbolic coefficients are interpreted twice, with sets iterated in ascending and in descending order of their contents. The tree of floating-point operations (with addition and multiplication of two numbers commuting) of every result and stored value must be the same.",
    200, anchors={"orders": 200},
)
spec(
    "C09", c_val.jobs("C09"), "abstract interpretation with an alias and effect analysis",
    "Every array, list and dictionary that a caller supplies carries its identity through views (slices, transposes, reshapes, conversions without a copy) and through attributes; every operation of every model and scheme with its documented options, the integrals, the polynomials and all utilities are interpreted, and no in-place modification (augmented assignment, assignment to elements, mutating methods and functions, output arguments) may reach a value that shares memory with one of them.",
    150, anchors={"operations": 200},
)
spec(
    "C10", c_val.jobs("C10"), "abstract interpretation with symbolic coefficients (effects, result classes, equalities)",
    "The value classes are interpreted on polynomials in several variables with concrete structure and symbolic coefficients: a catalogue of operations covers every public method and operator, with cancellation, zero, one, and powers from zero on. The result must be of the class that the algebra demands, no observable of any operand (value, degrees, dependence, number of terms) may change, and catalogues of equal and different expressions must compare so in both directions with equal hashes, under both orders of iteration over sets.",
    120, anchors={"operations": 150, "equalities": 100, "hashes": 15},
)
spec(
    "C11", c_use.jobs("C11"), "abstract interpretation of scheme selection and fitting with an event trace",
    "Every documented scheme name is interpreted as a constant, in several spellings, through construction, instantiation, fitting, conditioning and fitting again, for every model. The trace of optimiser calls and of assignments to stored posterior variables before and after them must be the documented sequence of the scheme (coordinate ascent, optimiser, collapsed factor, samples), the objective must depend on exactly the factors that are not collapsed, and unknown schemes, fit methods and collapsed factors must raise a value error on every path.",
    300, anchors={"scheme operations": 60, "rejections": 10},
)
spec(
    "C12", c_use.jobs("C12"), "whole-program abstract interpretation of call binding (arguments, overloads, attributes, unpacking)",
    "Every operation of every model and scheme with its documented options, the integrals, all utilities, every script of the experiments (its body interpreted as a function) and the common driver of the experiments are interpreted; at each call site reached, the arguments must bind to the callee that the receiver's class provides (including multiple dispatch and keyword arguments forwarded through dictionaries), attributes must exist, tuples must unpack, and objectives must give what the optimiser needs.",
    400, anchors={"interpreted calls": 40000},
)
spec(
    "C13", c_use.jobs("C13"), "abstract interpretation with a dependency (taint) domain on stored variables",
    "Every stored posterior variable is a source. For every model and scheme, the sources that each component of each prediction depends on must be posterior variables that the fit of that scheme writes or optimises, with the current index, and include the factors that the prediction is about; predictions of a model that is not conditioned depend on none.",
    500, anchors={"predictions": 500},
)
spec(
    "C14", c_use.jobs("C14"), "abstract interpretation with an effect analysis on stored variables",
    "The effects of every operation on stored variables are collected for every model and scheme, over a history of fitting, bounds, conditioning, predicting, fitting again and conditioning again: predictions, samples and conditioning write nothing, fits and bounds write only posterior variables with the current index, and the names given to optimisers exclude every earlier posterior.",
    300, anchors={"operations": 300, "optimisations": 20},
)
spec(
    "C15", c_vs.jobs("C15"), "abstract interpretation of the map of variables with trace partitioning",
    "The names and shapes of all variables of every model and scheme are collected by interpreting construction, fitting and conditioning. Saving and loading are then interpreted on explicit maps of these names to opaque values, for six combinations of what is saved and what exists when it is loaded. Conditions on values or shapes are partitioned in both ways. Every saved value must be found unchanged under its name, no other variable may change, appear or disappear, and no kind of variable may restrict its value.",
    1500, anchors={"values": 1000, "round trips": 120},
)
spec(
    "C16", c_val.jobs("C16"), "abstract interpretation with provenance of hyperparameters",
    "For each model, each way to give hyperparameters and all eight combinations of the fixing options, construction and instantiation are interpreted: each scale-like hyperparameter must be the given value if it is fixed and otherwise stem from exactly one variable that is registered with a positive domain and the given value as start; each option must remove exactly one variable, independently of the others, and no variable may stand for two quantities.",
    200, anchors={"hyperparameters": 200, "options": 27},
)
spec(
    "C17", c_nf.jobs("C17"), "abstract interpretation with symbolic normal forms of array expressions",
    "Predictions of every scheme are interpreted to normal forms over atoms for the integrals, hyperparameters and stored posterior variables, and compared with the reference: average of second moments minus squared average of first moments plus the noise once.",
    10, anchors={},
)
spec(
    "C18", c_causal.jobs("C18"), "abstract interpretation with symbolic normal forms of integration limits",
    "Every integral of exponentiated quadratics in the integrals of the models is intercepted, for both settings of causality, by default and explicitly, and for automatically and explicitly constructed models. The integration variables that are excitation times are recognised by the integrand, which must not change when they are shifted together with the observation times and the inducing points of the excitation. In the causal model, their upper limit must be identical to the (earliest) observation time and in the acausal model they must cover the whole axis. The kernel of the filter is evaluated at symbolic negative and positive lags, of either sign in each argument: in the causal models it must be identically zero unless both are positive, and otherwise it must not vanish.",
    50, anchors={"limits": 60, "lags": 24},
)
spec(
    "C19", c_sum.jobs("C19"), "abstract interpretation: provenance of order statistics",
    "The function that summarises samples is interpreted on symbolic samples, in linear and decibel scale, and the predictions of all models and schemes are interpreted with it. Every bound of a band must be one order statistic, taken over the axis of the samples, whose level is known; the levels of the two bounds must add to one, be ordered and enclose the advertised mass, and wider bands must have wider levels. As quantiles commute with increasing functions, replacing the order statistic by a sample in the value of a bound must give the transform of the sample. The mean must be the mean over the samples for each input.",
    200, anchors={"bounds": 100},
    assumptions=["The sample quantile at level q converges to the quantile at level q."],
)
spec(
    "C20", c_psd.jobs("C20"), "abstract interpretation: order typestate of spectral vectors in symbolic normal forms",
    "The spectral estimate is interpreted on a symbolic kernel and a symbolic equally spaced grid of any length and padding, in linear and decibel scale. Elementwise functions commute with rearranging a vector, so every value is an expression in spectral symbols that remember how they were shifted, reversed, sorted, masked or sliced, and an automaton over this history decides the order (using that the length of the transform is even). The frequencies that are returned must be increasing and non-negative, the values must be in the same order, the integral that normalises must be over increasing frequencies with their own values, and the value that is returned must be identical to the value that is integrated times the kernel at lag zero over the integral. Grids that start before or after zero must be rejected in every branch.",
    12, anchors={"estimates": 5},
    assumptions=["numpy.fft returns frequencies in its documented order."],
)
spec(
    "C21", c_ess.jobs("C21"), "abstract interpretation with symbolic normal forms and trace partitioning",
    "The sampler is interpreted with an opaque likelihood, opaque draws of the prior and symbolic random numbers. Traces are partitioned by the outcomes of comparisons: all patterns of up to three rejections at positive or negative angles, chains of several samples and calls, moves, and attempts that fail. In every partition each proposal must lie on the ellipse through the current state and a fresh draw of the prior, at an angle drawn from the bracket that results from the previous rejections and contains the current state, be compared through its own log-likelihood with a slice height that is the log-likelihood of the current state minus a fresh standard exponential draw, and be stored together with its own log-likelihood exactly if it exceeds the height; failed attempts share no draws with later ones. The obligations relate consecutive steps only, and so hold by induction for traces of any length that repeat these steps.",
    140, anchors={"proposals": 150, "traces": 15},
    assumptions=["Draws by numpy.random are independent and have the named distributions."],
)
spec(
    "C22", c_jit.jobs("C22"), "abstract interpretation with an effect and capture analysis of compiled functions",
    "Every function that is handed to the compiler or traced by an optimiser is interpreted in every operation of every model and scheme, in four histories, and in the utilities. Within it, the following are violations: assigning attributes, elements or variables that outlive the call, creating, assigning or deleting stored variables, reading or setting the global random state, results that depend on random numbers drawn while tracing, input and output, reading the clock, reading a captured variable or attribute that differs between two calls of the same compiled function, and instantiating the model of an objective without the variables that the optimiser passes.",
    100, anchors={"compiled calls": 400, "objectives": 30},
)
spec(
    "C23", c_nf.jobs("C23"), "abstract interpretation with symbolic normal forms in which values that are held constant are marked",
    "The objectives that fitting hands to an optimiser, and the Gibbs objective, are interpreted to normal forms in which a value that is held constant in differentiation is the same expression at another point. For the structured scheme the objective must equal the reference in which the latest sample of u is held constant in every term and nothing else is; for the other schemes it must equal the bound with nothing held constant. This is decided for first and second posteriors of every model.",
    20, anchors={"objectives": 40},
)
spec(
    "C25", c_nf.jobs("C25"), "abstract interpretation with symbolic normal forms of array expressions",
    "Every evidence bound, and every objective handed to an optimiser by the fit of every scheme, is interpreted to a normal form over atoms for integrals, hyperparameters and posterior variables, and compared with the reference bound: expected log-likelihood minus the divergence of each factor from its current prior. Names excluded from optimisation and stored factors are compared as well.",
    30, anchors={},
)
spec(
    "C26", c_num.jobs("C26"), "abstract interpretation with symbolic normal forms of array expressions",
    "Each model is constructed without its amplitudes, in six ways to give its other parameters, with and without fixing them, and instantiated with every variable at its initial value. The prior variance of the function, from the kernel integral at equal times, and the diagonal of the covariance of the inter-domain inducing variables are interpreted to normal forms in the given parameters; they must be the constant one.",
    60, anchors={"amplitudes": 100},
    assumptions=["Identities that hold in normal form or at random points of the symbols count as identities; a differing value at a random point is a violation."],
)
spec(
    "C27", c_nf.jobs("C27"), "abstract interpretation with symbolic normal forms of array expressions",
    "The moments that predictions use and the bound are interpreted to normal forms over the same atoms; the terms of the bound must equal the sums of the moments over the observation times.",
    5, anchors={},
)
spec(
    "C28", c_nf.jobs("C28"), "abstract interpretation with symbolic normal forms of array expressions",
    "The natural parameters that every update, Gibbs step and collapsed factor produces are interpreted to normal forms over atoms for the integrals and the current state of the other factor, and compared with the stationary point of the bound, for consecutive iterations and after conditioning.",
    30, anchors={},
)
spec(
    "C29", c_nf.jobs("C29"), "abstract interpretation with symbolic normal forms of array expressions",
    "The methods of the distribution are interpreted on symbolic natural parameters; mean, variance, second moment, divergence, log-density, conversions, and the affine map that samples apply to standard normals are compared with their definitions as normal forms.",
    12, anchors={},
)

spec(
    "C30", c_int.jobs("C30"), "abstract interpretation with symbolic normal forms, identity of normal forms with the defining integrals",
    "Every integral routine is interpreted to a normal form in the hyperparameters, times and inducing points (for the rough model also in the order and frequency of the basis, block by block), and every integral of an exponentiated quadratic with symbolic coefficients over each combination of lines, half-lines and boxes. A normal form must be the same function as the defining integral of the model's densities: both are evaluated, from the expressions alone, at several points in the admissible domain (identity testing of analytic expressions).",
    60, anchors={"definitions": 80},
    assumptions=["Identity of two analytic expressions is decided at randomly placed points of the admissible domain, on either side of every case distinction; the frequencies of the basis are in their default, increasing order."],
)

spec(
    "C31", c_bound.jobs("C31"), "abstract interpretation with symbolic normal forms, Jensen's inequality applied to the defining integrals",
    "Every evidence bound that a model reports is interpreted to a normal form over the integrals of the model and the stored factors, and every integral to a normal form in the hyperparameters, times and inducing points. By Jensen's inequality, the expected log-likelihood under the model as it is defined minus the divergences of the factors is at most the log evidence, whatever the factors are; the composed value may not be larger. Both are evaluated, from the expressions alone, at several points of the admissible domain. Estimates must draw their samples from the factor whose divergence they charge.",
    20, anchors={"bounds": 30},
    assumptions=["That one analytic expression never exceeds another is decided at randomly placed points of the admissible domain."],
)

spec(
    "C34", c_spec.jobs("C34"), "abstract interpretation with a domain of spectra over the graph of operations",
    "The transform to minimum phase is interpreted to the graph of its operations, over which spectra are linear combinations of the log-magnitude and the phase of the given filter and their Hilbert transforms. The spectrum of the result must have the log-magnitude of the given filter, as phase minus the Hilbert transform of that, which characterises minimum phase, and the symmetry of a real signal. In the prediction of the filter of every model, exactly the transformed samples are summarised, one filter at a time, and times start at zero, if minimum phase is asked for or by default, and otherwise neither is done.",
    80, anchors={"transforms": 1, "predictions": 60},
    assumptions=["The spectrum of a filter has no zeros, and the Hilbert transform is that of the periodic, sampled log-magnitude: zeros within the unit circle are exact in the limit of dense sampling of the frequency."],
)
spec(
    "C35", c_spec.jobs("C35"), "abstract interpretation with a domain of functions of eigenvalues over the graph of operations",
    "The repair of a matrix is interpreted to the graph of its operations, over which matrices are functions of the eigenvalues of the symmetric part of the input, and singular vectors are any valid basis. For eigenvalues of every combination of signs, and for equal, opposite and zero eigenvalues, the result must have the eigenvectors of the symmetric part and the positive parts of its eigenvalues (the unique closest positive semi-definite matrix), or, for the inverse, their reciprocals.",
    0, anchors={"eigenvalues": 20},
    assumptions=["Functions of eigenvalues are compared at chosen eigenvalues. Arithmetic is exact."],
)
spec(
    "C36", c_flow.jobs("C36"), "abstract interpretation with operation trees, after different histories of the process, and an analysis of sources of chance",
    "Every operation of every model and scheme, and every integral, is interpreted twice with the same inputs and the same global random state: in a fresh process, and after another model was constructed, fitted and used with other data in the same process, with what outlives a call (variables of modules, attributes of classes and functions, default arguments) kept. The trees of floating-point operations of all results and stored values must be the same. No result, stored value, seed, or condition that ends a loop may depend on the clock or on random numbers that the global seed does not determine.",
    1000, anchors={"repetitions": 400, "results": 300},
    assumptions=["The same floating-point operations on the same inputs give the same numbers: the numerical libraries are deterministic on one platform."],
)

spec(
    "C37", c_pred.jobs("C37"), "abstract interpretation with symbolic normal forms, moments of affine functions of symbolic draws by Wick's formula",
    "The kernel given inducing variables is interpreted to a normal form over the integrals of the model and compared with its definition. Every prediction of a kernel, a spectrum and a filter, under the prior and the posterior of every model, is interpreted with symbolic draws: what is summarised must be exactly the sampled kernels, spectra of these, or conditional samples of the filter, at the times that are given, given values of the inducing variables whose mean and covariance, computed from the draws, are those of the prior or the posterior (or which are the stored samples). Samples of the prior must have the kernel plus the noise as covariance, and the kernel must be given draws with covariance K_u. The covariance of the filter that is conditioned must be that of the inducing variables.",
    400, anchors={"identities": 150, "draws": 50, "lags": 40, "kernels": 1},
    assumptions=["Standard normal draws are independent; the repair of an indefinite covariance is that of C35."],
)

NOT_APPLICABLE = {
    "C32": "Positive definiteness and its numerical preservation depend on runtime values (spacing of points, conditioning, rounding).",
    "C33": "Convergence and mixing are properties of runtime trajectories.",
}
spec(
    "C24", c_defaults.jobs("C24"), "documentation and signature analysis, and abstract interpretation of constructors with symbolic normal forms",
    "Every default that the documentation of a parameter states, of every function, method and class of the package and the experiments and in the README, is compared with the value that the parameter has if it is not given: the default of the signature, or the value that the body or the function it is handed on to replaces None with. Constructors of the models are interpreted without each documented parameter and with its documented value, and all their attributes must be identical; defaults that are documented in words (normalised to unity power, multiples of spacings, twice the length scale, the span of the data, frequencies of the basis) must be identical to the attributes that result; integrals without times must be identical to integrals at time zero. Constructors of the models, methods of the same name of the approximations and of the model, and overloads must have the same defaults for the parameters that they share.",
    60, anchors={"documented defaults": 40, "siblings": 6, "defaults in words": 10},
)
spec(
    "C03", c_jac.jobs("C03"), "abstract interpretation with dimensional analysis (one dimension per integration variable) and symbolic normal forms",
    "Integrals over the line, over half-lines, and over boxes of a general exponentiated quadratic in two variables, and of one in completed squares, are interpreted for every ordered choice of one or two variables and every combination of limits (none, above, below, both, given as variables, values and polynomials), with coefficients of any value and of shapes of rank zero to two. The two variables have independent dimensions, and the coefficients have the dimensions that make the exponent dimensionless; the result must have dimension one in every integrated variable and zero in the other. Dimensions are checked at every operation on the way, so every result is homogeneous in every rescaling of either variable. Results for the two orders of naming variables must be identical.",
    350, anchors={"integrals": 300, "orders": 60},
    assumptions=["Square roots are not clipped: quadratic coefficients are larger than 1e-30 in magnitude."],
)
