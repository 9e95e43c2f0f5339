"""Regenerates /verif/properties.jsonl (documentation only; no check reads this)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
G, R, M, A, N, E, U, S, X = ("gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/model.py", "gpcm/approx.py",
    "gpcm/normal.py", "gpcm/exppoly.py", "gpcm/util.py", "gpcm/sample.py", "experiments/experiment.py")
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

p("C01", "Results do not depend on the unit in which time is measured",
  "If every time input (data, prediction and inducing times, window, length scale) is multiplied by a positive constant and the model is built from those inputs, then the evidence bound, the predicted means, variances and kernels are unchanged, predicted frequencies are divided by that constant, and the prior covariances and integrals that form the model are multiplied by the fixed power of the constant that their units imply. Tolerances of iterative algorithms are exempt. This holds for the acausal, causal and rough model and for every approximation scheme.",
  ["inputs", "configurations"], "every positive rescaling of time, every data set, every window/scale, three models x seven schemes",
  "The tests evaluate single fixed parameter values; the equivariance quantifies over all rescalings and hyperparameters, and the parts that combine the integrals (approx.py, util.py) are not tested at all.",
  [G, R, A, M, U], [("constructor derives alpha, gamma, omega, lam, extent, t_u, t_z", G + ":GPCM.__init__, " + R + ":RGPCM.__init__"),
   ("integrals", "compute_i_hx/I_ux/I_hz/I_uz/K_u/K_z in " + G + " and " + R), ("terms, optimal factors, ELBOs, predictions", A), ("PSD frequencies", U + ":estimate_psd")])
p("C02", "Rescaling the observations rescales predictions and shifts the bound by n log c",
  "If the observations are multiplied by c > 0, the noise variance by c squared and the window amplitude by c, then predicted means scale by c, predicted variances and kernels by c squared, predicted filters by c, and every evidence bound decreases by exactly n log c, where n is the number of observations. This holds for every model, approximation scheme and collapsing choice.",
  ["inputs", "configurations"], "all c, all data, all models and schemes, all collapsed variants of the bound",
  "No test evaluates a bound or a prediction; equality under all rescalings is a statement about every term of the expressions.",
  [A, N, M, G, R], [("ELBOs", A + ":elbo, elbo_collapsed_z, elbo_gibbs, log_Z_u"), ("KL and log-density in natural parameters", N), ("kernel and filter predictions", M)])
p("C03", "Gaussian-type integrals transform with the Jacobian of each variable",
  "When the variables of an exponentiated polynomial are rescaled, its integral over the whole line, over half-lines, or over a box with correspondingly rescaled limits is multiplied by the Jacobian of the integrated variables and by nothing else, whichever variables are integrated and in whichever order they are named.",
  ["inputs"], "all exponentiated quadratics, all subsets of one or two variables, all rescalings of each variable separately",
  "The tests compare a few integrals with quadrature at one value of the coefficients, most of them symmetric in the variables.",
  [E], [("full-line integral", E + ":ExpPoly._integrate"), ("half-line integrals", E + ":_integrate_half1, _integrate_half2"), ("box", E + ":integrate_box, translate_var")])
p("C04", "Shifting the time origin changes nothing",
  "Adding the same constant to all observation times, prediction times, and inducing times of the excitation (and to the support of the basis of the rough model) leaves the prior covariances and integrals, the evidence bounds and the predictions unchanged. Lags, filter inducing points and kernel inputs are differences of times and do not shift.",
  ["inputs", "configurations"], "all shifts, all data, all models",
  "Tests use one grid of times; invariance under every shift is a property of the form of the expressions.",
  [G, R, A], [("integrals as functions of t, t_z, a, b", G + ", " + R), ("default inducing points, support", "constructors")])
p("C05", "Every quantity has its documented shape for all problem sizes",
  "For any numbers of observations n, filter inducing points n_u and excitation inducing points n_z, all different, the covariance matrices, the integrals, the natural parameters of the optimal factors, moments, predictions and bounds have the documented shapes (scalars for bounds, one entry per prediction point for marginals, and so on) and all intermediate combinations conform.",
  ["inputs", "configurations"], "all n, n_u, n_z and numbers of samples",
  "Tests fix the sizes and often make them equal, so transposed or summed-over-the-wrong-axis expressions go unnoticed.",
  [A, G, R, M, N], [("integrals", G + ", " + R), ("terms and optimal factors", A + ":construct_terms, _q_optimal"), ("moments", A + ":_predict_moments")])
p("C06", "Covariances are symmetric for all parameters",
  "For all hyperparameters and locations, the covariance of the filter inducing variables, the covariance of the excitation inducing variables, the expected second moment integral of the excitation at each time, and the prior covariance of the filter are symmetric, the kernel integral is symmetric in its two times, and the double filter integral is unchanged when its two times and its two inducing points are swapped together.",
  ["inputs"], "all hyperparameter values and all locations",
  "Tests check numerical values at one parameter setting; symmetry must hold as an identity.",
  [G, R], [("covariances and integrals", "k_h, k_xs, compute_* in " + G + " and " + R)])
p("C07", "Explicit random states are threaded linearly",
  "Within every call of a sampling, fitting or prediction routine each random state is used to draw at most once: the state returned by a draw replaces the one that was passed in, routines that take a state return the final one, and routines that use the global state store the advanced state back. Hence no two draws within a call share random numbers, and repeated calls that use the global state, or that are given the returned state, continue the stream. (Fits may start from a fixed seed of their own.)",
  ["histories", "programs"], "all sequences of calls and loop iterations that draw random numbers, all schemes",
  "Reused states give plausible numbers; only correlations between draws reveal it, which no finite test settles.",
  [N, A, M], [("sample", N + ":NaturalNormal.sample"), ("Gibbs sampler, ELBO estimators, fits", A), ("filter sampling", M + ":predict_filter")])
p("C08", "Results do not depend on the hash seed of the process",
  "Numerical results are a function of inputs and random states only: no numerical result depends on the iteration order of an unordered collection of names, which differs between interpreter processes.",
  ["configurations"], "all values of the interpreter hash seed",
  "A test run sees one hash seed.",
  [E, M, A, G, R, N, U, S], [("merging and evaluating factors and terms", E)])
p("C09", "Data and arguments supplied by the caller are never modified",
  "No public operation (building a model, fitting, conditioning, predicting, evaluating a bound, summarising samples, estimating spectra or autocorrelations, integrating) modifies in place an array, list or dictionary supplied by the caller.",
  ["inputs", "histories"], "all inputs, including float64 NumPy arrays that conversions do not copy",
  "In-place writes only show for particular dtypes and memory layouts, and when the caller reuses the data.",
  [U, A, M, G, R, N, S, E], [("array helpers", U), ("constructors", G + ", " + R)])
p("C10", "Polynomials are immutable values, coherent in equality and hash, and closed",
  "Operations on factors, terms, polynomials and exponentiated polynomials return new values and never change an operand, equal values have equal hashes, the order of factors or terms does not affect equality, and sums, products, powers (including zero), substitutions and collections of polynomials are polynomials, also when everything cancels.",
  ["programs", "inputs"], "all expressions built with the operations",
  "Tests check sample expressions; aliasing between operand and result and empty results appear in particular combinations only.",
  [E], [("value classes", E + ":Factor, Term, Poly, ExpPoly")])
p("C11", "Every documented scheme can be fitted, and anything else is rejected",
  "Each documented scheme name, in any capitalisation, constructs a model whose fit reaches its documented sequence of optimisation steps without an error that stems from the choice of scheme, schemes whose name includes coordinate ascent run it before and after the gradient steps, and an unknown scheme raises a value error.",
  ["configurations"], "all scheme names x models",
  "No test constructs a scheme other than the default, and none fits.",
  [M, A], [("scheme table", M + ":AbstractGPCM.__prior__"), ("fit dispatch", A + ":fit")])
p("C12", "Calls conform to interfaces across models and schemes",
  "Every call between the parts of the package, and from the experiments into it, binds: required arguments are given, keyword names exist, some overload accepts the number of arguments, and a call through the common model or approximation interface is accepted by every model and every scheme that can be behind it.",
  ["programs", "configurations"], "all call sites x all implementations the call may reach",
  "Python checks a call only when it is executed; tests execute a minority of the calls.",
  [M, A, G, R, N, E, U, S, X], [("common interface", M), ("implementations", A + ":Structured, MeanField")])
p("C13", "Predictions use the posterior that fitting stored",
  "After fitting and conditioning, predictions of the function, kernel, filter, spectrum and Fourier features for a scheme depend on the posterior variables that the fit of that scheme writes, and on no variational variable which that fit leaves at its initialisation.",
  ["histories", "configurations"], "all fit-condition-predict histories, all schemes",
  "Predictions from an untouched initialisation look like noisy predictions; there are no prediction tests.",
  [A, M], [("stores", A + ":fit, _fit_mean_field_ca"), ("reads", A + ":p_u, p_z, p_u_samples, p_z_samples, " + M + ":predict_filter")])
p("C14", "Only fitting changes a posterior, and earlier posteriors stay frozen",
  "Predicting, sampling and conditioning never modify stored variables; fitting and evaluating the bound write the variables of the current posterior only, never those of a posterior that is already in use as prior, and gradient-based fits exclude all earlier posteriors from optimisation.",
  ["histories"], "all histories of fit, condition, predict and bound evaluations",
  "Requires histories with several conditionings; tests do not condition.",
  [A, M], [("posterior index", A + ":Approximation.condition, q_u/q_z setters"), ("excluded names", A + ":ignore_qs and the optimiser calls")])
p("C15", "Saving and loading a model preserves everything that was learned",
  "A saved file holds the value of every variable of the model, and loading it assigns every stored value to the variable of the same name, whether or not that variable already exists, without dropping, filtering or transforming any of them.",
  ["histories"], "all trained models",
  "No test saves or loads; a filter or missing branch loses particular variables only.",
  [M], [("save", M + ":AbstractGPCM.save"), ("load", M + ":AbstractGPCM.load")])
p("C16", "Fixed hyperparameters are not learned and learned ones stay in their domain",
  "Requesting a fixed noise, window or length scale removes exactly the corresponding hyperparameter from the learnable variables and uses the supplied value; every other scale-like hyperparameter is learnable and constrained to be positive; fixing one never affects another.",
  ["configurations"], "all combinations of the fix options x models",
  "No test fits with fixed hyperparameters.",
  [G, R], [("registration", "__prior__ of GPCM and RGPCM")])
p("C17", "Predictive variances are second minus squared first moment plus the noise once",
  "For every scheme, the variance predicted for an observation equals its second moment minus the square of its first moment plus the observation noise variance counted exactly once, where moments over posterior samples are averaged before they are combined.",
  ["inputs", "configurations"], "all schemes, data, prediction points and numbers of samples",
  "No prediction test exists; wrong combinations yield plausible error bars.",
  [A], [("predict", A + ":Structured.predict, MeanField.predict, predict_z")])
p("C18", "The causal model never looks into the future; the acausal model looks both ways",
  "In the causal model, each integral over the excitation associated with observation times covers only excitation times up to the (earliest) observation time concerned, and the filter kernel vanishes at negative lags; in the acausal model the integrals cover the whole time axis.",
  ["inputs", "configurations"], "all times; both causality settings",
  "Tests evaluate a few time points with one inducing grid; causality is for all times.",
  [G, R, M], [("integration limits", "compute_i_hx/I_ux/I_hz/I_uz in " + G), ("window", "k_h() in " + G + ", " + R)])
p("C19", "Credible bands are central, nested and carry the advertised mass",
  "Each summarised band is central around the median and contains the advertised fraction of the samples in the limit (68, 95, and at least 99 percent), lower bounds never exceed upper bounds, wider bands contain narrower ones, and statistics are taken over samples for each input separately.",
  ["inputs"], "all sample sets and inputs, linear and decibel scale",
  "No test covers the summaries; probability mass is a statement for all samples.",
  [U], [("quantiles", U + ":summarise_samples")])
p("C20", "Spectral estimates are ordered, paired and normalised by the kernel at zero",
  "An estimated spectrum is returned with non-negative frequencies in increasing order paired with their own values, it is normalised such that its integral over frequencies, taken in increasing order, equals the kernel at lag zero, and inputs not starting at zero are rejected.",
  ["inputs"], "all kernels and equally spaced inputs",
  "No test covers spectral estimates.",
  [U], [("estimate", U + ":estimate_psd")])
p("C21", "Elliptical slice sampling leaves its target invariant",
  "In every step the slice height is drawn below the log-likelihood of the current state, a fresh ellipse and bracket are drawn for each attempt to sample, the bracket contains the current state and shrinks towards it after every rejection, a proposal is accepted only if its own log-likelihood exceeds the height, and the stored state and stored log-likelihood always belong together.",
  ["histories", "inputs"], "all sequences of draws and log-likelihood values",
  "The test checks the mean and variance of one chain on one target up to Monte-Carlo error.",
  [S], [("sampler", S + ":ESS._sample, _draw, _draw_bracket, _draw_proposal, move")])
p("C22", "Compiled functions are pure",
  "A function handed to the just-in-time compiler or traced by an optimiser has no side effects on state that outlives the call, draws no randomness from global state, does no input or output that could change a result, and depends only on its arguments and on values that do not change between calls, so that compiled and uncompiled runs agree.",
  ["programs", "histories"], "all jitted functions and objectives and all calls of them",
  "Side effects happen during the first trace, so single-call tests pass.",
  [A, M, U], [("jitted closures", A + ", " + M), ("objectives", A + ":fit, " + U + ":maximum_a_posteriori")])
p("C23", "Hyperparameter gradients treat Gibbs samples as constants",
  "In the structured scheme, the objective for hyperparameter learning depends on hyperparameters only through the model terms evaluated at the Gibbs samples: samples enter every term of the objective as constants, while the bounds of the other schemes are differentiated through the collapsed factors.",
  ["inputs", "programs"], "all hyperparameter values and samples",
  "The value of the objective is the same either way; only gradients differ.",
  [A], [("objective", A + ":elbo_gibbs")])
p("C24", "Documented defaults are the actual defaults",
  "Where the documentation of a parameter states a default value, calling without that parameter uses this value, and sibling models and schemes agree on defaults for the parameters they share.",
  ["configurations"], "all documented parameters of all public callables",
  "No test compares documentation with signatures.",
  [G, R, M, A, N, E, U, S], [("signatures and docstrings", "all modules")])
p("C25", "Every bound charges each factor its divergence from the current prior once",
  "In every evidence bound, each factor of the posterior that is not integrated out analytically contributes minus once the divergence of that factor from the current prior over the same variables (or plus once the log-density of its sample under that prior), in that direction, and for collapsed bounds the collapsed factor is the optimal one computed for the remaining factor, is excluded from optimisation, and is stored after the optimisation.",
  ["inputs", "configurations"], "all schemes, collapsing choices and posterior indices",
  "No test evaluates a bound; a missing or doubled term only makes the bound looser or invalid.",
  [A], [("bounds", A + ":elbo, elbo_collapsed_z, elbo_gibbs"), ("collapsed fits", A + ":fit")])
p("C26", "Default amplitudes normalise to unit power",
  "If the window amplitude is not given, the prior variance of the function is one, for all windows and length scales and in every model; the prior variance of each inter-domain inducing variable whose amplitude is not given is one as well, also when a decay is clamped.",
  ["inputs", "configurations"], "all windows, length scales, numbers of inducing points, both causality settings",
  "A test evaluates one parameter setting per model; clamping happens for other settings.",
  [G, R], [("amplitudes", "constructors"), ("variances", "compute_i_hx, compute_K_z of " + G + "; compute_i_hx, compute_K_u of " + R)])
p("C27", "Prediction and evidence bound use the same model",
  "Summed over the observation times, the second moment of the function that is predicted for given moments of the factors equals the expected squared function that the evidence bounds use, as an identity in all integrals and moments, and the first moment agrees with the cross term of the bounds.",
  ["inputs", "configurations"], "all integrals, moments, models",
  "The two are computed in different places by different expressions, and neither is tested.",
  [A], [("per-point moments", A + ":_predict_moments"), ("summed terms", A + ":construct_terms, elbo, log_Z_u")])
p("C28", "Coordinate-ascent and Gibbs updates are the exact conditionals of the bound",
  "For each factor, the natural parameters that the fixed-point update assigns are exactly those that maximise the evidence bound with the other factor held fixed, for the first application and every later one, and the conditional used for Gibbs sampling is the same expression evaluated at a sample.",
  ["inputs", "configurations"], "all data, integrals, moments",
  "No fit is tested; wrong updates still converge to something.",
  [A], [("updates", A + ":_q_optimal, q_u_optimal*, q_z_optimal*"), ("bound", A + ":MeanField.elbo")])
p("C29", "Distributions in natural parameters are coherent",
  "For every normal distribution in natural parameterisation, the mean and variance are those that its precision and natural mean define, the second moment is the variance plus the outer product of the mean, the divergence and the log-density are those of the normal distributions with these moments, conversion to and from mean and variance preserves them, and samples are affine in independent standard normals with exactly this mean and variance.",
  ["inputs"], "all precisions and natural means, all dimensions",
  "The tests compare sample values for a few draws of parameters, with Monte-Carlo error for sampling; the relations are identities.",
  [N], [("moments, divergence, log-density, sampling, conversion", N + ":NaturalNormal")])
p("C30", "Integrals of the models agree with quadrature of their definitions",
  "Every closed-form integral equals the integral of the model densities that defines it, for all parameter values.", ["inputs"], "all parameters and times",
  "Tests compare at one parameter setting.", [G, R, E], [("closed forms", G + ", " + R)])
p("C31", "The evidence bounds never exceed the log evidence",
  "Every reported bound is at most the log marginal likelihood of the data, in expectation for the estimated bounds.", ["inputs"], "all data and parameters",
  "The evidence is intractable; no test.", [A], [("bounds", A)])
p("C32", "Covariance matrices are positive definite",
  "The prior covariance matrices are positive definite for all admissible hyperparameters and distinct inducing points, and remain numerically so during learning.", ["inputs", "histories"], "all hyperparameters reachable by learning",
  "Only fixed values tested.", [G, R, M], [("inversions", M + ":__prior__")])
p("C33", "Fits converge and the Gibbs sampler mixes",
  "Coordinate ascent reaches its tolerance, gradient fits increase the bound, and the Gibbs chains mix within the given iterations.", ["histories", "inputs"], "all data sets",
  "Would need the true posterior.", [A], [("fits", A)])
p("C34", "The minimum-phase transform preserves the magnitude spectrum and minimises delay",
  "The transformed filter has the magnitude spectrum of the given filter, and all zeros within the unit circle.", ["inputs"], "all filters",
  "No test.", [U], [("transform", U + ":min_phase")])
p("C35", "The nearest positive semi-definite matrix is returned",
  "The repaired matrix is symmetric positive semi-definite, equals the input if that already was, and is otherwise closest to it.", ["inputs"], "all matrices",
  "Finite samples only.", [U], [("repair", U + ":closest_psd")])
p("C36", "Repeated fits with the same inputs give identical numbers",
  "Fitting twice from fresh models with the same data, scheme and global seed gives bitwise equal results on one platform.", ["histories"], "all platforms and thread schedules",
  "Depends on the numerical libraries.", [A], [("fits", A)])
with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
