"""Regenerates properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
P = []
CPP = "src/mssm/src/cpp/"; PY = "src/mssm/src/python/"


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None)))


T_HSMM = ("The tests compare a handful of fits/gradients on one or two simulated data sets with fixed flag settings; they never "
          "sum over the hidden paths and never visit most combinations of the boundary, duration and sharing options.")
p("C01", "HSMM log-likelihood equals the sum over all hidden segmentations",
  "For any hidden semi-Markov model (ordinary or event-template based, with fixed, per-series or estimated transition/initial "
  "probabilities, time-varying or not, univariate, multivariate or correlated signals, shared or separate emission terms), the "
  "log-likelihood of a set of series is the sum over series of the log of the total probability of all admissible "
  "(state, duration) segmentations, with durations 1..D-1 normalised to one (with auto-correlated residuals: of the original, not the whitened, data). The start, end-with-last-sample and end-in-last-state "
  "options restrict exactly the set of admissible segmentations; data of zero probability give minus infinity; and neither the number "
  "of worker processes nor re-using model matrices changes the value.",
  ["configurations", "inputs"], "every combination of model options, number of states/signals/series, series length, maximum duration and data",
  T_HSMM, [CPP + "hsmm/llk.cpp", PY + "hsmm.py"],
  [("scaled forward recursion over (state, residual duration)", CPP + "hsmm/llk.cpp:llk"), ("emission/duration/transition probabilities per series", PY + "hsmm.py:_compute_series_probs"), ("split by series", PY + "hsmm.py:_split_matrices")],
  ["HSMMFamily.llk", "hsmm.llk", "HSMMFamily.compute_od_probs", "HSMMFamily.compute_Tpi"],
  [dict(name="lam(t,d,j)", meaning="scaled forward variable", where=CPP + "hsmm/llk.cpp")])
p("C02", "HSMM gradient is the exact derivative of the log-likelihood",
  "For any hidden semi-Markov model the analytic gradient has one entry per coefficient, in the order of the coefficient vector, and "
  "each entry equals the derivative of the log-likelihood with respect to that coefficient. This holds for every combination of "
  "boundary options, fixed or estimated transition/initial probabilities, time-varying latent processes, shared emission terms, "
  "correlated signals and event-template models with or without residual auto-correlation.",
  ["configurations", "inputs"], "every combination of model options and every coefficient vector", T_HSMM,
  [CPP + "hsmm/llk.cpp", PY + "hsmm.py"],
  [("derivative forward recursion", CPP + "hsmm/llk.cpp:llkgrad"), ("derivative forward recursion, fixed transitions / templates", CPP + "hsmm/llk.cpp:llkFTPgrad"), ("assembly and re-ordering of coefficient gradients", PY + "hsmm.py:HSMMFamily.gradient")],
  ["HSMMFamily.gradient"])
p("C03", "Decoded HSMM state sequence is a most probable admissible sequence",
  "For every series the decoded state sequence (together with the reported remaining duration of the final state) has a joint "
  "probability with the data that no other admissible segmentation exceeds, under the same boundary options, transition, initial, "
  "duration and emission probabilities that define the likelihood.",
  ["configurations", "inputs"], "every data set and every combination of model options", T_HSMM,
  [CPP + "hsmm/decode.cpp", PY + "hsmm.py"],
  [("Viterbi recursion and back-tracking", CPP + "hsmm/decode.cpp:viterbi")], ["HSMMFamily.decode_viterbi"])
p("C04", "Sampled HSMM state sequences follow the exact posterior",
  "The probability with which the posterior sampler returns a given state sequence (and remaining duration of the last state) equals the "
  "posterior probability of that sequence given the data, i.e. its share of the total probability of all admissible segmentations; "
  "sequences that are not admissible are never returned. Samples are reproducible for a given seed.",
  ["configurations", "inputs", "schedules"], "every data set, every combination of options and every outcome of the random draws", T_HSMM,
  [CPP + "hsmm/decode.cpp", PY + "hsmm.py"],
  [("forward filtering, backward sampling", CPP + "hsmm/decode.cpp:sample_backwards")], ["HSMMFamily.sample_posterior_states"])
p("C05", "HSMM residuals equal their probabilistic definition",
  "Forward residuals are the conditional distribution function of each observation given all earlier ones (optionally mapped to normal "
  "quantiles); predictive residuals are the cumulated, standardised differences between the observations and their one-step-ahead conditional expectations. "
  "Both are computed from the same path probabilities as the likelihood for every signal, series and boundary option, and duration residuals are the duration-model residuals of the "
  "stays in the series' own decoded (or sampled) state sequence, averaged per state.",
  ["configurations", "inputs"], "every data set and every combination of model options", T_HSMM,
  [CPP + "hsmm/resid.cpp", PY + "hsmm.py"],
  [("forward pseudo residuals", CPP + "hsmm/resid.cpp:forward_resid"), ("predictive residuals", CPP + "hsmm/resid.cpp:predictive_resid")],
  ["HSMMFamily.get_resid"])
p("C06", "HSMM simulation follows the model's generative law",
  "Simulated series start in a state drawn from the initial distribution, move between states with the transition probabilities of the state being left, "
  "draw each stay from the duration distribution of the state entered (first-stay distribution for the first state when it may have been ongoing), and emit "
  "each signal from the distribution of the state occupied at that sample; probability-zero states, transitions and durations never occur.",
  ["configurations", "schedules"], "every outcome of the random draws and every combination of model options",
  "A test looks at one seed; the law is a statement about every outcome of the random draws.",
  [PY + "hsmm.py"], [("generative loop", PY + "hsmm.py:HSMMFamily.predict"), ("emission draws", PY + "hsmm.py:_sample_series_emissions")],
  ["HSMMFamily.predict"])
T_F = ("The stable tests only use intercept-only formulas; no test enumerates combinations of term types, `by` factors, level orders or missing values.")
p("C07", "Model-matrix rows evaluate exactly the terms written in the formula",
  "For every formula, each row of the model matrix multiplied by a coefficient vector gives the sum, over the terms of the formula, of that term's mathematical definition evaluated at that row's "
  "covariates: intercepts, linear effects and interactions with treatment coding, random intercepts/slopes, smooths (with factor-by, "
  "continuous-by, binary difference, tensor, factor-smooth variants) and impulse-response smooths. Rows follow the order of the (non-missing) data "
  "and columns belonging to factor level k are non-zero only in rows of that level.",
  ["configurations", "inputs", "programs"], "every formula built from the term language up to the bound and every data set over the value alphabet", T_F,
  [PY + "terms.py", PY + "formula.py", PY + "smooths.py"],
  [("per-term matrix builders", PY + "terms.py"), ("assembly", PY + "formula.py:build_sparse_matrix_from_formula")],
  ["model.get_mmat", "build_model_matrix"])
p("C08", "Coefficient bookkeeping and penalty placement agree with the model matrix",
  "For every formula the declared number of coefficients, the coefficient names, the per-term column blocks and the number of unpenalised coefficients agree with "
  "the model matrix, and every penalty is embedded over exactly the columns of the term it penalises (once per level where the term is replicated), with a matrix root that reproduces it and the rank it declares. "
  "Penalties declared as sharing one smoothing parameter stay tied, all others are independent.",
  ["configurations", "programs"], "every formula built from the term language up to the bound", T_F,
  [PY + "formula.py", PY + "terms.py", PY + "penalties.py", PY + "utils.py"],
  [("coefficient info", PY + "formula.py:Formula"), ("penalty embedding", PY + "formula.py:build_penalties"), ("embedding helper", PY + "penalties.py:embed_in_S_sparse")],
  ["Formula.n_coef", "Formula.coef_names", "build_penalties", "model.overall_penalties"])
p("C09", "Predictions on new data reuse the training-time encoding of every term",
  "The prediction matrix for any new rows equals, row by row, what the fitted formula assigns to those covariate values: rows equal to training rows reproduce "
  "the training rows exactly, the result does not depend on which other rows are predicted together, on their order or on which factor levels they contain, and predicted values/standard errors are that matrix times the coefficients/their covariance. "
  "Restricting a prediction to some terms zeroes exactly the columns of all other terms, and the reported difference between two prediction sets is their difference with matching variance.",
  ["configurations", "inputs", "programs"], "every formula up to the bound, every subset/order of prediction rows and every subset of terms", T_F,
  [PY + "formula.py", "src/mssm/models.py"],
  [("prediction matrix", "src/mssm/models.py:GAMM.predict"), ("difference of predictions", "src/mssm/models.py:GAMM.predict_diff")],
  ["model.predict", "model.predict_diff"])
p("C10", "File-based, chunked and parallel estimation agree with in-memory estimation",
  "Splitting the same data over several files, keeping or not keeping the encoded covariates in memory, caching intermediate matrices, and distributing work over any number of processes changes neither the encoded covariates, the model matrix, "
  "its cross-products, nor the fitted coefficients, smoothing parameters, scale and fitted values (up to numerical tolerance).",
  ["configurations", "schedules"], "every split of the data into files and every number of workers up to the bound", 
  "No stable test reads data from files or compares worker counts.",
  [PY + "gamm_solvers.py", PY + "file_loading.py", PY + "formula.py"],
  [("accumulated cross-products", PY + "gamm_solvers.py:read_XTX"), ("file loading", PY + "file_loading.py"), ("chunked matrix building", PY + "formula.py")],
  ["Formula", "GAMM.fit", "model.get_mmat"])
p("C11", "Missing observations are excluded and nothing else is",
  "Rows with a missing response or a missing value of a used covariate do not influence the estimates: a GAMM or GAMMLSS fitted to data with missing values has the coefficients, scale and covariance of the model fitted to the data without those rows "
  "(given the same covariate ranges and factor levels), an observation missing for one formula of a GAMMLSS is excluded for all, while rows, offsets, fitted values and residuals stay aligned with the remaining observations and every series keeps its own boundaries.",
  ["inputs", "configurations"], "every pattern of missing responses over the bounded data sets", T_F,
  [PY + "formula.py", "src/mssm/models.py", PY + "utils.py"],
  [("NA masks", PY + "formula.py:Formula.encode_data"), ("series splitting", PY + "formula.py")],
  ["GAMM.fit", "model.get_mmat", "model.get_resid"])
p("C12", "B-spline bases are local, non-negative and sum to one",
  "On the range of the training covariate the (unconstrained) B-spline basis is non-negative, sums to one, is non-zero only on the spline's local support and equals the Cox-de Boor "
  "recursion for every degree, number of basis functions and knot placement; tensor bases are row-wise Kronecker products of the marginal bases. The impulse-response basis of an event is the basis convolved with that event's impulse, aligned to the onset sample.",
  ["inputs", "configurations"], "every degree, basis size and evaluation point on the grids",
  "The stable tests never evaluate a basis.", [PY + "smooths.py", PY + "terms.py"],
  [("B-spline construction", PY + "smooths.py:B_spline_basis"), ("tensor product", PY + "smooths.py:TP_basis_calc"), ("convolution", PY + "smooths.py:convolve_event")],
  ["B_spline_basis", "f", "irf"])
p("C13", "Penalties measure exactly the roughness they advertise",
  "Every difference penalty of order m is symmetric positive semi-definite with null space exactly the discrete polynomials of degree below m (random effects: identity ridge), its root multiplied by its transpose reproduces it and its declared rank is its rank. "
  "Under each identifiability constraint the smooth's columns become orthogonal to the constant (or are dropped/differenced) while the span of functions keeps exactly one dimension less, and the constrained penalty of a coefficient equals the unconstrained penalty of the same function.",
  ["inputs", "configurations"], "every basis size, penalty order, constraint type and null-penalty option up to the bound",
  "The stable tests never build a smooth term.", [PY + "penalties.py", PY + "terms.py", PY + "smooths.py"],
  [("difference penalty", PY + "penalties.py:DifferencePenalty"), ("constraints", PY + "penalties.py")],
  ["DifferencePenalty.constructor", "IdentityPenalty.constructor", "f.build_penalty"])
p("C14", "Re-parameterisations leave the model unchanged",
  "Every re-parameterisation offered (of a single term or of a whole model) is an invertible linear change of coefficients: mapped back, fitted values, penalty values, log-determinants of the total penalty and ranks are those of the original parameterisation, for every set of smoothing parameters. "
  "Splitting penalties that share a smoothing parameter and recombining them returns the original set.",
  ["inputs", "configurations"], "every bounded combination of penalties and smoothing-parameter magnitudes",
  "No stable test compares parameterisations.", [PY + "repara.py", PY + "utils.py", PY + "gamm_solvers.py"],
  [("term re-parameterisation", PY + "repara.py:reparam"), ("model re-parameterisation", PY + "repara.py:reparam_model"), ("total penalty, inverse, root", PY + "gamm_solvers.py:compute_S_emb_pinv_det")],
  ["reparam", "reparam_model"])
p("C15", "Sparse factorisations, solves and traces are numerically correct",
  "For every sparse positive-definite (or full-rank rectangular) system the Cholesky/QR routines return factors and permutations that reproduce the permuted input, the solvers return solutions satisfying the system, inverse factors are inverses, and the trace computations used for effective degrees of freedom equal the dense trace. "
  "Rank-deficient columns are reported as dependent: the reported rank is the rank and the kept columns are independent.",
  ["inputs"], "every matrix over the bounded alphabet of patterns and values", "No stable test calls the solvers in isolation or on rank-deficient patterns.",
  [CPP + "eigen_solvers.cpp", PY + "matrix_solvers.py"],
  [("Eigen wrappers", CPP + "eigen_solvers.cpp"), ("python wrappers and traces", PY + "matrix_solvers.py")],
  ["cpp_chol", "cpp_cholP", "cpp_qr", "cpp_solve_coef", "compute_Linv", "compute_B", "compute_block_B_shared"])
p("C16", "Exponential-family distributions and links are mutually consistent",
  "For every family, link and admissible mean, the link inverse inverts the link, link derivatives are its derivatives, the variance function is the variance of the distribution, its derivatives are its derivatives, the log-likelihood is the "
  "log density of the distribution, and the deviance is twice the scaled log-likelihood gap to the saturated model with residuals whose squares sum to it.",
  ["inputs", "configurations"], "every family x link x grid of means, scales and responses",
  "The stable tests do not fit GAMMs at all.", [PY + "exp_fam.py"],
  [("links", PY + "exp_fam.py:Link"), ("families", PY + "exp_fam.py:Family")], ["Gaussian", "Gamma", "Binomial", "Poisson", "InvGauss", "NegBinom", "links"])
p("C17", "Multi-parameter families: densities, derivatives and quantiles agree",
  "For every multi-parameter family the log-likelihood is the sum of its log densities, a normalised density over the response space; the reported first, second and mixed derivatives are the derivatives (or expectations of the second derivatives where documented) of that density with respect to each parameter, "
  "the distribution function is its integral, and residuals are the documented ones (standardised responses, scaled deviance residuals or randomised normal quantiles). Log-likelihoods may omit additive constants that depend on no parameter. Model-level gradients and Hessians equal the derivatives of the model log-likelihood in the coefficients.",
  ["inputs", "configurations"], "every family, link and grid of parameters/responses", "Stable tests touch two families through one aggregated gradient comparison.",
  [PY + "exp_fam.py", PY + "gamm_solvers.py", PY + "utils.py"],
  [("family derivatives", PY + "exp_fam.py:GAMLSSFamily.dpars"), ("chain rule to coefficients", PY + "gamm_solvers.py:deriv_transform_eta_beta"), ("multivariate normal family", PY + "exp_fam.py:MultiGauss")],
  ["GAUMLSS", "GAMMALS", "MULNOMLSS", "MultiGauss", "GAMLSSGSMMFamily"])
p("C18", "Cox model likelihood, derivatives, hazard and survival match the definition",
  "For every survival data set (any tie pattern, censoring pattern and covariates) the partial log-likelihood, its gradient and Hessian equal the Breslow definition and its derivatives, the cumulative baseline hazard is the Breslow estimator with non-decreasing steps at event times, and the survival function starts at one and "
  "is the right-continuous step function exp(-cumulative hazard x relative risk). Results do not depend on which other quantities were computed before.",
  ["inputs", "histories"], "every tie/censoring pattern over bounded data sets", "No stable test covers survival models.",
  [CPP + "hazard.cpp", PY + "exp_fam.py"], [("C++ kernel", CPP + "hazard.cpp"), ("family", PY + "exp_fam.py:PropHaz")],
  ["PropHaz.llk", "PropHaz.gradient", "PropHaz.hessian", "PropHaz.get_survival", "PropHaz.get_baseline_hazard"])
p("C19", "Tail probabilities of chi-square mixtures are accurate",
  "The distribution function of any linear combination of independent (non-central) chi-square variables plus a normal variable is returned within the requested accuracy whenever no fault is signalled, is monotone in its argument, and invalid input is signalled instead of returning a value.",
  ["inputs"], "every combination of weights, degrees of freedom, non-centralities and evaluation points on the grids",
  "No stable test evaluates it.", [CPP + "davies.cpp", PY + "utils.py"], [("Davies' algorithm", CPP + "davies.cpp")], ["davies", "computep of smooth terms"])
p("C20", "Derivatives and updates of Cholesky factors are exact",
  "For every positive-definite matrix and symmetric perturbation the derivative of its Cholesky factor (and of the inverse factor) equals the directional derivative, a rank-k update or downdate of a factor equals the factor of the updated matrix, and corrections built from them equal their dense definition.",
  ["inputs"], "every matrix/perturbation of the bounded alphabet", "No stable test evaluates it.",
  [CPP + "dchol.cpp", PY + "utils.py"], [("dChol", CPP + "dchol.cpp")], ["dChol", "correct_VB"])
p("C21", "Compact quasi-Newton representations equal the recursive updates",
  "For every history of secant pairs (any number, any order, degenerate pairs included) the compact limited-memory representations of the Hessian approximation and of its inverse equal the matrix obtained by applying the rank-one updates one after another, implicit (factored) and explicit forms agree, requested positive (semi-)definiteness holds, and "
  "the penalised inverse equals the inverse of the penalised Hessian.",
  ["histories", "inputs"], "every sequence of secant pairs from a finite alphabet up to the bound",
  "Tests see only the pairs produced by one optimisation run.", [PY + "compact_rep.py", PY + "gamm_solvers.py"],
  [("compact SR1", PY + "compact_rep.py"), ("implicit inverse", PY + "gamm_solvers.py:getImplicitV")], ["computeHSR1", "computeVSR1", "GSMM.fit(method='qEFS')"])
p("C22", "MCMC transitions implement the No-U-Turn sampler for the stated target",
  "Given the random draws, each chain transition returns the state the No-U-Turn sampler (slice variable, doubling, U-turn and divergence stopping, multinomial replacement within sub-trees, tree-depth limit) selects, with its acceptance statistics and dual-averaging step-size adaptation. "
  "The sampled target is the (penalised) log posterior of the model in the stated parameterisation with its exact gradient, and results map back to the model's own coefficients.",
  ["schedules", "inputs", "histories"], "every outcome of the sampler's random draws up to the tree-depth bound",
  "The sampler's draws are random; a test sees one seed and can only compare summaries.", [CPP + "mcmc.cpp", PY + "mcmc.py"],
  [("tree building", CPP + "mcmc.cpp"), ("target density", PY + "mcmc.py:sample_mssm")], ["sample_mssm", "mcmc module"])
p("C23", "A converged fit is the penalised maximum-likelihood fit it reports",
  "For every model class, solver option and family, a fit that reports convergence has coefficients at which the gradient of the penalised log-likelihood (with the reported smoothing parameters, scale, weights, offset and auto-correlation) vanishes, and equivalent specifications of the same model (solver, class, parameterisation) give the same fit. "
  "Reported covariance, effective degrees of freedom, penalty and scale satisfy their defining identities, and user-fixed smoothing parameters are left untouched.",
  ["configurations", "inputs"], "every combination of model class, family, solver and term structure within the bounds",
  "No stable test fits a GAMM, and equivalence between the solver paths is never compared.", [PY + "gamm_solvers.py", "src/mssm/models.py", PY + "utils.py"],
  [("PIRLS + Fellner-Schall", PY + "gamm_solvers.py:solve_gamm_sparse"), ("GAMMLSS Newton", PY + "gamm_solvers.py:solve_gammlss_sparse"), ("general smooth Newton / quasi-Newton", PY + "gamm_solvers.py:solve_generalSmooth_sparse")],
  ["GAMM.fit", "GAMMLSS.fit", "GSMM.fit", "model.get_llk", "model.get_pars"])
p("C24", "REML scores, uncertainty corrections and model tests match their formulas",
  "The restricted marginal likelihood equals its Laplace formula with exact log-determinants (generalised over the penalty null space) for any set of smoothing parameters, its Hessian in the log smoothing parameters and the derivatives of the coefficients are its derivatives at the estimate, and the uncertainty-corrected covariance and effective degrees of freedom add the stated corrections (analytically or averaged over weighted draws of the smoothing parameters). "
  "Model comparisons use these quantities, count estimated scale and family parameters, are antisymmetric, and reject models of different families or links; tests and tables of smooth and parametric terms report the test of the named term (statistic, degrees of freedom, p-value).",
  ["inputs", "configurations"], "every bounded model and smoothing-parameter vector", "No stable test evaluates them.",
  [PY + "utils.py", PY + "compare.py", "src/mssm/models.py"], [("REML", PY + "utils.py:REML"), ("posterior of log smoothing parameters", PY + "utils.py:compute_Vp_WPS"), ("comparison", PY + "compare.py:compare_CDL")],
  ["REML", "model.get_reml", "estimateVp", "correct_VB", "compare_CDL", "approx_smooth_p_values", "print_smooth_terms", "print_parametric_terms"])
p("C25", "AR(1) residual whitening respects series boundaries",
  "With residual auto-correlation rho the working model is exactly the model with error correlation rho^|i-j| inside each series (counting its remaining observations) and independence between series: likelihood, estimates and whitened residuals match the dense computation for every division of the rows into series and every pattern of missing rows.",
  ["inputs", "configurations"], "every division of bounded data into series, every missing pattern and both signs of rho",
  "No stable test fits with auto-correlation.", [PY + "utils.py", "src/mssm/models.py", PY + "gamm_solvers.py"],
  [("banded factor", PY + "utils.py:computeAr1Chol")], ["computeAr1Chol", "GAMM.fit(rho=...)", "GAMM.get_resid", "GAMM.get_llk"])
p("C26", "Posterior draws of coefficients have the reported mean and covariance",
  "Draws of coefficients (and of functions of them) are an affine image of independent standard normals whose mean is the estimate and whose covariance is the reported posterior covariance, restricted to the requested terms or parameters; deviations have mean zero, and the same seed gives the same draws.",
  ["configurations", "schedules"], "every model class and option, and every value of the underlying normal draws (affinity is decided on a basis)",
  "A Monte-Carlo test can only bound moments from one seed.", ["src/mssm/models.py", PY + "utils.py"],
  [("sampler", PY + "utils.py:sample_MVN"), ("model interface", "src/mssm/models.py:sample_post")], ["model.sample_post", "sample_MVN"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
