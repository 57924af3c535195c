"""Regenerates properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

K = "src/lop/kernels/"; PR = "src/lop/probits/"; M = "src/lop/models/"; A = "src/lop/active_learning/"; U = "src/lop/utilities/"

prop("C01", "Kernel gradients are the derivatives of the covariance",
 "For every kernel, and for every sum or product of kernels, the gradient it reports for a pair of points and for two sets of points is exactly the partial derivative of its own covariance with respect to each of its hyper-parameters. The components come one per hyper-parameter, in the same order as the kernel's hyper-parameter vector.",
 ["inputs", "configurations"], "all pairs of points and sets of points of any size and dimension, all positive hyper-parameters, all kernels and kernel combinations",
 "The kernel tests check shapes and a few signs at fixed points and fixed hyper-parameters; a wrong factor in one partial derivative passes all of them.",
 [K+"RBF_kern.py", K+"RBF_kern_zeroed.py", K+"PeriodicKern.py", K+"LinearKern.py", K+"KernelFunc.py"],
 [("pointwise gradient and matrix gradient of each kernel", K+"*.py: gradient, cov_gradient"), ("combination of kernels", K+"KernelFunc.py: DualKern")],
 observe=["gradient(u, v)", "cov_gradient(X, Y)"])

prop("C02", "A kernel's covariance matrix is its pointwise covariance, and is symmetric",
 "For every kernel the (i, j) entry of the covariance matrix of two sets of points equals the covariance the kernel gives for the i-th and j-th point, and exchanging the two arguments changes nothing but the orientation. Observation noise is added only on the diagonal, and exactly when the two sets hold the same points. Sums and products of kernels are the sum and product of the parts, pointwise and as matrices.",
 ["inputs", "configurations"], "all sets of points (any size and dimension, including sets of equal size sharing some points), all hyper-parameters, all kernels and combinations",
 "Tests compare matrix and pointwise values on a handful of points with unit hyper-parameters, where scale factors are invisible, and never use different sets that share their first point.",
 [K+"RBF_kern.py", K+"RBF_kern_zeroed.py", K+"PeriodicKern.py", K+"LinearKern.py", K+"KernelFunc.py"],
 [("vectorised covariance", K+"*.py: cov"), ("pointwise covariance", K+"*.py: __call__")], observe=["cov(X, Y)", "kernel(u, v)"])

prop("C03", "Hyper-parameter vectors have one layout everywhere",
 "Reading the hyper-parameter vector of a kernel, a likelihood or a whole model and writing it back changes nothing, and writing a vector and reading it back returns that vector. Length, log-prior gradient, likelihood hyper-gradient and random draw have one entry per optimised hyper-parameter in that same order (the break points of ordinal feedback count as the one scalar that places them), also for combined kernels and for a model trained on only some kinds of feedback, where exactly the kinds with data contribute. Changing the number of ordinal categories keeps the optimised hyper-parameters.",
 ["inputs", "configurations"], "all hyper-parameter values, all kernels and kernel combinations, all likelihoods and optimisation switches, all eight combinations of feedback kinds present, both hyper-parameter modes of the model",
 "Tests round-trip single kernels and a model with one kind of feedback; the combinations of feedback kinds and switches are never exercised, and a swapped pair of same-typed entries is invisible to them.",
 [K+"KernelFunc.py", PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py", PR+"OrdinalProbit.py", M+"PreferenceModel.py", M+"PreferenceGP.py"],
 [("parameter vectors of kernels", K+"*.py: get_param, set_param, __len__, randomize_hyper, grad_param_likli"), ("parameter vectors of likelihoods", PR+"*.py: get_hyper, set_hyper, randomize_hyper, grad_param_likli, grad_hyper"), ("parameter vector of the model", M+"PreferenceModel.py and PreferenceGP.py: get_hyper, set_hyper, grad_hyper_liklihood, randomize_hyper")])

prop("C04", "Hyper-parameter priors are self-consistent",
 "The log-density of the gamma prior is the logarithm of its density and its reported derivative is the derivative of that log-density. For every kernel the gradient of its log-prior is the derivative of the log-prior it reports with respect to each hyper-parameter, and a random draw of a hyper-parameter uses the shape and scale of that hyper-parameter's own prior.",
 ["inputs", "configurations"], "all positive hyper-parameter values, shapes and scales; every kernel and every likelihood",
 "Tests evaluate the gamma functions at a few points; they never relate a kernel's draw, prior and prior gradient to each other.",
 [U+"gamma_dist.py", K+"RBF_kern.py", K+"PeriodicKern.py", K+"LinearKern.py", K+"KernelFunc.py", PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py"],
 [("gamma density, log-density and derivative", U+"gamma_dist.py"), ("prior, its gradient and random draws", K+"*.py, "+PR+"*.py: param_likli, grad_param_likli, randomize_hyper")])

prop("C05", "Likelihood gradients and curvature are derivatives of the log-likelihood",
 "For pairwise, ordinal and bounded-rating feedback, the gradient and the curvature matrix reported for the latent values are the first derivative and the negative second derivative of the reported log-likelihood, wherever numerical clipping is inactive; and clipping acts only where the likelihood is saturated anyway. The log-likelihood reported together with the derivatives is the one reported on its own.",
 ["inputs", "configurations"], "all latent values, all data sets of any size, all positive noise parameters; numerically clipped tails are excluded",
 "The derivative tests compare against finite differences at a few latent vectors with one fixed noise setting and distinct items.",
 [PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py", PR+"OrdinalProbit.py", PR+"ProbitBase.py"],
 [("derivatives of the log-likelihood", PR+"*.py: derivatives, log_likelihood, likelihood"), ("normal pdf/cdf helpers", PR+"ProbitBase.py")], observe=["derivatives(y, F)", "log_likelihood(y, F)"])

prop("C06", "Every observation counts exactly once",
 "The log-likelihood, its gradient and its curvature are sums over all observations: several observations of the same item add up, in any order, and none replaces another. This holds for every kind of feedback, and for a model that combines several kinds.",
 ["inputs", "histories"], "all data sets, in particular those in which an item is compared or rated more than once, and all subsets of feedback kinds",
 "The tests rate each item once, so overwriting and accumulating give the same numbers.",
 [PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py", PR+"OrdinalProbit.py", M+"PreferenceGP.py", M+"PreferenceLinear.py", M+"PreferenceModel.py"],
 [("scatter of per-observation terms to items", PR+"*.py: derivatives, log_likelihood, calc_W_dF, calc_W_dHyper"), ("sum over kinds of feedback", M+"PreferenceGP.py and PreferenceLinear.py: derivatives; PreferenceModel.py: log_likelyhood_training")])

prop("C07", "Higher likelihood derivatives match what they differentiate",
 "For pairwise and bounded-rating feedback, the derivative of the log-likelihood with respect to each optimised noise parameter, the derivative of the curvature matrix with respect to each of those parameters, and the derivative of the curvature matrix with respect to each latent value are exactly the derivatives of the reported log-likelihood and curvature, wherever numerical clipping is inactive.",
 ["inputs", "configurations"], "all latent values, data sets and positive noise parameters, all optimisation switches",
 "Tests check a few of these tensors numerically at one setting and some only for shape.",
 [PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py"],
 [("hyper-parameter and third derivatives", PR+"PreferenceProbit.py, AbsBoundProbit.py: grad_hyper, calc_W_dHyper, calc_W_dF")])

prop("C08", "One direction convention for preferences",
 "Every part that creates a preference (from a choice, from scores, from a ranking, or from dominance) and every part that uses one (likelihood of training, pairwise choice probabilities, plotting) agree on which item is preferred. In particular recording that a beats b always raises the likelihood of latent values in which a is larger, and generated preferences always favour the item with the larger score.",
 ["inputs", "configurations"], "all scores, choices and candidate sets",
 "Tests look at producers and consumers separately, on small hand-made examples.",
 [U+"preference_pairs.py", PR+"PreferenceProbit.py", M+"PreferenceModel.py", U+"synthetic_user.py"],
 [("sign of a preference", U+"preference_pairs.py: get_dk, preference, gen_pairs_from_idx, generate_fake_pairs, ranked_pairs_from_fake, generate_ranking_pairs"), ("likelihood", PR+"PreferenceProbit.py: z_k"), ("dominance pairs", M+"PreferenceModel.py: add")])

prop("C09", "Predictions are the Gaussian-process posterior",
 "The predictive mean and covariance of the regression model are the exact Gaussian-process posterior for its kernel, observation noise and data, and those of the preference model are the Laplace-approximate posterior at its fitted latent values and curvature, whatever the covariance function; with no data both return the prior. The linear model predicts the inner product with its weights, predicting in blocks gives the same values as predicting at once, and no variance returned is ever negative.",
 ["inputs", "histories", "configurations"], "all data sets, query points and kernels, with and without data, on regular and fallback paths",
 "Tests check shapes, a few recovered training values, and positivity on sampled inputs.",
 [M+"GP.py", M+"PreferenceGP.py", M+"PreferenceLinear.py", M+"Model.py"],
 [("posterior mean and covariance", M+"GP.py: predict; "+M+"PreferenceGP.py: predict, predict_large; "+M+"PreferenceLinear.py: predict")])

prop("C10", "Fitting climbs the log-posterior it states",
 "The gradient and Hessian used to fit the preference model are the first and second derivative of the log-posterior objective its line search evaluates, and for the linear model they are those of its log-likelihood in the weights. Each step moves along the Newton direction for maximisation (along the gradient, uphill, where that direction cannot be computed), the line search keeps the side whose objective value is larger, and every iterate is the result of the update made from the one before.",
 ["inputs", "configurations"], "all training data, kernels, weights and latent values",
 "Tests only see that a fit finishes and that a few rankings come out right; a wrong sign or missing term often still gives such a ranking.",
 [M+"PreferenceGP.py", M+"PreferenceLinear.py", M+"PreferenceModel.py"],
 [("mode finding", M+"PreferenceGP.py: find_mode, likli_f, derivatives"), ("linear fit", M+"PreferenceLinear.py: optimize, derivatives, loss_func"), ("newton step and line searches", M+"PreferenceModel.py: newton_update, binary_line_search, iterative_line_search")])

prop("C11", "Predictions always reflect all the data added so far",
 "After any accepted change to the training data the next prediction refits the model before it uses fitted quantities, and a model is marked as fitted only after a fit has really been made on its own full training data. An active learner that temporarily alters a model's data or settings to try something out leaves the model with its data, settings and fit restored, also when the trial fails; resetting a model forgets all its data and its fit.",
 ["histories"], "all interleavings of adding data, resetting, predicting, optimising and selecting",
 "Tests add data once and predict once; few interleave adding and predicting, and none predicts after a trial fit.",
 [M+"PreferenceModel.py", M+"PreferenceGP.py", M+"PreferenceLinear.py", A+"MixedTypeDecision.py"],
 [("fitted flag", M+"PreferenceModel.py: add; PreferenceGP.py/PreferenceLinear.py: predict, optimize"), ("trial fits", A+"MixedTypeDecision.py: determine_query_type")],
 state=[("optimized", "the fitted quantities describe the current training data", M+"PreferenceModel.py")])

prop("C12", "Adding data is validated, all-or-nothing, and keeps labels on their points",
 "Adding feedback either fails and leaves the model exactly as it was, or appends all new points after the existing ones and records labels that refer to exactly those points, whatever the kind of feedback and however much was added before. Ratings outside [0, 1] and non-positive ordinal ratings are refused, accepted ratings are stored strictly between 0 and 1, and existing points and labels are never altered. A refused prior leaves the model as it was.",
 ["inputs", "histories"], "all sequences of additions of all kinds of feedback, valid and invalid",
 "Tests add one or two batches of one kind and never look at the model after a refused addition.",
 [M+"PreferenceModel.py", M+"GP.py"],
 [("adding data", M+"PreferenceModel.py: add; "+M+"GP.py: add")],
 state=[("X_train, y_train", "training points and labels that index into them", M+"PreferenceModel.py")])

prop("C13", "Dropping or selecting points keeps labels attached to the right points",
 "When points are removed or a subset of the data is taken, every label that remains still refers to the same point as before, no label kept refers to a point left out, a label whose points are all kept is kept, and a point that any kind of feedback refers to is not removed as unused (exactly the unreferenced ones are). Prior points stay known as such through this.",
 ["inputs", "histories"], "all data sets with any mixture of feedback kinds and any subset or unused points",
 "Tests drop points from data sets with one kind of feedback only.",
 [M+"PreferenceModel.py", U+"training_utility.py"],
 [("removal of unreferenced points", M+"PreferenceModel.py: remove_without_reference, add_prior"), ("subset of labels", U+"training_utility.py: get_y_with_idx")])

prop("C14", "Active learners return valid selections",
 "Every index an active learner selects is an index into the candidate points it was given, taken from the candidates it was told to choose among, never one already selected, and no index is returned twice. As many indices are returned as were asked for (bounded by the learner's own stated maximum), or the call fails.",
 ["inputs", "histories", "configurations"], "all candidate sets, preferred subsets, previous selections, query sizes and learners, with an untrained or trained model",
 "Tests select from all candidates, where a position in the allowed subset and an index into the candidates coincide.",
 [A+"ActiveLearner.py", A+"BestLearner.py", A+"UCBLearner.py", A+"GV_UCBLearner.py", A+"RandomLearner.py", A+"MutualInfoLearner.py", A+"AcquisitionSelection.py", A+"AbsAcquisition.py", A+"AbsBayesInfo.py", A+"BayesInfoGain.py", A+"ProbabilityLearner.py"],
 [("selection loop", A+"ActiveLearner.py: select, select_best, pick_pair_from_metric"), ("choice of one or two candidates", A+"*.py: select_greedy, select_pair")])

prop("C15", "The reported selection score belongs to the selection",
 "Whenever a learner chooses a candidate or a pair, it records a score for that very choice on every path, so a score left over from an earlier choice is never read. A learner that maximises (or, for the worst-candidate learner, minimises) its criterion returns the candidate whose recorded score is that optimum.",
 ["inputs", "histories"], "all candidate sets and calls, with an untrained or trained model",
 "Tests read the chosen index, hardly ever the score, and never after a second selection.",
 [A+"BestLearner.py", A+"UCBLearner.py", A+"GV_UCBLearner.py", A+"RandomLearner.py", A+"MutualInfoLearner.py", A+"AcquisitionSelection.py", A+"AbsAcquisition.py", A+"AbsBayesInfo.py", A+"BayesInfoGain.py"],
 [("selection score", A+"*.py: select_greedy, select_pair")], state=[("sel_metric", "score of the last choice", A+"ActiveLearner.py")])

prop("C16", "Mixed-feedback learners drive all their parts with the same fresh state",
 "A learner that combines a pairwise and a rating learner passes the model to every part, counts its calls once per selection and restarts the count when it gets a new model. Posterior samples it shares between its parts are drawn for the candidates of the current selection and are given to, and later withdrawn from, every part that uses them, so no selection ever works with samples of an earlier candidate set. The request is handed on to the parts as it was made, the selection of one of the parts is returned, a learner that compares its parts follows the one with the higher (weighted) score of this very selection, and one that draws the type of query asks for a rating with the probability it states.",
 ["histories", "configurations"], "all sequences of selections with changing candidate sets and models, all mixed learners",
 "Tests make one selection per learner object, where stale samples and counts cannot show.",
 [A+"RateChooseLearner.py", A+"MixedStrategy.py", A+"MixedTypeDecision.py", A+"AcquisitionBase.py"],
 [("mixed learners", A+"RateChooseLearner.py, MixedStrategy.py, MixedTypeDecision.py: select, set_model"), ("sample sharing", A+"AcquisitionBase.py: set_samples, unset_samples, get_samples_from_model")],
 state=[("samples_set", "shared samples override the model", A+"AcquisitionBase.py"), ("num_calls", "selections made with this model", A+"MixedStrategy.py")])

prop("C17", "Runs are reproducible from one seed",
 "Seeding the numpy global generator fixes every random decision of the library: no other source of randomness or time influences a result, the library never reseeds, and no result depends on the iteration order of unordered collections of non-integers.",
 ["histories", "configurations"], "all library calls after seeding",
 "The tests seed several generators at once (a plugin does), so a second source of randomness cannot be seen.",
 [U+"training_utility.py", U+"human_choice_model.py", U+"mcmc_sampling.py", U+"sample_utility.py", U+"synthetic_user.py", U+"FakeFunction.py", M+"PreferenceGP.py", A+"ActiveLearner.py"],
 [("random draws", "all calls of random generators in src/lop")])

prop("C18", "Callers' data is not modified",
 "No call of the library changes an array, list, set or dictionary passed to it (other than an explicit output argument of an internal helper), default argument values are never changed between calls, and data a model holds is not changed behind its back by later changes inside the library to arrays it handed out or received.",
 ["inputs", "histories"], "all public functions and methods and all arguments",
 "Tests rarely look at an argument after a call.",
 [M+"PreferenceModel.py", M+"GP.py", A+"ActiveLearner.py", U+"pareto.py", U+"training_utility.py", U+"probability_utility.py"],
 [("copying before in-place work", "all in-place writes in src/lop")])

prop("C19", "Simulated choices and ratings follow the stated probability model",
 "Choice probabilities are, row by row, the softmax of the scaled rewards, computed so that no reward overflows and each row sums to one; a simulated choice is drawn with those probabilities, and a perfect user picks the item with the largest reward. Ratings are the logistic function of the (noisy) scaled reward and so lie strictly between 0 and 1, and a simulated pairwise answer prefers the chosen item over each other item exactly once.",
 ["inputs", "configurations"], "all reward arrays of any shape, scale and rationality",
 "Tests use single small reward vectors, where subtracting one common maximum and a row-wise maximum are the same.",
 [U+"human_choice_model.py", U+"synthetic_user.py", U+"HumanChoiceUser2.py", U+"preference_pairs.py"],
 [("softmax choice", U+"human_choice_model.py"), ("simulated users", U+"synthetic_user.py")])

prop("C20", "No call of the library dies of a missing name, attribute or value",
 "Every name, attribute, method, argument and return value that library code relies on exists on the path on which it is used: no undefined or unassigned variable, no member that no class of the object provides, no call that does not fit the signature, no function documented to return a result that falls off its end. No library path stops in an interactive debugger.",
 ["inputs", "configurations"], "all paths of all library functions, including error paths and rarely used options",
 "Only lines a test runs are exercised; error paths and rare options never are.",
 [M+"PreferenceModel.py", M+"PreferenceGP.py", A+"ActiveLearner.py", A+"AcquisitionSelection.py", A+"BayesInfoGain.py", A+"MixedTypeDecision.py", A+"ProbabilityLearner.py", A+"AbsBayesInfo.py", PR+"OrdinalProbit.py", U+"preference_pairs.py", U+"HumanChoiceUser2.py", U+"synthetic_user.py"],
 [("name and member resolution", "all of src/lop")])

prop("C21", "The posterior sampler is Metropolis sampling",
 "Each step of the posterior sampler proposes from the current state and accepts with probability min(1, exp(log-density of proposal minus log-density of current state)), and the state and its log-density always change together. Exactly the requested number of samples is returned, taken after exactly the burn-in, one per step, repeating the current state when a proposal is rejected.",
 ["inputs", "histories"], "all log-densities, dimensions, sample counts, burn-in lengths and proposal functions",
 "Tests look at sample moments with wide tolerances.",
 [U+"mcmc_sampling.py"], [("sampler", U+"mcmc_sampling.py: metropolis_hastings")])

prop("C22", "Acquisition criteria are computed from their definition",
 "The upper-confidence criterion is the mean plus the exploration weight times the standard deviation (for the variance-volume variant, times the generalised variance of the growing query), the information-gain criterion is the average over samples of the choice-probability mutual information, the alignment acquisitions are the expected alignment, over pairs of posterior samples, of what the two samples would answer, normalised by the sample-average answer, and the best and worst learners use the mean. Each criterion is evaluated for every candidate considered, and for it alone, on the predictions made for this selection.",
 ["inputs", "configurations"], "all candidate sets, subsets, previous selections, posterior means, covariances and samples",
 "Tests only check which index wins on tiny examples.",
 [A+"UCBLearner.py", A+"GV_UCBLearner.py", A+"MutualInfoLearner.py", A+"BestLearner.py", A+"AcquisitionSelection.py", A+"AbsAcquisition.py"],
 [("criteria", A+"UCBLearner.py, GV_UCBLearner.py, MutualInfoLearner.py, BestLearner.py: select_greedy; AcquisitionSelection.py: select_greedy, select_pair; AbsAcquisition.py: select_greedy")])

prop("C23", "Pairwise choice probabilities agree with the training likelihood",
 "The matrix of pairwise choice probabilities used for planning queries has as (i, j) entry exactly the likelihood that training assigns to the observation that item i is preferred to item j, so that the entries (i, j) and (j, i) sum to one. The mean of the bounded-rating likelihood and the two parameters of its Beta distribution are mutually consistent with the same noise parameters used in training.",
 ["inputs", "configurations"], "all latent values and positive noise parameters",
 "Tests check the two sides separately.",
 [PR+"PreferenceProbit.py", PR+"AbsBoundProbit.py"],
 [("pairwise probability matrix", PR+"PreferenceProbit.py: likelihood_all_pairs, likelihood, log_likelihood"), ("Beta parameters", PR+"AbsBoundProbit.py: mean_link, get_alpha_beta, cdf")])

prop("C24", "The evidence used to tune hyper-parameters is the one stated, and is climbed",
 "The approximate model evidence of the preference model is log p(y|F) - 1/2 F'K^-1 F - 1/2 log det(I + K W) at the fitted latent values F, and the gradient reported for it is its derivative: for likelihood parameters the partial derivative at fixed latent values, for kernel parameters the total derivative at the mode (through the curvature and the latent values too). The hyper-parameter search moves along the evidence gradient plus the log-prior gradient, uphill.",
 ["inputs", "configurations"], "all training data, latent values, kernels and likelihood parameters, all mixtures of feedback kinds whose third derivatives the library provides",
 "Tests see that a search finishes and that parameters change; a wrong factor, sign or missing term in the gradient passes.",
 [M+"PreferenceGP.py", M+"PreferenceModel.py"],
 [("evidence and its gradient", M+"PreferenceGP.py: hyper-parameter objective and gradient"), ("hyper-parameter steps", M+"PreferenceGP.py: hyperparameter_search, gradient steps")])

prop("C25", "Alignment of rewards follows its definition",
 "The alignment of two reward functions, given by their rewards for the representative points, is the measure named: 'rho' minus the Euclidean distance of their softmax distributions over the points, 'epic' minus the Pearson distance (the root of half of one minus their correlation), 'spearman' the correlation of their ranks, 'loglikelihood' the log-probability that each gives to the best alternative of the other, summed over the representative queries, 'one' always one; the entry (i, j) of a matrix of alignments is the measure of sample i with sample j, within one set and between two sets. The mixed decision learner asks for a comparison exactly when the average alignment of the samples expected from a comparison with those of all data is greater than that of the samples expected from a rating, and reports both averages, that of ratings first.",
 ["inputs", "configurations"], "all rewards, query sets, numbers of samples and every named measure",
 "The measures are tested on a few vectors of equal sign; the decision on one data set, where either answer is accepted.",
 [A+"AcquisitionBase.py", A+"MixedTypeDecision.py"],
 [("alignment measures", A+"AcquisitionBase.py: alignment, alignment_between"), ("decision between kinds of queries", A+"MixedTypeDecision.py: AlignmentDecision")])

prop("C26", "Simulated reward functions give every point its own value",
 "The value a simulated reward function gives to a point is a single number that depends on that point alone: the same whether the point is given by itself, among other points, or in queries of several points each, whatever the number of rewards, points and queries. The linear, squared, weighted-maximum and weighted-minimum functions are the weighted sum of the rewards, of their squares, and the maximum and minimum of the weighted rewards.",
 ["inputs"], "all rewards, weights, numbers of points and queries, one to three rewards",
 "Tests evaluate single points only and compare a value with itself.",
 [U+"FakeFunction.py"], [("simulated reward functions", U+"FakeFunction.py: calc of every FakeFunction class (FakeIntegrate is a stub and excluded)")])
prop("C27", "Sampled queries are different sets of different known points",
 "Sampling sets returns exactly the number of sets asked for, all different, each of the size asked for and without repeated members, from the given population. Representative points are different training points (with the candidates when there are few training points), as many as asked for and available; representative queries are different sets of indices of these points, as many as asked for and possible, of the number of alternatives of the learner; stored queries are all sets within each environment. No search for different sets is started that cannot end because fewer exist.",
 ["inputs", "configurations"], "all populations, sizes, numbers of sets and random draws",
 "Tests sample a few sets with lucky seeds and look at shapes.",
 [U+"sample_utility.py", U+"synthetic_user.py", A+"AcquisitionBase.py"],
 [("sets", U+"sample_utility.py: sample_unique_sets"), ("representative queries", A+"AcquisitionBase.py: get_representative_Q"), ("test queries", U+"synthetic_user.py: sample_Qs")])
prop("C28", "Information about the best candidate follows Bayes' rule",
 "The probability that a candidate is the best one is, for a Gaussian-process posterior, the probability that all differences of its value to the others' are positive under the predictive mean and covariance, normalised over the candidates, and for the linear model the share of the posterior weight samples under which it has the highest value. The information a query gives about the best candidate is the entropy of these probabilities minus the entropy, averaged over the answers, of their update by Bayes' rule, where the probability of an answer given which candidate is best is the likelihood of that answer (close to certain for the best candidate itself). The greedy and the pair selection choose the largest information gain among the candidates they may choose from, and report it.",
 ["inputs", "configurations"], "all predictions, answer probabilities, candidates and queries",
 "Tests run a few selections and look at the shape of the result.",
 [A+"BayesInfoGain.py", A+"ActiveLearner.py"], [("information gain", A+"BayesInfoGain.py: calc_H_B_Q, select_pair, select_greedy"), ("probability of the best", A+"ActiveLearner.py: p_B_pref_gp, p_B_pref_linear")])
prop("C35", "Cross-validation folds partition the data",
 "Splitting data into folds puts every point into exactly one fold, with fold sizes as equal as possible (they differ by at most one), gives the number of folds asked for (at most half the number of points; nothing when that is less than two), and keeps compared points together where there is room.",
 ["inputs"], "all data sets, comparison graphs, fold counts and random draws", "Tests split two data sets.",
 [U+"training_utility.py"], [("fold assignment", U+"training_utility.py: k_fold_x_y")])
prop("C36", "The Pareto filter returns exactly the non-dominated points",
 "The Pareto filter keeps a point if and only if no other point is at least as large in every coordinate and larger in one; of several equal points it keeps one. The indices, or the mask, it returns refer to the points as given.",
 ["inputs"], "all finite sets of points, ties included", "Tests filter a few sets.",
 [U+"pareto.py"], [("filter", U+"pareto.py: get_pareto")])

# ---- stated, not claimed ----
prop("C31", "Fitting converges to a maximum of the posterior",
 "Fitting the preference model terminates at latent values where the gradient of the log-posterior is (numerically) zero.",
 ["inputs"], "all training data and kernels", "Tests fit a few data sets.",
 [M+"PreferenceGP.py"], [("mode finding", M+"PreferenceGP.py: find_mode")])
prop("C32", "Covariance matrices stay numerically positive definite",
 "Every covariance matrix the library factorises is numerically positive definite, so that no factorisation fails.",
 ["inputs"], "all point sets, including near-duplicate points", "Tests use well separated points.",
 [M+"GP.py", M+"PreferenceGP.py"], [("factorisation", M+"GP.py: predict")])
prop("C33", "Tuned simulated users reach the requested accuracy",
 "After tuning, a simulated user answers with the requested accuracy within the stated tolerance.",
 ["inputs"], "all reward sets and target accuracies", "Tests tune on a few reward sets.",
 [U+"synthetic_user.py", U+"HumanChoiceUser2.py"], [("tuning", U+"synthetic_user.py: learn_beta")])
prop("C34", "Hyper-parameter optimisation improves the approximate evidence",
 "Hyper-parameter optimisation ends with hyper-parameters whose approximate model evidence is not worse than at the start.",
 ["inputs", "histories"], "all training data", "Tests check that the search runs.",
 [M+"PreferenceGP.py"], [("hyper-parameter search", M+"PreferenceGP.py: optimize, hyperparameter_search")])
prop("C37", "Posterior samples come from the posterior",
 "The samples drawn by the Markov-chain sampler are distributed as the target density after burn-in.",
 ["inputs", "histories"], "all target densities", "Tests compare moments with wide tolerances.",
 [U+"mcmc_sampling.py"], [("sampler", U+"mcmc_sampling.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
