#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
S = "pySOT/strategy/surrogate_strategy.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


prop("C01", "The evaluation budget is never exceeded",
     "At every moment of a run, the number of completed evaluations plus the number of evaluations proposed but not yet "
     "finished is at most the evaluation budget given at construction. This holds for every strategy, in asynchronous and "
     "synchronous batch mode, whatever proposals are rejected, whatever evaluations fail or are killed, across restarts and "
     "after resuming from a checkpoint.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "all budgets, all interleavings of accept/reject/complete/kill/cancel, all strategies and modes",
     "tests run a handful of seeded runs to the end; the overshoot cases need a failure, rejection or restart at the last evaluations",
     [S, "pySOT/strategy/random_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("termination test on completed + pending", S + ":check_termination"), ("pending counter", S + ":make_proposal")],
     ["number of evaluation proposals issued and not rejected or aborted"])

prop("C02", "A run always makes progress and stops exactly when it should",
     "Whenever no evaluation is outstanding, asking a strategy for its next action yields a proposal: a new evaluation while "
     "budget remains, or termination. Termination is proposed only when nothing is outstanding, and only once the budget has been "
     "used up (or, when restarts are disabled, the search has converged), and no evaluation is proposed after the budget was "
     "assigned. A run in which no evaluation fails, with restarts enabled, therefore completes exactly as many evaluations as "
     "its budget.",
     ["schedules", "histories", "configurations"],
     "all interleavings of accept/reject/complete/kill up to the bound, any budget, restarts on/off",
     "a stall or an early stop needs a specific history (converged with restarts off, rejection of the last point, kills in a batch)",
     [S, "pySOT/strategy/random_strategy.py"],
     [("propose_action decision cascade", S + ":propose_action"), ("sticky terminate flag", S + ":check_termination")],
     ["result of propose_action"])
P[-1]["statement"] = (
    "Whenever no evaluation is outstanding, asking a strategy for its next action yields a proposal: a new evaluation while "
    "budget remains, or termination. Termination is proposed only when nothing is outstanding and the budget was assigned in full "
    "(or, with restarts disabled, the search has converged). Hence a run in which no evaluation fails, with restarts enabled, "
    "completes exactly as many evaluations as its budget.")

prop("C03", "The evaluation ledger is exact",
     "After every event, the recorded evaluations are exactly the completed ones, each once, in completion order, with the point that "
     "was proposed and the value that was returned; failed, killed and rejected evaluations contribute no point. The list of pending "
     "points is, with multiplicity, exactly the set of evaluations outstanding, also when the same point is outstanding twice. "
     "The log of finished evaluation records contains every completed or aborted record once.",
     ["schedules", "histories", "inputs"],
     "all interleavings of accept/reject/complete/kill, all points (equal ones included) and all function values",
     "tests never look at intermediate states and never kill, reject or duplicate an evaluation",
     [S], [("history arrays", S + ":on_initial_completed, on_adapt_completed"), ("pending list", S + ":make_proposal, remove_pending")],
     ["X, fX, Xpend, fevals, num_evals, pending_evals"])

prop("C04", "Initial designs and batches are evaluated in full",
     "Every point of the initial design, and every extra point without a known value, is proposed until it has completed, however "
     "often its evaluation is rejected, killed or fails, until the budget has been assigned in full. Points chosen by the surrogate are proposed only "
     "after the whole design was assigned (asynchronous) or completed (synchronous), and in synchronous mode a new batch, of exactly the "
     "configured size, is generated only when the previous one has finished and its rejected points were proposed again.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of accept/reject/complete/kill up to the bound; both modes; with extra points",
     "needs aborts or rejections of initial points at particular moments; the tests' evaluations never fail",
     [S], [("batch queue and requeue on reject/abort", S + ":on_initial_rejected, on_initial_aborted, on_adapt_reject"),
           ("phase switch", S + ":propose_action")],
     ["sequence of proposed points, calls of generate_evals"])

prop("C05", "The surrogate holds exactly the current run's completed evaluations",
     "At any time the surrogate model contains each evaluation that was proposed since the last restart and has completed, exactly once "
     "with its value, plus any extra points with known values in the first run, and nothing else. Evaluations proposed before a restart "
     "that complete afterwards enter the overall history but not the surrogate or the data of the new run; changes of the search "
     "radius never drop an evaluation.",
     ["schedules", "histories"],
     "all interleavings of proposals, completions, kills, restarts and radius changes; both modes",
     "requires late completions across a restart or a radius change, which depend on the schedule",
     [S, "pySOT/strategy/srbf_strategy.py", "pySOT/surrogate/surrogate.py"],
     [("event ids compared at completion", S + ":on_adapt_completed"), ("reset at restart", S + ":sample_restart, sample_initial")],
     ["points and values held by the surrogate after each event"])

prop("C06", "Every proposed evaluation is feasible",
     "Every point that a strategy, a candidate search or a bundled optimizer proposes lies within the lower and upper bounds, and each of its "
     "integer variables is integral, for any bounds, any mix of integer and continuous variables, any data and any random draws.",
     ["inputs", "configurations"],
     "all bounds with integral bounds on integer variables, all data points and values, all random draws, all surrogate predictions",
     "tests use one or two problems and one seed; truncated sampling, rounding and bound handling fail only at particular inputs",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/auxiliary_problems/candidate_dycors.py",
      "pySOT/auxiliary_problems/candidate_uniform.py", "pySOT/utils.py", "pySOT/strategy/random_strategy.py",
      "pySOT/experimental_design/experimental_design.py"],
     [("truncated normal perturbation", "pySOT/auxiliary_problems/*:candidate_*"), ("rounding into the domain", "pySOT/utils.py:round_vars")],
     ["points returned or proposed"])

prop("C07", "Candidates are chosen by weighted merit, never too close to known points",
     "Each point returned by a candidate search is one of the candidates and minimizes, over the candidates at least the minimum distance away "
     "from every evaluated, pending and already chosen point, w*s + (1-w)*(1-d), where s is the surrogate prediction and d the distance "
     "to the nearest such point, both rescaled to [0,1]. A candidate closer than the minimum distance, or one already chosen, is never returned "
     "while an admissible candidate remains.",
     ["inputs"],
     "all candidate sets, data, pending points, predictions and weights, up to the size bounds",
     "the existing tests only check distances on one random instance with one seed",
     ["pySOT/auxiliary_problems/candidate_srbf.py", "pySOT/utils.py"],
     [("weighted_distance_merit", "pySOT/auxiliary_problems/candidate_srbf.py"), ("unit_rescale", "pySOT/utils.py")],
     ["returned points"])

prop("C08", "Candidates perturb the right coordinates around the right center",
     "Candidate points differ from the center - the best evaluated point of the current run, or the one given - only in the requested coordinates; "
     "dynamic coordinate search perturbs at least one requested coordinate of every candidate, can perturb each of them, and only those whose draw "
     "falls below the perturbation probability otherwise; uniform candidates range over the whole box in the requested coordinates. Each perturbation is drawn around the center's coordinate, truncated to the bounds, "
     "with spread equal to the search radius times the variable's range (at least 1 for integer variables). The perturbation probability used by "
     "the dynamic strategies follows the published schedule, is at least 1/dim and at most 1, for every evaluation count.",
     ["inputs", "configurations"],
     "all data, centers, subsets, probabilities, random draws; all evaluation counts and budgets for the probability",
     "tests never pass a subset or look at the candidates themselves",
     ["pySOT/auxiliary_problems/candidate_dycors.py", "pySOT/auxiliary_problems/candidate_srbf.py",
      "pySOT/auxiliary_problems/candidate_uniform.py", "pySOT/strategy/dycors_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("perturbation mask", "pySOT/auxiliary_problems/candidate_dycors.py"), ("probability schedule", "pySOT/strategy/dycors_strategy.py:generate_evals")],
     ["candidate set shown to the surrogate, sampler arguments"])

prop("C09", "The search radius follows the trust-region rules; merit weights cycle",
     "In the radius-based strategies the search radius starts at 0.2, is halved exactly after the failure limit (the larger of four and the dimension, "
     "divided by the batch size in synchronous mode and rounded up) of consecutive non-improving steps, doubled (never beyond 0.2) exactly after three consecutive improving steps, and unchanged otherwise. A step is one completed evaluation "
     "(asynchronous) or one completed batch (synchronous) chosen by the surrogate; evaluations proposed before the last radius change or restart are not steps. The first step of a run "
     "improves; a later one improves when its best value is below the best value of the run's earlier steps by more than 0.1 percent of that value's magnitude. The search converges (and restarts, with the radius back at 0.2) exactly when the radius has reached its "
     "minimum of 0.2/64 or the consecutive failures reach four times the limit. The merit weights are used cyclically, in order, one per generated point.",
     ["histories", "inputs", "configurations"],
     "all sequences of function values from any reachable counter state; both modes; any dimension and batch size",
     "the rule depends on long histories of values; tests only check final function values",
     ["pySOT/strategy/srbf_strategy.py"],
     [("adjust_step", "pySOT/strategy/srbf_strategy.py"), ("get_weights", "pySOT/strategy/srbf_strategy.py")],
     ["sampling radius and weights passed to the candidate search, restarts"])

prop("C10", "EI and LCB acquisition: formula, separation and stopping threshold",
     "The expected improvement merit equals sigma*(g*cdf(g)+pdf(g)) with g=(best-mu)/sigma, and the confidence-bound merit equals mu-kappa*sigma, except that a point closer "
     "than the tolerance to an evaluated, pending or already chosen point gets the worst merit. Batch selection returns the points found by maximizing that merit one at a time, "
     "keeping later points away from earlier ones, and gives up exactly when the best merit misses the threshold. The strategies pass the documented default tolerances "
     "and treat giving up as convergence.",
     ["inputs", "configurations"],
     "all predictions and standard deviations, data, tolerances, kappa and batch sizes up to the bound",
     "the tests for these currently fail with the installed scikit-learn, and only ever check a distance",
     ["pySOT/auxiliary_problems/ei_merit.py", "pySOT/auxiliary_problems/lcb_merit.py", "pySOT/auxiliary_problems/ei_ga.py",
      "pySOT/auxiliary_problems/lcb_ga.py", "pySOT/strategy/ei_strategy.py", "pySOT/strategy/lcb_strategy.py"],
     [("ei_merit/lcb_merit", "pySOT/auxiliary_problems"), ("ei_ga/lcb_ga", "pySOT/auxiliary_problems")],
     ["merit values, returned points, converged flag"])

prop("C11", "The genetic algorithm returns the best individual it ever evaluated",
     "The optimizer returns a point and value such that the value is the objective at that point and no evaluated individual has a smaller one. Every individual "
     "it evaluates lies within the bounds with integral integer variables, exactly population size individuals (rounded up to even) are evaluated per generation, and "
     "an initial population given by the caller is accepted exactly when it is an array of (rounded population size) x (number of variables) and lies within the bounds, and is not modified.",
     ["inputs", "configurations"],
     "all objective functions, initial populations, random draws; small populations and generation counts",
     "tests check convergence on one smooth function with one seed",
     ["pySOT/utils.py"], [("elitism and clipping", "pySOT/utils.py:GeneticAlgorithm.optimize")], ["objective calls, returned pair"])

prop("C12", "Non-dominated fronts and ranks are exact",
     "The non-dominated front contains exactly the points that no other point strictly beats in all objectives; each point is reported once, as dominated or as "
     "non-dominated. Sorting gives rank 1 to the front, rank k+1 to the front of what remains after removing ranks up to k, and infinite rank only to points "
     "beyond the requested number of ranked points.",
     ["inputs"],
     "all objective matrices (ties and duplicates included) up to the size bound, every cut-off",
     "only one fixed example is tested, and sorting itself does not run under the installed numpy",
     ["pySOT/utils.py"], [("nd_add/nd_front/nd_sorting", "pySOT/utils.py")], ["returned indices and ranks"])

prop("C13", "Pareto-center search keeps its centers, radii and tabu memory consistent",
     "Whenever it generates points, the Pareto-center strategy has exactly the configured number of centers, each an evaluated point whose new point is still outstanding or which was newly selected. "
     "New centers are selected in one pass: the best evaluated point first unless it is in use, then the evaluated points ordered by tabu status (points in use last), non-domination rank (value against distance to the other points) and value, "
     "leaving out points too close to centers selected in the same pass while others remain. When a center's new point completes and is not on the non-dominated front, the center's search radius is halved and its failure count increased; "
     "after the fourth failure it becomes tabu with the initial radius, and it is available again after five updates. Candidates are generated around the center with the center's own radius. No interleaving of completions, rejections and aborts, with at "
     "least as many centers as workers, makes the strategy crash or leaves a center in use without an outstanding evaluation.",
     ["schedules", "histories", "inputs"],
     "all function values and points, all interleavings up to the bound, both modes",
     "the strategy does not run under the installed numpy; its memory rules need specific sequences of successes and failures",
     ["pySOT/strategy/sop_strategy.py", "pySOT/utils.py"],
     [("update_center_list/adjust_memory", "pySOT/strategy/sop_strategy.py"), ("check_radius_rule", "pySOT/utils.py")],
     ["centers chosen, radius passed to candidate search"])

prop("C14", "Experimental designs have the promised structure",
     "A Latin hypercube places exactly one point in each of n equal slices of every coordinate; a symmetric Latin hypercube uses every one of n equally spaced levels once per coordinate and "
     "contains with each point its mirror image; the two-level factorial contains every corner once. With bounds given, designs are mapped onto the box with integer variables rounded, and "
     "without, they lie in the unit box. The design returned is the one with the largest minimum distance among the full-rank designs generated, with the requested shape.",
     ["inputs", "configurations"],
     "all random draws, all bounds; small dimensions and sizes (even and odd)",
     "tests check shape and bounds for a few sizes and seeds",
     ["pySOT/experimental_design/lhd.py", "pySOT/experimental_design/slhd.py", "pySOT/experimental_design/two_factorial.py",
      "pySOT/experimental_design/experimental_design.py"],
     [("_slhd", "pySOT/experimental_design/slhd.py"), ("_expdes_dist", "pySOT/experimental_design/experimental_design.py")],
     ["returned design"])

prop("C15", "Box mapping, rescaling and rounding are exact",
     "Mapping to the unit box and back returns the original points, and takes bounds to 0 and 1. Rescaling maps the smallest entry to 0, the largest to 1, preserves order, and maps a constant "
     "vector to ones. Rounding changes only integer variables, yields for each the nearest integer, never outside the bounds.",
     ["inputs"], "all points, bounds, integer sets",
     "a few fixed arrays are tested",
     ["pySOT/utils.py"], [("to_unit_box, from_unit_box, unit_rescale, round_vars", "pySOT/utils.py")], ["returned arrays"])

prop("C16", "Surrogates always answer from all the data added since the last reset",
     "Adding points never refits; the next prediction uses exactly the points and values added since the last reset, in order, scaled to the unit box and with the output "
     "transformation applied, and refits at most once until more points arrive. Resetting forgets everything, and a prediction after a reset depends only on what was added since. Single points, "
     "batches, scalars and columns are accepted alike.",
     ["histories", "inputs"],
     "all sequences of add/predict/reset operations up to the bound; all points and values; every surrogate class that can be loaded",
     "tests add all points, predict once, and never reset or interleave",
     ["pySOT/surrogate/surrogate.py", "pySOT/surrogate/rbf.py", "pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py"],
     [("updated flag", "pySOT/surrogate/surrogate.py:add_points"), ("_fit", "pySOT/surrogate/*.py")],
     ["data passed to the fit, predictions"])

prop("C17", "The RBF interpolant solves its system, however the points were added",
     "The fitted RBF satisfies the regularized interpolation equations with the transformed values and the side conditions of its polynomial tail, for each kernel and tail. "
     "The predictions after any sequence of incremental additions, including after a failed incremental factorization, equal those of a model fitted to all "
     "points at once.",
     ["inputs", "histories"],
     "all function values; all ways to split the additions; representative point sets including near-singular ones (1-3 dimensions)",
     "tests check interpolation on one data set and never compare incremental with full fits",
     ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"],
     [("LU extension with Schur complement", "pySOT/surrogate/rbf.py:_fit")], ["coefficients and predictions"])

prop("C18", "Surrogate derivatives are the derivatives of the predictions",
     "For every kernel and tail, the kernel derivative is the derivative of the kernel, the tail derivative that of the tail, and the gradient returned by the RBF at a point is the "
     "gradient of its prediction there in the original (unscaled) variables, for one or several points at once.",
     ["inputs"],
     "all evaluation points away from the data, all coefficients/values, any box",
     "tests check one function on the unit box at a few points to low accuracy",
     ["pySOT/surrogate/rbf.py", "pySOT/surrogate/kernels", "pySOT/surrogate/tails"],
     [("predict_deriv", "pySOT/surrogate/rbf.py"), ("kernel.deriv, tail.deriv", "pySOT/surrogate/kernels, tails")],
     ["predict_deriv, deriv"])

prop("C19", "Checkpoints are atomic: a crash never loses the last good one",
     "If the process stops at any point while a checkpoint is written, the checkpoint file is either the complete previous or the complete new one, never absent "
     "once it existed, truncated or mixed. A checkpoint is written after every finished evaluation and at termination, and includes that evaluation; any file name, with or without directory, "
     "works, and starting a new run refuses to overwrite an existing checkpoint.",
     ["crash_points", "histories", "configurations"],
     "all crash points between and inside file operations, all schedules of finished evaluations, file names with and without directories",
     "tests never crash inside a save and use one plain file name",
     ["pySOT/controller/controller.py", S], [("write-then-rename", S + ":save"), ("callbacks", "pySOT/controller/controller.py")],
     ["file-system operations, content of the checkpoint"])

prop("C20", "Resuming continues the interrupted run",
     "After resuming from the last checkpoint, all completed evaluations and their values are still known to strategy and controller, nothing is counted as outstanding, every design point not yet "
     "completed is evaluated again, and the run goes on within the original budget to completion. Resuming without a checkpoint file raises an I/O error.",
     ["crash_points", "schedules", "histories"],
     "interruption after any event of any schedule up to the bound, both modes, every surrogate strategy",
     "tests resume after one fixed kill and look only at the final number of evaluations",
     [S, "pySOT/controller/controller.py"], [("resume", S + ":resume"), ("CheckpointController.resume", "pySOT/controller/controller.py")],
     ["state after resume, proposals after resume"])

prop("C21", "Test problems compute their documented functions",
     "Each bundled test problem computes its documented formula for every input of the right length, in every dimension, and rejects other lengths. For those whose minimum is stated, the stated minimizer lies within "
     "the stated bounds and attains the stated value, and (except for the Hartmann functions, where this is not claimed) no point within the bounds has a smaller value. Every problem passes the library's own problem check.",
     ["inputs", "configurations"],
     "all inputs in the box; dimensions up to the bound",
     "tests evaluate each problem only at its minimizer, in one dimension",
     ["pySOT/optimization_problems"], [("eval", "pySOT/optimization_problems/*.py")], ["eval, lb, ub, min, minimum"])

prop("C22", "Malformed problems and configurations are rejected, valid ones accepted",
     "The problem check accepts exactly the problems whose dimension is a positive integer, whose bounds are arrays of that length with every lower bound below its upper bound, and whose integer and "
     "continuous index sets are arrays that together cover every variable once. The strategies reject budgets that are not integers or are smaller than the initial design, "
     "synchronous mode without a batch size, and components of the wrong kind (look-alikes that do not implement the interface, a surrogate that is no Gaussian process for EI and LCB, a design of another dimension, weights outside [0, 1], larger batches than centers in SOP), and accept everything else documented. An RBF surrogate rejects a tail of another dimension or of smaller degree than its kernel needs, and points whose dimension or number of values does not fit, without changing the model.",
     ["configurations", "inputs"],
     "all dimensions, bounds and index sets up to the size bound; all budgets and design sizes",
     "tests try a few wrong inputs only",
     ["pySOT/utils.py", S, "pySOT/strategy/random_strategy.py", "pySOT/strategy/srbf_strategy.py", "pySOT/strategy/sop_strategy.py"],
     [("check_opt_prob", "pySOT/utils.py"), ("check_input", S)], ["exception or none"])

prop("C23", "Extra points are used once, with their known values",
     "User-supplied extra points with a known value are never evaluated again: they are recorded with that value, added to the surrogate and to the first run's data, and count neither as evaluations nor against the budget. "
     "Those without a value (no values given, NaN or infinity) are each evaluated once as part of the first initial design; after a restart no extra point is proposed again. The arrays supplied by the caller are not modified.",
     ["inputs", "histories", "configurations"],
     "all mixes of known and unknown values, all points and values, both modes",
     "tests pass either all or no values",
     [S], [("sample_initial", S)], ["proposals, X/fX, surrogate data"])

prop("C24", "Random search evaluates its points exactly once each",
     "Random search generates as many points as its budget, uniformly within the bounds, and proposes each until it completes exactly once, re-proposing rejected and failed evaluations, "
     "and terminates only when all have completed.",
     ["schedules", "histories", "inputs"],
     "all interleavings of accept/reject/complete/kill up to the bound; all draws",
     "tests run it once, serially",
     ["pySOT/strategy/random_strategy.py"], [("retry queue", "pySOT/strategy/random_strategy.py")], ["proposals"])

prop("C25", "Values are transformed and normalized consistently by the surrogates",
     "Median capping replaces exactly the values above the median by the median and leaves its input unmodified. The Gaussian process is fitted to the transformed values shifted and scaled to zero mean and unit deviation (but never divided by less than 1e-6, so constant data are mapped to zero) "
     "and maps its predictions and standard deviations back accordingly, as columns with one row per point.",
     ["inputs"],
     "all value vectors up to the size bound",
     "tests check accuracy of predictions on one data set only",
     ["pySOT/surrogate/gp.py", "pySOT/surrogate/poly.py", "pySOT/surrogate/output_transformations/median_capping.py"],
     [("_fit/predict/predict_std", "pySOT/surrogate/gp.py"), ("median_capping", "pySOT/surrogate/output_transformations")],
     ["data passed to the regressor, returned arrays"])

prop("C26", "Strategies stay consistent under concurrent callbacks of worker threads",
     "With a threaded controller, concurrently finishing evaluations never corrupt the strategy's counters or data.",
     ["schedules"], "all thread interleavings at bytecode level",
     "needs adversarial thread schedules",
     [S], [("POAP's controller serializes callbacks through its message queue", "poap/controller.py:ThreadController")], ["counters"])

prop("C27", "The caller's arrays are never modified",
     "No function or method of the library changes the contents of an array or weight list that the caller passes in: the candidate searches (evaluated points, values, pending points, weights, subset, center), the merit functions and their optimizers, the genetic algorithm, "
     "front computation and sorting, box mapping and rescaling, output transformations, kernels, tails, surrogates (added points and values, queried points, bounds), experimental designs, and the bounds and variable lists of the problem. A point that a strategy has proposed is never modified afterwards. "
     "The only functions that work in place by design are round_vars (its first argument) and nd_add (its index lists).",
     ["inputs", "histories"],
     "all argument values up to the size bounds, including degenerate ones (coinciding points, constant values, zero distances)",
     "tests look at results, not at what happened to the arguments; in-place clamping or sorting only shows for particular values and in later calls",
     [S, "pySOT/auxiliary_problems", "pySOT/surrogate", "pySOT/utils.py", "pySOT/experimental_design", "pySOT/optimization_problems"],
     [("eval/deriv", "pySOT/surrogate/kernels"), ("candidate_dycors/srbf/uniform", "pySOT/auxiliary_problems"), ("add_points/predict", "pySOT/surrogate/surrogate.py"), ("to_unit_box/unit_rescale/nd_sorting", "pySOT/utils.py")],
     ["contents of the arguments after the call"])

prop("C28", "Objects are independent of each other",
     "Creating or using one strategy, surrogate, experimental design, optimization problem, kernel, tail, genetic algorithm or checkpointed run never changes what another one proposes, passes to its search, holds, predicts, reports or saves: "
     "two of them used side by side, in any interleaving, behave as each does alone in a process of its own with the same results and the same draws, and a newly created one starts fresh whatever was used before. Points, designs and predictions that were handed out are never changed by later calls, "
     "and changing a returned array or the bounds of one problem object does not affect any other object.",
     ["schedules", "histories", "configurations"],
     "all interleavings of two runs up to the event bound; all values; all pairs of kinds listed in the bounds",
     "tests use one object at a time, in a process where nothing was used before, and never look at an earlier result again",
     [S, "pySOT/strategy", "pySOT/surrogate", "pySOT/experimental_design", "pySOT/optimization_problems", "pySOT/utils.py", "pySOT/controller/controller.py"],
     [("instance state", S), ("default kernel, tail and model", "pySOT/surrogate"), ("GeneticAlgorithm", "pySOT/utils.py"), ("temporary and checkpoint file names", "pySOT/controller/controller.py")],
     ["proposals, search arguments, X/fX/fevals, predictions, returned arrays, checkpoint files"])

prop("C29", "Runs are reproducible from numpy's global random state",
     "With numpy's global generator in the same state and the same results arriving in the same order, the candidate searches, experimental designs, the genetic algorithm, the expected improvement and lower confidence bound searches, random search and whole optimization runs make the same draws and return the same points, "
     "however often they were called before. All randomness is drawn from that generator: the library never reseeds it, never draws from a generator of its own whose state the caller cannot set, and so np.random.seed makes a run repeatable.",
     ["inputs", "histories", "configurations"],
     "all values of all draws (the random numbers are symbolic), all results; all earlier calls up to the bound",
     "tests check that the output has the right shape or is good enough; they never run the same thing twice with the same draws",
     [S, "pySOT/auxiliary_problems", "pySOT/experimental_design", "pySOT/utils.py", "pySOT/strategy/random_strategy.py"],
     [("np.random.*", "pySOT/auxiliary_problems"), ("generate_points", "pySOT/experimental_design"), ("optimize", "pySOT/utils.py")],
     ["the sequence of draws, returned points"])

prop("C30", "Optional arguments have their documented defaults, and given ones take effect",
     "Leaving out an optional argument (or passing None where that is documented) is the same as passing its documented default explicitly, whichever other optional arguments are given, and an argument that is given is the one that takes effect. "
     "Strategies: asynchronous, no extra points, restarts on; SRBF and DYCORS: weights [0.3, 0.5, 0.8, 0.95], num_cand = 100*dim; SOP: ncenters = 4, num_cand = 100*dim; EI and LCB: dtol = 1e-3*norm(ub-lb), LCB: kappa = 2. "
     "Candidate searches: all coordinates are perturbed, no pending points, 100*dim candidates around the best point, sampling_radius 0.2, dtol 1e-3; lcb_ga without lcb_target never gives up; RBFInterpolant: cubic kernel, linear tail (each also when only the other one is given), eta = 1e-6; "
     "surrogates: no output transformation, GPRegressor uses the given model; experimental designs: the unit box unless both bounds are given, continuous variables when int_var is None or empty.",
     ["inputs", "configurations", "schedules"],
     "all values, draws and bounds; the combinations of given and omitted arguments listed in the bounds",
     "tests construct the objects in a few ways and only look at whether the optimization finds something",
     [S, "pySOT/strategy", "pySOT/auxiliary_problems", "pySOT/surrogate", "pySOT/experimental_design"],
     [("__init__", "pySOT/strategy"), ("candidate_*, ei_ga, lcb_ga", "pySOT/auxiliary_problems"), ("__init__", "pySOT/surrogate/rbf.py"), ("generate_points", "pySOT/experimental_design")],
     ["proposals, arguments of the searches, predictions, designs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
