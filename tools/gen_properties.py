#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line)."""
import json, os
CD = "src/solvers/anderson_cd/mod.rs"; BCD = "src/solvers/anderson_bcd/mod.rs"
SP = "src/penalties/separable/mod.rs"; BP = "src/penalties/block_separable/mod.rs"
DF = "src/datafits/single_task/mod.rs"; MDF = "src/datafits/multi_task/mod.rs"
EST = "src/estimators/estimators.rs"; HP = "src/estimators/hyperparams.rs"
DM = "src/datasets/impl_design_matrix.rs"; CSC = "src/datasets/csc_array.rs"
TG = "src/datasets/impl_targets.rs"; UT = "src/utils/mod.rs"; IS = "src/solvers/impl_solver.rs"
PE = "python/sparseglm/estimators.py"; PU = "python/sparseglm/utils.py"
PW = ["python/src/lasso.rs", "python/src/mtl_lasso.rs", "python/src/elastic_net.rs",
      "python/src/multi_task_elastic_net.rs", "python/src/mcp.rs", "python/src/block_mcp.rs"]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Convex fits satisfy the optimality conditions to the tolerance",
 "Fitting Lasso, Elastic Net, multi-task Lasso or multi-task Elastic Net with ample budgets returns coefficients whose optimality (KKT) violation for the documented objective (squared loss averaged over samples and halved, plus the documented penalty) is at most the requested tolerance, for every feature. "
 "This holds for dense and sparse designs, correlated, duplicated or empty columns, more features than samples or the reverse, every regularisation strength from zero to above the critical one and every valid value of the solver settings.",
 ["inputs", "configurations"], "all designs, targets, penalties, strengths, mixing ratios, tolerances, working-set sizes, extrapolation depths, acceleration on/off",
 "Tests fit about four seeded Gaussian datasets with default settings and compare to stored coefficients at 1e-6; they never vary tolerance, K, working-set size together with shape and sparsity.",
 [CD, BCD, EST, DF, MDF, SP, BP], [("outer loop stops only when the violation over all features is below tolerance", CD), ("same for blocks", BCD)],
 ["coefficients returned by fit, through the estimators and through the solver"],
 [("w", "current coefficients", CD), ("Xw", "incrementally maintained model fit, must equal X w", CD)])
prop("P02", "MCP and block-MCP fits are stationary points",
 "Fitting the MCP and block-MCP regressors with ample budgets returns coefficients at which the distance from minus the gradient of the loss to the limiting subdifferential of the documented penalty is at most the tolerance for every feature, on problems where each non-empty feature's one-dimensional subproblem is strongly convex (curvature times gamma above 1). "
 "This holds in all three regions of the penalty (zero, concave, flat), with one or several tasks, dense or sparse.",
 ["inputs", "configurations"], "all designs, targets, alpha, gamma > 1/curvature, settings, storage kinds",
 "Tests fit one seeded dataset per model and compare sparsity or a stored vector; the concave region of the block penalty was never exercised.",
 [CD, BCD, SP, BP, EST], [("MCP prox and violation score", SP), ("block MCP prox and violation score", BP)], ["coefficients returned by fit"])
prop("P03", "Sparse logistic fits satisfy their optimality conditions",
 "Minimising the averaged logistic loss with an L1, L1+L2 or MCP penalty through the generic solver returns coefficients whose optimality violation is at most the tolerance for every feature, for labels in {-1, +1}, dense or sparse designs, separable or not (for a positive strength; with MCP, which cannot bound separable problems, for non-separable data and strongly convex one-dimensional subproblems).",
 ["inputs", "configurations"], "all designs, sign vectors, penalties, strengths, settings",
 "The repository has no end-to-end test of logistic regression; only values and gradients of the datafit at one or two points are tested.",
 [CD, DF, UT], [("curvature bound used as step size", DF), ("gradient through the sigmoid", DF)], ["coefficients returned by the generic solver"])
prop("P04", "L0.5 fits are fixed points of the proximal iteration",
 "Minimising a smooth loss with the L0.5 penalty through the generic solver with ample budgets returns coefficients that each equal, to the tolerance, the penalty's proximal operator applied after one gradient step on that coordinate; in particular the zero vector is returned only when it is such a fixed point.",
 ["inputs", "configurations"], "all designs, targets, strengths and settings",
 "No test ever solves a problem with this penalty; only its value and prox are tested at three points.",
 [SP, CD], [("fixed point violation for L0.5", SP), ("solver scores through the penalty's violation", CD)], ["coefficients returned by the generic solver"])
prop("P05", "More solver budget never worsens the objective",
 "The objective at the returned coefficients never increases when the epoch budget of a single outer iteration is increased by one or when the number of outer iterations is increased by one, and never exceeds the objective of the zero vector. "
 "It holds for every loss and penalty whose coordinate update is an exact or majorised minimisation, with extrapolation on or off.",
 ["inputs", "histories", "configurations"], "all truncations of every solver run on all datasets, penalties, depths K, settings",
 "Tests look only at converged results; an update or extrapolation that overshoots and is later repaired is invisible to them.",
 [CD, BCD], [("coordinate update is a proximal step with the exact curvature", CD), ("extrapolation kept only when the objective decreases", CD), ("block version", BCD)],
 ["objective of the coefficients returned by truncated runs"])
prop("P06", "Solver tuning knobs do not change the answer",
 "For a problem with a unique solution, the initial working-set size, the extrapolation depth, enabling acceleration, the verbosity and any sufficient iteration and epoch budgets leave the fitted coefficients the same up to the tolerance. For non-unique convex problems the objective value is unchanged.",
 ["configurations", "inputs"], "all combinations of the knobs over families of problems with a known unique solution",
 "Existing tests run one setting per dataset and never compare settings with each other.",
 [CD, BCD, HP, IS], [("working-set growth until global optimality", CD), ("knobs forwarded to the solver", EST)], ["coefficients under different settings"])
prop("P07", "Sparse and dense designs give the same results",
 "A design given in compressed-sparse-column form produces the same fits, losses, gradients, curvatures and critical regularisation as the equal dense matrix, whatever the order of row indices inside a column, with explicitly stored zeros, empty columns and rows, completely empty or full matrices, and columns given as a window of a wider matrix (column pointers that do not start at zero or do not end with the data).",
 ["inputs"], "all small matrices and all orderings and zero-paddings of their sparse representation",
 "Sparse tests use three fixed matrices with sorted indices, few entries and no explicit zeros.",
 [DM, CSC, DF, MDF, UT], [("CSC loops over stored entries", DM), ("CSC datafits", DF), ("CSC multi-task datafit", MDF)], ["fits and datafit outputs for both storages"])
prop("P08", "Memory layout and ownership of the data are irrelevant",
 "Row-major, column-major, strided, reversed and view or shared-ownership inputs holding the same numbers give the same loss values, derivatives and fits (a loss does not care about the layout of the model fit either), and the number type's layout never leaks into the result; the inputs are not modified.",
 ["inputs", "configurations"], "all layouts x ownership kinds of design and targets over families of datasets",
 "Tests use owned arrays in a single layout.",
 [DF, MDF, DM, TG], [("strided access through ndarray views", DM)], ["fits for each layout"])
prop("P09", "Proximal operators return exact minimisers",
 "For every point, step size and strength, the proximal operator of each penalty (L1, L1+L2, MCP, L0.5 and the group versions) minimises half the squared distance to the point plus step times the documented penalty (for MCP, when the step is below gamma). It is finite, odd, and shrinks along the input's direction.",
 ["inputs"], "all scalar/vector inputs, steps and hyperparameters, including exact thresholds, zero vectors and zero strength",
 "Tests evaluate each operator at three or four points in the interior of one region; thresholds, zero vectors and the L0.5/MCP boundaries are not reached.",
 [UT, SP, BP], [("closed-form thresholding", UT), ("penalty prox", SP), ("block penalty prox", BP)], ["prox methods", "thresholding functions"])
prop("P10", "Penalty values equal their documented formulas",
 "The value each penalty reports for a coefficient vector or matrix equals the documented formula: it is zero at zero, additive over features or rows, invariant under sign flips and permutations of features, constant beyond the flat point for the MCP family, and, for group penalties, invariant under rotations inside a row.",
 ["inputs"], "all small coefficient vectors/matrices and hyperparameters, including the breakpoints",
 "Tests check one vector per penalty.", [SP, BP], [("value methods", SP), ("value methods", BP)], ["value methods"])
prop("P11", "Optimality scores equal the distance to the subdifferential",
 "For every coefficient value, gradient and list of selected features, the optimality score of each feature is the Euclidean distance from minus its gradient to the (limiting) subdifferential of the documented penalty (for L0.5, which has no useful one: the distance to its proximal fixed point), scores come in the order of the selected features and refer to those features' coefficients, and the reported maximum is their maximum. "
 "Scores vanish exactly at coordinate-wise optimal points of the convex penalties.",
 ["inputs"], "all coefficients x gradients x selections (subsets, permutations, single, all) x hyperparameters",
 "Tests always pass the identity selection and interior points; zero rows of group penalties and the concave region were never scored.",
 [SP, BP, CD, BCD], [("subdiff_distance", SP), ("subdiff_distance", BP)], ["per-feature scores and maximum"])
prop("P12", "Loss values, gradients and curvatures are mutually consistent",
 "For the quadratic, multi-task quadratic and logistic losses, dense or sparse, the reported partial derivatives are the derivatives of the reported value at every coefficient vector, the full gradient stacks them, and the reported curvature of each feature bounds (for quadratics: equals) the second derivative along it.",
 ["inputs"], "all small designs, targets and coefficient vectors, both storages, both precisions",
 "Tests compare values and gradients to stored numbers at one or two points per loss.",
 [DF, MDF, UT], [("precomputed correlations", DF), ("precomputed correlations", MDF), ("sigmoid", UT)], ["datafit methods"])
prop("P13", "The critical regularisation separates zero from non-zero fits",
 "The computed maximum regularisation is exactly the threshold: any strength at or above it gives an all-zero Lasso or multi-task Lasso fit, any strength below it gives at least one non-zero coefficient, and it equals the largest (group) correlation with the target divided by the number of samples. The dense, sparse, multi-task and Python helpers agree.",
 ["inputs"], "all small designs and targets including all-negative correlations, empty columns, zero targets; strengths straddling the threshold",
 "Tests evaluate each helper on one matrix and never fit at the threshold.",
 [UT, PU], [("compute_alpha_max family", UT), ("Python helper", PU)], ["helper outputs, fits at strengths around the threshold"])
prop("P14", "Hyperparameters are validated and forwarded for every builder history",
 "For every sequence of setter calls on an estimator's parameter builder, the last value set for each hyperparameter is the one that is checked, exposed and used; checking by value, by reference and fitting accept exactly the same builders, namely those with non-negative strength and tolerance, mixing ratio in [0,1], gamma at least 1, and positive extrapolation depth and working-set size. "
 "Hyperparameters never set keep their documented defaults, and the generic solver follows the same rules for its settings. A rejected builder yields the error naming an invalid hyperparameter with its value and never a panic or a fit.",
 ["histories", "configurations"], "all setter sequences up to a depth over valid, boundary and invalid values for the six estimators",
 "Tests set one invalid value at a time with unwrap/should_panic.", [HP, "src/estimators/param_guard.rs", EST, "src/estimators/error.rs"],
 [("check_ref per parameter set", HP), ("fit on unchecked parameters goes through the check", "src/estimators/param_guard.rs")], ["check, check_ref, fit, getters, error values"],
 [("builder", "hyperparameters set so far", HP)])
prop("P15", "Budgets are honoured and the solver never stops early above tolerance",
 "A solve uses at most the given number of outer iterations and at most the given number of epochs in each, and returns before the outer budget is exhausted only if the optimality violation over all features is at most the tolerance. A zero budget returns the zero vector, and a start that is already optimal performs no update.",
 ["histories", "configurations", "inputs"], "all (iterations, epochs, tolerance) budgets up to a bound on all small problems, observed through instrumented losses and penalties",
 "Tests never count updates or use tight budgets.", [CD, BCD, IS], [("bounded loops and stopping tests", CD), ("block version", BCD)], ["number of coordinate updates seen by a plugged-in loss/penalty, returned coefficients"])
prop("P16", "Every valid problem yields a finite result of the right shape",
 "On every finite dataset with at least one sample, matching lengths and magnitudes whose squares and products stay representable (for the MCP family also strongly convex one-dimensional subproblems), and every valid setting, fitting terminates without panicking and returns finite coefficients with one entry per feature (one row per feature and one column per task): including one sample, one feature, zero features, fewer features than the extrapolation depth, constant, zero or duplicated columns, zero targets, zero strength and zero tolerance.",
 ["inputs", "configurations"], "all degenerate shapes and contents x all settings x all estimators, storages and precisions",
 "Tests use shapes where nothing degenerates; with fewer features than K the solver used to panic.",
 [CD, BCD, UT, EST], [("zero-curvature features are skipped", CD), ("singular extrapolation systems are reported, not fatal", UT)], ["result or panic of fit"])
prop("P17", "Estimators and the generic solver agree",
 "Each estimator returns the same coefficients as the generic solver run with the corresponding loss, penalty and settings, step for step: also when the budget is too small to converge. Every estimator forwards each of its settings unchanged.",
 ["configurations", "inputs"], "all six estimators x dense/sparse x all settings including truncating budgets",
 "Tests never compare the two APIs and never use truncating budgets, so a setting that is dropped is invisible.",
 [EST, IS], [("fit calls the coordinate descent routine", EST), ("solver calls the same routine", IS)], ["coefficients from both APIs"])
prop("P18", "One-task multi-task problems reduce to single-task ones",
 "With a single task the multi-task estimators, losses and group penalties agree with their single-task counterparts, and when all tasks share one target the multi-task Lasso has equal columns; a one-dimensional target is treated as one task.",
 ["inputs", "configurations"], "all small datasets, strengths, gamma, mixing ratios; dense/sparse; convergent and truncated runs",
 "Never tested.", [BCD, CD, BP, SP, MDF, DF, TG], [("block formulas specialise to scalars", BP), ("1-D targets viewed as one column", TG)], ["fits, values, prox, scores for T=1 versus scalar"])
prop("P19", "Fits are equivariant under symmetries of the problem",
 "Permuting features permutes the coefficients, flipping a feature's sign flips its coefficient, permuting samples or duplicating the whole dataset changes nothing, permuting or negating tasks does the same to the coefficient columns, and scaling the target and (for degree-one penalties) the strength by a positive constant scales the coefficients. Measuring the design, target and strength in other units rescales the coefficients accordingly.",
 ["inputs"], "all group elements (permutations, sign patterns) of small problems with unique solutions, plus scalings",
 "Never tested.", [CD, BCD, DF, MDF], [("no special role for any index or sign", CD)], ["fits of transformed problems"])
prop("P20", "Fits are deterministic and leave no state behind",
 "The result of a fit depends only on its data and settings: repeating it, interleaving it with any other fits, reusing the same parameter builder, solver, loss or penalty object on other data (other shapes, storages or sizes) in any order, and cloning any of them give bit-identical results to fresh objects, and the data are left unmodified.",
 ["histories"], "all operation sequences up to a depth over a pool of datasets and shared objects",
 "Every test uses fresh objects and a single fit.", [DF, MDF, CD, BCD, EST], [("initialize recomputes every cached quantity", DF), ("same", MDF), ("no statics", CD)],
 ["results after arbitrary histories vs fresh"], [("lipschitz / Xty", "cached per-dataset quantities in a reusable loss", DF)])
prop("P21", "The solver keeps its contract with plugged-in losses and penalties",
 "For every loss and penalty implementing the extension traits, whatever answers they give (as long as equal questions get equal answers and violation scores are not NaN), the solver initialises the loss before using it, always passes a model fit equal to the design times the current coefficients and feature indices in range, changes a coefficient only to a proximal answer at the documented argument (current value minus partial derivative times step, with step one over that feature's curvature) or to an adopted extrapolation, never updates a zero-curvature feature, otherwise updates the features of the working set equally often in every epoch, and returns the last coefficients.",
 ["histories", "inputs"], "all environment answer sequences (gradients, prox outputs, scores, objective values) up to a bound",
 "Tests only plug in the built-in losses and penalties with well-behaved answers.", [CD, BCD, IS], [("coordinate update", CD), ("block update", BCD)], ["arguments received by a plugged-in loss/penalty/design"],
 [("w", "coefficients", CD), ("Xw", "model fit kept in sync", CD)])
prop("P22", "The working set holds the support and the worst violators",
 "For every vector of finite violations the selected working set has no repeats, contains every feature with a non-zero coefficient, fills up with the features of largest violation, and has size max(start size, min(twice the support, number of features)). In a solve, the features cycled over in each outer iteration obey the same rule.",
 ["inputs", "histories"], "all finite violation vectors with ties and zeros x all supports x all start sizes up to a bound",
 "One test per function with distinct scores.", [CD, BCD, UT], [("construct_ws_from_kkt", CD), ("construct_ws_from_kkt", BCD), ("argsort_by", UT)], ["returned working set", "features updated in a solve"])
prop("P23", "An extrapolated point is adopted only if it lowers the objective",
 "An acceleration step either leaves the coefficients and the model fit exactly as they were, or replaces them by the Anderson combination of the last iterates (weights summing to one and minimising the combined residual, zero outside the working set) with a matching model fit and a strictly smaller objective. A well-defined combination with a strictly smaller finite objective is adopted; off the K-periodic epochs and for systems the linear solver refuses nothing changes.",
 ["inputs", "histories", "fault_sequences"], "all short iterate histories over a small alphabet x objective answers including ties, larger, NaN and infinite x depths K",
 "One test checks a single extrapolation on random data.", [CD, BCD, DM], [("guarded acceptance", CD), ("guarded acceptance", BCD)], ["coefficients, fit and objective before/after an acceleration step"],
 [("last_K_w", "ring of the last K+1 iterates", CD)])
prop("P24", "Linear solves and index sorts are correct or refused",
 "The small linear solver returns the solution of every non-singular system, whatever its pivots, refuses plainly singular ones and never returns non-finite numbers; the index sort returns a permutation that orders the data according to the comparison, ties included.",
 ["inputs"], "all small integer systems up to size 3 (4 with restricted entries), all short arrays over small alphabets",
 "Three systems and one array are tested; the solver gave wrong answers on a zero pivot.", [UT], [("Gaussian elimination with pivoting", UT), ("argsort_by", UT)], ["solve result, sorted indices"])
prop("P25", "Design-matrix products and incremental updates agree with the matrix",
 "For dense and sparse designs, single- and multi-task, the product restricted to any list of features equals the matrix product, any history of incremental single-feature updates leaves the model fit equal to the design times the accumulated coefficients, and feature counts, sample counts, target shapes and storage kinds are reported faithfully, also through references. A target with several columns is refused as a single target, one with a single column is given unchanged.",
 ["inputs", "histories"], "all small matrices x all update sequences up to a depth x all feature lists",
 "One product per storage is tested; update histories are not.", [DM, TG, "src/datasets/impl_datasets.rs"], [("products and updates", DM), ("target views", TG)], ["products, updated fits, reported shapes"])
prop("P26", "Single precision agrees with double precision",
 "All estimators, losses, penalties and helpers accept single precision and return the double-precision results up to single-precision rounding, with the optimality violation within the requested tolerance at single-precision scale.",
 ["inputs", "configurations"], "the datasets, penalties and settings of the other properties, in both precisions",
 "Tests use double precision almost everywhere.", ["src/lib.rs", DF, MDF, SP, BP, UT, CD, BCD], [("generic Float code, casts of constants", "src/lib.rs")], ["results in f32 versus f64"])
prop("P27", "Python fits solve the documented problem for every container",
 "Each Python estimator's fitted coefficients satisfy the optimality conditions of its documented objective, with shape (features,) or (tasks, features), for lists, C- or Fortran-ordered, strided, integer, single- or double-precision arrays and any sparse format it accepts, without modifying the inputs; refitting or cloning gives the same result, and every constructor argument reaches the solver, given by name or by position, and an argument left out takes its documented default.",
 ["inputs", "configurations", "histories"], "all six estimators x containers x dtypes x layouts x small datasets x hyperparameters x refit histories",
 "Four tests on one float64 dataset (dense/CSC) for four of the six estimators.", [PE] + PW, [("input checking and conversion", PE), ("wrappers forward to the Rust estimators", PW[0])], ["coef_ after fit"])
prop("P28", "Python hyperparameters and data are accepted or rejected exactly",
 "The Python estimators accept every documented hyperparameter value (non-negative strength, gamma at least 1, mixing ratio in [0,1], non-negative tolerance and budgets, positive depth and working-set size) and reject every other one, at construction or at fit, with a ValueError stating a rejected value (for a value of the wrong type, any ordinary exception) rather than a crash or a silent fit; inconsistent lengths, wrong target dimensions and non-finite data are rejected too.",
 ["inputs", "configurations"], "all single and pairwise combinations of valid, boundary and invalid values per estimator; data-shape faults",
 "No test passes an invalid value to Python.", [PE] + PW, [("constructor and fit-time checks", PE), ("errors mapped to ValueError", PW[0])], ["exception or result of constructor and fit"])
prop("P29", "Python predictions equal the design times the coefficients",
 "After a fit, predict returns the design times the transposed coefficients with one entry per sample (and column per task) for dense and sparse designs, including all-zero fits and single-feature models; before any fit it raises.",
 ["inputs", "histories"], "all estimators x containers x fit/predict histories",
 "predict is never tested and used to raise on every fitted estimator.", [PE], [("predict", PE)], ["predict output"])
prop("P30", "Synthetic data generation keeps its documented guarantees",
 "For every size, task count, correlation, density and seed, the generator returns arrays of the documented shapes with the requested number of non-zero true coefficient rows, noise scaled exactly to the requested signal-to-noise ratio (none when infinite), a supplied true coefficient vector left untouched and honoured, reproducible output for equal seeds that leaves numpy's global generator alone (unseeded calls follow it), the documented defaults for arguments left out, and an error for correlation outside [0,1) or density outside (0,1].",
 ["inputs", "configurations"], "a full grid of sizes, tasks, correlations, densities, ratios and seeds",
 "Never tested beyond being used as a fixture.", [PU], [("make_correlated_data", PU)], ["returned arrays"])
prop("P31", "Fits that overlap in time do not disturb each other",
 "Two or more fits in progress at once, on different threads in any interleaving or one started from inside a callback (loss, penalty or design matrix) of another, on separate or shared data and with shared solver and penalty objects, each return bit for bit what the same fit returns alone, never deadlock, never panic, and leave the data unmodified.",
 ["schedules", "histories"], "all interleavings at callbacks up to a preemption bound, all nestings of one or two fits",
 "No test runs two fits at once or a fit inside another.", [CD, BCD, DF, MDF, IS], [("no shared scratch or caches", CD), ("same", BCD)],
 ["results of overlapping fits vs alone"], [("w", "coefficients of a fit in progress", CD)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
