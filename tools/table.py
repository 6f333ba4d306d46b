C = "fortuna/conformal/"
M = "oracle over recorded outputs of the real code on generated workloads"

prop("C01", "Split conformal sets cover, nest, and keep the most probable classes",
  "For exchangeable calibration and test points, at least a fraction 1-error of the leave-one-out rotations of any finite sample fall inside the conformal set built from the remaining points (and no more than needed when scores have no ties), for both the simple and the adaptive score. Sets can only grow as the error shrinks, never contain a class while excluding one that the classifier deems more probable, and do not depend on the order of calibration points, on the other test points, or on how calibration folds are partitioned. Membership reports exactly whether the value is in the set.",
  ["inputs"], "all probability matrices, targets, error levels and permutations",
  "Coverage is a statement about every rotation of every sample; the unit tests look at one three-point sample and only at list lengths.",
  [C+"classification/base.py", C+"classification/simple_prediction.py", C+"classification/adaptive_prediction.py"],
  [("score threshold rule", C+"classification/base.py:_get_conformal_sets_from_scores"), ("adaptive score", C+"classification/adaptive_prediction.py:score_fn")],
  ["conformal_set", "is_in", "get_scores"], technique="rotation-coverage, nesting and permutation monitors over conformal sets")

prop("C02", "Split conformal regression intervals cover, nest and are equivariant",
  "Calibrating quantile predictions or predictions with a one-dimensional uncertainty returns intervals that contain at least a fraction 1-error of the leave-one-out rotations of any finite sample large enough for that error (error at least one over sample size plus one), that nest as the error shrinks, and that are the raw interval widened by one common calibrated amount. Intervals are unaffected by the order of calibration points and by the other test points, and shift and scale along with targets and predictions. Membership reports exactly whether the value lies within the bounds.",
  ["inputs"], "all calibration samples, test predictions, error levels, permutations, shifts and scales",
  "Existing tests only check shapes and ordering of bounds on one random sample.",
  [C+"regression/base.py", C+"regression/quantile.py", C+"regression/onedim_uncertainty.py"],
  [("conformal quantile", C+"regression/quantile.py:quantile"), ("uncertainty score", C+"regression/onedim_uncertainty.py")],
  ["conformal_interval", "quantile", "score", "is_in"], technique="rotation-coverage, nesting and equivariance monitors over conformal intervals")

prop("C03", "Jackknife+, jackknife-minmax and CV+ intervals match their definition",
  "For every set of leave-one-out (or leave-fold-out) predictions, the jackknife+ and CV+ endpoints are the empirical quantiles, at the error level and one minus the error level, of prediction minus and plus absolute residual, and the minmax endpoints are the extreme predictions widened by the residual quantile, so that the minmax interval always contains the jackknife+ interval and intervals nest as the error shrinks. Cross-validation with singleton folds yields the jackknife+ interval, results do not depend on the order of folds or points, and calling the method never modifies the caller's data.",
  ["inputs", "histories"], "all residuals, predictions, fold partitions and error levels, and repeated calls on the same inputs",
  "Tests only check shapes for one sample and call each method once.",
  [C+"regression/jackknifeplus.py", C+"regression/jackknife_minmax.py", C+"regression/cvplus.py"],
  [("order statistics of residual-shifted predictions", C+"regression/jackknifeplus.py:conformal_interval"), ("fold residuals", C+"regression/cvplus.py")],
  ["conformal_interval"], technique="brute-force order-statistic oracle and containment/aliasing monitors")

prop("C04", "EnbPI intervals aggregate only out-of-bag predictions",
  "Each training residual is computed from an aggregate of exactly the bootstrap predictions that did not train on that point; test intervals are centred at the quantile of such aggregated test predictions and have the residual quantile as half-width, so the width is the same for every test point. As a stream of new batches arrives, the residual window keeps its length, drops the oldest residuals and appends all the newest. Calling the method never modifies the caller's arrays.",
  ["inputs", "histories"], "all bootstrap index assignments, predictions, batch sizes and streams of batches",
  "One static sample with one new observation is all the unit test runs.",
  [C+"regression/enbpi.py"],
  [("out-of-bag aggregation", C+"regression/enbpi.py:conformal_interval"), ("residual window", C+"regression/enbpi.py:conformal_interval_from_residuals")],
  ["conformal_interval", "conformal_interval_from_residuals", "is_in"], technique="independent out-of-bag reference and sliding-window trace monitor")

prop("C05", "Adaptive conformal inference tracks the target error on any stream",
  "After every time step the error level equals the previous level plus the step size times target error minus observed (possibly weighted) miscoverage, clipped to [0, 1], so without weights a miss never increases it and a hit never decreases it. Whenever clipping is never active, the average miscoverage over any stream differs from the target by at most one divided by step size times stream length. Invalid step sizes, weights or indicator vectors are rejected.",
  ["inputs", "histories"], "all adversarial streams of targets and sets/intervals, step sizes and weights",
  "The guarantee is about arbitrarily long adversarial histories; tests do one update.",
  [C+"classification/adaptive_conformal_classifier.py", C+"regression/adaptive_conformal_regressor.py"],
  [("error recursion", C+"classification/adaptive_conformal_classifier.py:update_error"), ("error recursion", C+"regression/adaptive_conformal_regressor.py:update_error")],
  ["update_error"], technique="online monitor of the error recursion over adversarial streams")

prop("C06", "Maximum-coverage calibration respects the precision thresholds it reports",
  "Calibrated probabilities stay in [0, 1], never cross one half, and preserve the ranking of the raw ones. Whenever the precision constraints can be met on the candidate grid, the calibrated probabilities on the calibration data attain at least the requested true-positive and true-negative precision, and no candidate scaling that also meets them has larger coverage; precision and coverage metrics agree with their definitions.",
  ["inputs"], "all binary samples, thresholds, margins and grid sizes",
  "Optimality and feasibility quantify over all samples; the test checks one.",
  [C+"classification/maxcovfixprec_binary_classfication.py"],
  [("constrained grid search", C+"classification/maxcovfixprec_binary_classfication.py:calibrate"), ("patch application", C+"classification/maxcovfixprec_binary_classfication.py:apply_patches")],
  ["calibrate", "apply_patches", "true_positive_precision", "true_negative_precision"], technique="exhaustive-candidate oracle over calibration results")

prop("C07", "Iterative multicalibration replays, stays in range and converges",
  "Replaying the learned patches, jointly or one test point at a time, reproduces the values the method returns; calibrated values stay in [0, 1], runs are deterministic and input arrays are untouched. More rounds never increase the squared error on the calibration data, each accepted round corrects the group and bucket with the largest calibration error, and convergence to the absolute tolerance means the replayed values attain it. The reported calibration error equals its definition over groups and buckets.",
  ["inputs", "histories"], "all scores, groups, initial values, bucket schedules, tolerances and patch histories",
  "Tests run one small random sample and check shapes.",
  [C+"multivalid/iterative/base.py", C+"multivalid/iterative/multicalibrator.py", C+"multivalid/mixins/multicalibrator.py", C+"multivalid/iterative/classification/binary_multicalibrator.py", C+"multivalid/iterative/classification/top_label_multicalibrator.py"],
  [("patch loop", C+"multivalid/iterative/base.py:calibrate"), ("patch replay", C+"multivalid/iterative/base.py:apply_patches")],
  ["calibrate", "apply_patches", "calibration_error"], technique="trace replay and calibration-error monitors on patch histories")

prop("C08", "One-shot multicalibration equals per-cell averaging",
  "The calibrated value of a point is the average target over the calibration points within half a bucket width of its nearest bucket centre (for top-label calibration, with the same top label), or that centre when they are too few; other classes' probabilities are untouched. Values stay in [0, 1], calibration does not depend on the order of the calibration points, and calibrating a test point does not depend on the other test points.",
  ["inputs"], "all scores, groups, initial values and bucket counts",
  "Tests run one random sample and check shapes.",
  [C+"multivalid/one_shot/base.py", C+"multivalid/one_shot/multicalibrator.py", C+"multivalid/one_shot/classification/binary_multicalibrator.py", C+"multivalid/one_shot/classification/top_label_multicalibrator.py"],
  [("cell averaging", C+"multivalid/one_shot/base.py:calibrate"), ("patch application", C+"multivalid/one_shot/base.py:apply_patches")],
  ["calibrate", "apply_patches"], technique="independent cell-average reference over calibrated values")

prop("C09", "BatchMVP thresholds give multivalid coverage and consistent conformal sets",
  "Replaying the learned patches, jointly or one test point at a time, reproduces the calibrated thresholds, which stay in [0, 1], are deterministic, and never have a larger pinball loss after more rounds; a single full step on one group brings its coverage as close to the request as the bucket grid allows. The reported calibration error equals its definition over groups and buckets. A class is in the conformal set exactly when its score is within the calibrated threshold, raising a threshold never removes a class, and membership in sets and intervals is exact.",
  ["inputs", "histories"], "all scores, groups, coverages, bucket counts and patch histories",
  "Tests run one small random sample and check shapes.",
  [C+"multivalid/iterative/batch_mvp.py", C+"multivalid/mixins/batchmvp.py", C+"multivalid/iterative/regression/batch_mvp.py"],
  [("threshold patching", C+"multivalid/iterative/batch_mvp.py"), ("set construction", C+"multivalid/iterative/regression/batch_mvp.py")],
  ["calibrate", "apply_patches", "conformal_set", "conformal_interval"], technique="coverage-per-cell and patch-replay monitors")

prop("C10", "Metrics equal their textbook definitions",
  "Accuracy, expected and maximum calibration error, Brier score, root mean squared error and prediction-interval coverage equal their definitions on every batch, including degenerate bins, ties at bin edges and single samples. Calibration errors and accuracy lie in [0, 1], the maximum calibration error is never below the expected one, every sample is counted in exactly one bin, and no metric depends on the order of samples.",
  ["inputs"], "all predictions, probabilities and targets",
  "Tests evaluate a couple of fixed arrays.",
  ["fortuna/metric/classification.py", "fortuna/metric/regression.py"],
  [("binning", "fortuna/metric/classification.py:compute_counts_confs_accs"), ("interval coverage", "fortuna/metric/regression.py:prediction_interval_coverage_probability")],
  ["accuracy", "expected_calibration_error", "maximum_calibration_error", "brier_score", "rmse", "picp"], technique="independent numpy reference and range/permutation monitors")

D = "fortuna/data/loader/"
prop("C11", "Data loaders deliver every example exactly once, aligned and re-iterably",
  "Iterating a loader built from arrays, a callable or another framework's loader yields every input exactly once with its own target, in order unless shuffling, in batches of the requested size with at most one smaller batch at the end. Loaders can be iterated any number of times and concurrently with the same content each time, shuffling only permutes whole (input, target) pairs, and the reported sizes agree with what is delivered.",
  ["inputs", "histories"], "all dataset sizes, shapes, dtypes, batch sizes, nested input dictionaries, construction routes and iteration histories",
  "Tests use one dataset size and iterate once.",
  [D+"base.py", D+"data_loader.py", D+"iterable.py" , D+"tf_tensor_loader.py" , "fortuna/utils/data.py"],
  [("batching", D), ("size metadata", "fortuna/utils/data.py")],
  ["DataLoader", "InputsLoader", "TargetsLoader"], technique="conservation/ordering monitor over tagged batches")

prop("C12", "Loader conversions and transformations preserve the data stream",
  "Converting a data loader to inputs or targets, to arrays, or to another framework and back, applying a transform, prefetching to device, chopping, sampling or concatenating leaves the sequence of examples exactly as the operation documents, without consuming or altering the source loader. Converting a loader keeps its type's capabilities, so a converted loader can be used anywhere one built directly can.",
  ["inputs", "histories"], "all loaders and chains of conversions",
  "Chains of conversions are unbounded; tests convert once.",
  [D, "fortuna/utils/data.py"],
  [("conversion", D)],
  ["to_array_data", "to_inputs_loader", "from_data_loader", "transform"], technique="stream-equality monitor across conversion chains")

prop("C13", "Output layers define consistent probability distributions",
  "For every batch of outputs, the categorical layer's log-probabilities normalise to one over classes and the Gaussian layer's equal the normal density, summed over dimensions. Predictions, means, modes, variances, standard deviations and entropies agree with that distribution; results for a row do not depend on the other rows; and samples drawn follow the distribution and are reproducible for a given key.",
  ["inputs"], "all finite outputs including extreme logits, all targets and keys",
  "Identities must hold over a continuum of outputs including extremes; tests check shapes.",
  ["fortuna/prob_output_layer/classification.py", "fortuna/prob_output_layer/regression.py"],
  [("log_prob", "fortuna/prob_output_layer/classification.py:log_prob"), ("moments", "fortuna/prob_output_layer/regression.py")],
  ["log_prob", "predict", "sample", "mean", "mode", "variance", "entropy"], technique="normalisation and moment oracles over evaluated distributions")

prop("C14", "Likelihood results do not depend on batching or distribution",
  "Every likelihood quantity (log-probability, sampled values, mean, mode, variance, entropy, calibrated and raw outputs) computed over a loader equals the per-example computation from the model's outputs, whatever the batch size, the presence of a ragged last batch, or whether execution is distributed. The batched joint log-probability rescales the likelihood by data size over batch size, and requesting unknown auxiliary outputs is rejected with a clear error.",
  ["inputs", "configurations"], "all models, datasets, batch sizes and execution modes",
  "Tests fix one dataset and compare shapes only.",
  ["fortuna/likelihood/base.py", "fortuna/likelihood/classification.py", "fortuna/likelihood/regression.py"],
  [("loader loop", "fortuna/likelihood/base.py:_loop_fn_through_data_loader"), ("batched log prob", "fortuna/likelihood/base.py:_batched_log_joint_prob")],
  ["log_prob", "mean", "mode", "variance", "entropy", "get_outputs"], technique="differential monitor across batchings against a per-example numpy oracle")

prop("C15", "Predictive statistics are those of the posterior mixture",
  "With a known set of posterior samples, the predictive log-probability is the log of the average likelihood, the mean is the average of conditional means, total variance is aleatoric plus epistemic variance and equals the mixture's variance, and total entropy decomposes into aleatoric plus non-negative epistemic entropy up to sampling error. Predicted classes are the modes of the averaged probabilities, and ensembles average what each sample gives on the same input.",
  ["inputs", "configurations"], "all posterior sample sets, numbers of samples, inputs and batchings",
  "Identities relate many methods on every model and posterior; tests check shapes per method.",
  ["fortuna/prob_model/predictive/base.py", "fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py"],
  [("mixture log prob", "fortuna/prob_model/predictive/base.py:_batched_log_prob"), ("moment decomposition", "fortuna/prob_model/predictive/base.py")],
  ["predictive.log_prob", "mean", "variance", "entropy", "mode"], technique="mixture-identity oracle with recorded posterior samples")

prop("C16", "Credible sets and intervals hold the stated probability mass",
  "A credible set contains the most probable classes in decreasing order, is the smallest prefix whose mass reaches one minus error, and always contains at least one class. Quantiles are non-decreasing in the level, credible intervals are bounded by the matching quantiles of the predictive distribution, nest as the error shrinks, and both are reproducible when a random key is supplied.",
  ["inputs", "configurations"], "all probabilities, posteriors, error levels and keys",
  "The boundary cases (mass attained exactly, or only by all classes) and explicit keys are not sampled by tests.",
  ["fortuna/prob_model/predictive/classification.py", "fortuna/prob_model/predictive/regression.py"],
  [("credible set", "fortuna/prob_model/predictive/classification.py:credible_set"), ("sample quantiles", "fortuna/prob_model/predictive/regression.py:quantile")],
  ["credible_set", "credible_interval", "quantile"], technique="mass/nesting monitors on recorded predictive distributions")

prop("C17", "Priors and joint log-probabilities equal their densities",
  "Diagonal and isotropic Gaussian prior log-probabilities equal the corresponding normal density over all parameters regardless of their tree structure, and prior samples follow it. The joint log-probability is the prior plus the likelihood rescaled to the full data size, and averages over an epoch of batches to the full-data joint.",
  ["inputs", "configurations"], "all parameter trees, prior variances, datasets and batch sizes",
  "Tests check shapes and one variance value.",
  ["fortuna/prob_model/prior/gaussian.py", "fortuna/prob_model/joint/base.py"],
  [("prior density", "fortuna/prob_model/prior/gaussian.py:log_joint_prob"), ("joint", "fortuna/prob_model/joint/base.py:_batched_log_joint_prob")],
  ["prior.log_joint_prob", "joint._batched_log_joint_prob"], technique="numpy density oracle over evaluated parameter trees")

PO = "fortuna/prob_model/posterior/"
prop("C18", "A seed determines the whole workflow",
  "Two probabilistic models built with the same seed, data and configuration produce identical training histories, posterior samples and predictions for every posterior approximation, and different seeds lead to different randomness. Successive draws from the random number generator never repeat, and sampling with an explicit key is repeatable and leaves results of other calls with that key unchanged. Models that share their network, approximation, prior or calibrator and are used by turns each do what they do alone.",
  ["configurations", "histories"], "all posteriors, seeds and sequences of calls",
  "Reproducibility is a relation between whole runs; tests run each workflow once.",
  ["fortuna/utils/random.py", "fortuna/prob_model/base.py", PO],
  [("random stream", "fortuna/utils/random.py"), ("key threading", PO)],
  ["train", "posterior.sample", "predictive.mean"], technique="differential monitoring of repeated runs plus key-stream uniqueness monitor")

prop("C19", "Saving and loading a posterior or calibrator preserves everything observable",
  "A posterior state saved to disk and loaded in a fresh model gives the same posterior samples, predictions and calibration as before saving, for every posterior approximation and for calibrated models. Saving only writes inside the given directory, keeps no more than the requested number of checkpoints, and loading from an empty location fails rather than returning a wrong state.",
  ["histories", "configurations"], "all posteriors, save/load histories and destinations",
  "Only some posteriors are saved and reloaded in tests and nothing is compared.",
  ["fortuna/training/train_state_repository.py", PO+"posterior_state_repository.py", PO+"posterior_multi_state_repository.py", "fortuna/training/mixin.py"],
  [("checkpoint write/restore", "fortuna/training/mixin.py"), ("state encoding", "fortuna/training/name_to_train_state.py")],
  ["save_state", "load_state", "sample"], technique="differential monitor of before/after behaviour around save and load")

prop("C20", "A training run killed at any step leaves a restorable checkpoint",
  "Whenever training with periodic checkpointing, output calibration, a save over an existing checkpoint or an update of a stored state is interrupted at any step or file operation, the directory restores to a complete state: the training state (step count and parameters) of the most recent scheduled save, or the one being written. Old checkpoints beyond the retention limit are removed only after newer ones are complete, an interrupted save or update never loses or damages an older state, and a resumed run continues from the restored step and parameters.",
  ["crash_points", "schedules"], "all interruption steps, save periods and retention counts",
  "Tests never interrupt a run.",
  ["fortuna/training/trainer.py", "fortuna/training/mixin.py"],
  [("periodic save", "fortuna/training/trainer.py:training_step_end"), ("atomic checkpoint", "fortuna/training/mixin.py:save_checkpoint")],
  ["train(fit_config=FitConfig(checkpointer=...))"], level="fault_enumeration", technique="fault injection at every training step with restored-state oracle")

prop("C21", "Frozen parameters never change and only they are frozen",
  "When parameters are declared frozen for training, the frozen ones are bit-identical before and after for every posterior approximation, including in posterior samples, while every trainable one receives updates. Training with all parameters trainable equals training without freezing.",
  ["configurations", "inputs"], "all partitions of parameters into frozen and trainable and all posteriors",
  "Tests check a single partition and only that training finishes.",
  ["fortuna/utils/freeze.py", "fortuna/utils/optimizer.py" if False else "fortuna/utils/freeze.py", "fortuna/prob_model/posterior/map/map_posterior.py"],
  [("partitioning", "fortuna/utils/freeze.py"), ("masked optimizer", "fortuna/utils/freeze.py:freeze_optimizer")],
  ["train(fit_config=...freeze_fun)", "posterior.sample"], technique="bitwise before/after monitor of frozen parameters")

prop("C22", "Gradient accumulation equals a larger batch; clipping bounds updates",
  "Accumulating gradients over several equally sized batches gives the same parameter update as their average gradient, the optimizer steps exactly once per accumulation window, every run starts windows of its own whatever a previous one left, and metrics are reported for what was trained. With a maximum gradient norm, the global norm of each applied gradient never exceeds it and its direction is unchanged; small gradients are untouched. Both hold for every approximation trained by an optimizer.",
  ["configurations", "inputs"], "all accumulation lengths, batch sizes, dataset lengths and norms",
  "Equivalence must hold for every window length and remainder; tests only check the run finishes.",
  ["fortuna/training/trainer.py", "fortuna/utils/training.py"],
  [("accumulation window", "fortuna/training/trainer.py"), ("clipping", "fortuna/utils/training.py:clip_grandients_by_norm" )],
  ["train"], technique="step-trace monitor of optimizer updates against a numpy recurrence")

prop("C23", "The training loop runs exactly the configured schedule",
  "Training runs exactly the requested number of epochs and one step per batch, evaluates validation data exactly at the configured epochs, fires every callback in order, and returns one history entry per epoch and per evaluation. With early stopping it tolerates exactly `patience` consecutive evaluations without an improvement of the monitored metric and stops at the next, returning the parameters of the last step and saving those of the best. Reported losses equal the loss of the data actually seen.",
  ["configurations", "histories"], "all epochs, dataset sizes, evaluation periods, patience, monitored metrics and metric trajectories",
  "Tests fix one configuration and stub the trainer.",
  ["fortuna/training/trainer.py", "fortuna/training/callback.py"],
  [("epoch loop", "fortuna/training/trainer.py:train"), ("early stopping", "fortuna/training/trainer.py:early_stopping_update")],
  ["train status", "callbacks"], technique="event-trace specification checked against recorded callbacks and history")

prop("C24", "SWAG samples have the moments of the recorded trajectory",
  "After SWAG training, posterior samples follow a Gaussian whose mean and second moment are the running moments of the trained trajectory (each step weighted by one over its epoch number), whose diagonal covariance is half their variance and whose low-rank part comes from the last recorded deviations, with at most the configured rank. Sampling is a deterministic function of the key and keeps frozen parameters and mutable state intact.",
  ["inputs", "configurations"], "all ranks, epochs, models and keys",
  "Tests only check sample shapes.",
  [PO+"swag/swag_trainer.py", PO+"swag/swag_posterior.py"],
  [("running moments", PO+"swag/swag_trainer.py"), ("low-rank sampling", PO+"swag/swag_posterior.py:sample")],
  ["train", "sample"], technique="recorded-trajectory moment oracle over SWAG states and samples")

prop("C25", "Laplace posteriors use the exact Gauss-Newton precision",
  "The diagonal Laplace posterior is centred at the MAP estimate and its per-parameter variance is the inverse of prior precision plus the generalised Gauss-Newton diagonal summed over the whole training set, for classification and regression and whatever the batch size. Samples follow that Gaussian, frozen parameters are not perturbed, and tuning the prior variance picks the best candidate on validation data.",
  ["inputs", "configurations"], "all datasets, models, batch sizes and prior variances",
  "Tests only check shapes.",
  [PO+"laplace/laplace_posterior.py"],
  [("GGN diagonal", PO+"laplace/laplace_posterior.py:_gnn_approx"), ("sampling", PO+"laplace/laplace_posterior.py:sample")],
  ["train", "sample"], technique="numpy Jacobian oracle for the precision and standardised-sample monitor")

prop("C26", "ADVI samples, densities and objective are consistent",
  "The variational transformation is invertible with an exact log-determinant, the density it assigns to a sample equals the base density minus that log-determinant, and posterior samples follow a diagonal Gaussian with the learned mean and scale. Sampling keeps frozen parameters at their trained values and is deterministic given a key.",
  ["inputs", "configurations"], "all parameter vectors, learned states and keys",
  "Tests only check sample shapes.",
  [PO+"normalizing_flow/advi/advi_posterior.py", PO+"normalizing_flow/advi/advi_architecture.py", PO+"normalizing_flow/normalizing_flow_joint.py" if False else PO+"normalizing_flow/advi/advi_architecture.py"],
  [("flow", PO+"normalizing_flow/advi/advi_architecture.py"), ("sampling", PO+"normalizing_flow/advi/advi_posterior.py:sample")],
  ["forward", "backward", "sample"], technique="round-trip and density oracles with standardised-sample monitor")

prop("C27", "Stochastic-gradient samplers follow their recurrence and collect on schedule",
  "Stochastic-gradient Hamiltonian and cyclical Langevin samplers apply exactly their documented update given gradients, step size, preconditioner and noise, with step sizes following the documented schedule and staying non-negative and finite. Exactly the requested number of posterior samples is collected, at the documented steps after burn-in and thinning, each equal to the parameters at that step, and an insufficient budget is rejected.",
  ["configurations", "histories", "inputs"], "all schedules, burn-ins, thinnings, cycle lengths, friction values, preconditioners and gradient histories",
  "Tests check a handful of values and run one configuration.",
  [PO+"sgmcmc/hmc/sghmc_integrator.py" if False else PO+"sgmcmc/sghmc/sghmc_integrator.py", PO+"sgmcmc/cyclical_sgld/cyclical_sgld_integrator.py", PO+"sgmcmc/sgmcmc_step_schedule.py", PO+"sgmcmc/sgmcmc_preconditioner.py"],
  [("integrators", PO+"sgmcmc"), ("collection callbacks", PO+"sgmcmc")],
  ["integrator update", "posterior samples"], technique="trace replay of integrator updates and sample-collection schedule monitor")

prop("C28", "Sampler diagnostics match their definitions",
  "The kernel Stein discrepancy equals the pairwise inverse-multiquadric sum for every set of samples and gradients, is non-negative and invariant to sample order and to translation; effective sample size equals its autocorrelation definition and is invariant to affine rescaling.",
  ["inputs"], "all sample sets, gradients and parameters of the diagnostics",
  "Tests check a few fixed arrays.",
  [PO+"sgmcmc/sgmcmc_diagnostic.py"],
  [("KSD", PO+"sgmcmc/sgmcmc_diagnostic.py:kernel_stein_discrepancy_imq"), ("ESS", PO+"sgmcmc/sgmcmc_diagnostic.py:effective_sample_size")],
  ["kernel_stein_discrepancy_imq", "effective_sample_size"], technique="independent double-loop numpy reference")

prop("C29", "State repositories and ensembles return exactly what was stored",
  "For every history of put, get, pull, update and extract operations, in memory or on disk, a repository returns the most recent state stored under each index and nothing else, pulling from disk removes exactly the newest stored state, and updating changes only the named fields. A deep ensemble trains the requested number of distinct members, samples members uniformly, and each sample is one of the stored members in full.",
  ["histories"], "all operation histories, with and without a checkpoint directory, all ensemble sizes",
  "Histories are unbounded; tests check single operations.",
  ["fortuna/training/train_state_repository.py", PO+"posterior_multi_state_repository.py", PO+"deep_ensemble/deep_ensemble_posterior.py"],
  [("repository", "fortuna/training/train_state_repository.py"), ("ensemble", PO+"deep_ensemble/deep_ensemble_posterior.py")],
  ["get", "put", "pull", "update", "extract", "sample"], technique="model-based history checker against a dictionary oracle")

prop("C30", "Temperature scaling finds the best temperature and preserves order",
  "Classification temperature scaling preserves the ranking of classes for every example, returns normalised probabilities, and its temperature attains a calibration loss no worse than the uncalibrated one and (within optimizer tolerance) than any other candidate. Binary variants attain the optimum of their own criterion (bias, Brier, cross-entropy, F1), keep probabilities in [0, 1] and monotone, and results do not depend on the order of examples; exact zeros among the probabilities change none of this.",
  ["inputs"], "all probability samples and targets",
  "Optimality is over all temperatures and samples; tests check one sample.",
  ["fortuna/calibration/classification/temp_scaling.py" if False else "fortuna/calibration/classification", "fortuna/calibration/binary_classification"],
  [("temperature fit", "fortuna/calibration")],
  ["fit", "predict_proba"], technique="candidate-scan optimality oracle over fitted temperatures")

prop("C31", "Output calibration changes only the calibrator and never the point prediction",
  "Calibrating a fitted model changes only the calibration parameters: posterior samples and raw outputs are unchanged, predicted classes (classification) and means (regression) are unchanged, and only spreads are rescaled by one positive factor. Calibrating from cached outputs equals calibrating from the data those outputs came from, reported losses are the calibration loss along that training, a stored calibration can be taken over and never replaces the posterior state it belongs to, and data that cannot be calibrated on (mismatched dimensions, randomly reordered loaders) is refused.",
  ["inputs", "configurations"], "all models, datasets and calibration configurations",
  "Tests check that calibration runs.",
  ["fortuna/output_calibrator", "fortuna/output_calib_model", "fortuna/prob_model/base.py", "fortuna/prob_model/prob_model_calibrator.py"],
  [("temperature layers", "fortuna/output_calibrator"), ("calibration training", "fortuna/prob_model/base.py:_calibrate")],
  ["calibrate", "predictive.mean", "predictive.mode"], technique="before/after differential monitor around calibration")

prop("C32", "Nested-parameter utilities are lossless",
  "Splitting a parameter tree by any predicate and merging the parts, flattening and unflattening, or reading and writing values at paths restores exactly the original tree, covers every leaf exactly once, and never changes leaves that were not addressed. Extracting then setting the same paths is the identity, and invalid labels are rejected.",
  ["inputs"], "all nested trees, predicates and path sets",
  "Tests use a two-leaf example.",
  ["fortuna/utils/nested_dicts.py", "fortuna/utils/freeze.py"],
  [("path get/set", "fortuna/utils/nested_dicts.py")],
  ["nested_get", "nested_set", "nested_pair", "nested_unpair", "get_trainable_paths", "get_frozen_paths"], technique="round-trip oracle over random trees")

prop("C33", "Out-of-distribution scores equal their density definitions",
  "With embeddings from a fitted feature extractor, the Mahalanobis score is the smallest squared class-conditional distance under the shared covariance over the classes seen in training, and the density-uncertainty score is minus the log of the sum of the class-conditional Gaussian densities. Scores are independent of batching and of the order of training data, and points far from every class score higher than class centres.",
  ["inputs"], "all labelled embeddings with every class present and all query points",
  "Tests check shapes only.",
  ["fortuna/ood_detection/mahalanobis.py", "fortuna/ood_detection/ddu.py"],
  [("Mahalanobis", "fortuna/ood_detection/mahalanobis.py"), ("DDU", "fortuna/ood_detection/ddu.py")],
  ["fit", "score"], technique="independent numpy density oracle")

prop("C34", "Kernel regression predictions are exact kernel averages",
  "Nadaraya-Watson predictions equal the kernel-weighted average of training targets, lie between the smallest and largest training target, and do not depend on batch size or on the order of training points. The log densities of Gaussian distribution objects are those of the distribution they are built with, and their samples follow it.",
  ["inputs"], "all training sets, query points, bandwidths, kernels and batch sizes",
  "Tests compare one small sample.",
  ["fortuna/kernel_regression/nadaraya_watson.py", "fortuna/kernel_regression/kernels", "fortuna/distribution/gaussian.py"],
  [("kernel average", "fortuna/kernel_regression/nadaraya_watson.py:predict"), ("Gaussian", "fortuna/distribution/gaussian.py")],
  ["predict", "log_joint_prob", "sample"], technique="dense numpy kernel oracle")

prop("C35", "Probit scaling equals the linearised Gaussian integral",
  "Probit-scaled outputs equal the original outputs divided by one plus pi/8 times the output variance induced by isotropic uncertainty over the selected parameters, for every subset of parameters and whatever the batching or memory-saving strategy; for sequences the variance of each token is conditional on the preceding final tokens, and with a top-k restriction the other outputs get the largest variance. Outputs shrink towards zero without changing sign, vanishing uncertainty leaves them unchanged, and gradients are stopped where configured.",
  ["inputs", "configurations"], "all models, parameter subsets, log-variances and batchings",
  "Tests check shapes and one tiny model.",
  ["fortuna/utils/probit.py", "fortuna/model_editor/probit.py"],
  [("linearised variance", "fortuna/utils/probit.py"), ("model editor", "fortuna/model_editor/probit.py")],
  ["probit_scaling", "ProbitModelEditor"], technique="dense Jacobian oracle compared with every execution strategy")

prop("C36", "Spectral normalisation and random-feature layers keep their invariants",
  "Spectrally normalised layers apply weights whose spectral norm converges to at most the configured bound and leave smaller weights unscaled, updating their power-iteration state only when asked. The random-feature Gaussian process covariance is symmetric positive definite, equals the ridge-regularised inverse of the accumulated feature precision, and resetting at the start of each epoch makes the precision reflect that epoch's data only.",
  ["inputs", "histories"], "all weights, inputs, momentum settings and update histories",
  "Tests check a single configuration's shapes.",
  ["fortuna/model/utils/spectral_norm.py", PO+"sngp", "fortuna/prob_model/posterior/sngp"],
  [("power iteration", "fortuna/model/utils/spectral_norm.py"), ("precision reset", PO+"sngp")],
  ["SpectralNorm layers", "random feature layer covariance"], technique="SVD and dense linear-algebra oracles over layer states across histories")

prop("C37", "Hallucination scoring and grouping are consistent",
  "Perplexity scores equal their token-level definitions whatever the batching and order of the examples, group probabilities lie in [0, 1] and sum to one with the number of groups chosen by the best information criterion, and the fitted calibrator maps scores to probabilities in [0, 1] reproducibly after saving and loading, without altering the caller's data.",
  ["inputs", "histories"], "all token sequences, embeddings, labels and save/load histories",
  "Tests stub models with one fixed configuration.",
  ["fortuna/hallucination/base.py", "fortuna/hallucination/scoring", "fortuna/hallucination/grouping"],
  [("scores", "fortuna/hallucination/scoring"), ("grouping", "fortuna/hallucination/grouping")],
  ["score", "fit", "predict_proba"], technique="stub-model reference oracle over scores, groups and save/load")

prop("C38", "Text-classification datasets are batched without loss or corruption",
  "Tokenised datasets are delivered as batches in which every example appears exactly once (the incomplete last batch only dropped on request) with its own tokens, label and attention mask, truncated to the maximum length and padded to the configured multiple, in dataset order unless shuffled and identically on every pass. Language-modelling chunks partition the token stream, and masking hides only ordinary tokens, at the configured rate, keeping each hidden token as its label.",
  ["inputs", "configurations"], "all dataset sizes, sequence lengths, batch sizes and splits",
  "Tests use one mocked dataset.",
  ["fortuna/data/dataset"],
  [("collation", "fortuna/data/dataset")],
  ["get_data_loaders"], technique="conservation monitor over tagged tokenised examples")

prop("C39", "Built-in models compute each example independently and reproducibly",
  "In evaluation mode every built-in model's outputs for an example do not depend on the other examples in the batch and are deterministic; running statistics and dropout only act in training mode; composing feature extractor and head equals the full model, and outputs have the configured dimension and activations. Constant and hyper models broadcast the same output to every input.",
  ["inputs", "configurations"], "all built-in architectures, sizes and inputs",
  "Tests check output shapes.",
  ["fortuna/model", "fortuna/prob_model/posterior/sngp"],
  [("architectures", "fortuna/model"), ("model manager", "fortuna/model/model_manager")],
  ["model.apply", "model_manager.apply"], technique="row-independence and train/eval differential monitors")

prop("C40", "Calibration by fine-tuning follows its loss and options exactly",
  "Calibrating a classifier or regressor applies, batch by batch, the configured optimizer to the gradient of the given mean loss, honouring gradient clipping, accumulation, the validation schedule and any restart from the current or saved state, identically whether compiled, interpreted or distributed. Every predictive statistic afterwards is that of the likelihood at the calibrated parameters, and inconsistent data or requests are refused without leaving a state.",
  ["inputs", "configurations", "histories"], "all models, losses, batch sizes, optimizers, clipping and accumulation settings and restarts",
  "Tests check that a run finishes and its outputs have the right shapes.",
  ["fortuna/calib_model", "fortuna/loss", "fortuna/training/trainer.py"],
  [("calibration", "fortuna/calib_model/base.py:_calibrate"), ("loss", "fortuna/calib_model/loss.py"), ("predictive", "fortuna/calib_model/predictive")],
  ["CalibClassifier.calibrate", "CalibRegressor.calibrate", "predictive.*"], technique="step-by-step monitor of recorded parameters against an independent optimizer run")

prop("C41", "Pre-trained transformers behave inside Fortuna as they do outside",
  "A Hugging Face Flax model is trained from exactly its checkpoint's weights on the log joint of its own logits, with dropout active only in training, and its predictions are those of the model at the trained parameters whatever the batching, hidden padding or save and load. SNGP versions keep the checkpoint's weights, update the spectral statistics at every training step so that the normalised layer stays within its bound, and predict with mean-field logits.",
  ["inputs", "configurations", "histories"], "all supported architectures, texts, paddings, batch sizes and training schedules",
  "No test loads a transformer.",
  ["fortuna/model/model_manager/transformers", "fortuna/prob_model/posterior/sngp/transformers", "fortuna/data/loader/huggingface_loaders.py"],
  [("model manager", "fortuna/model/model_manager/transformers/classification.py"), ("SNGP models", "fortuna/prob_model/posterior/sngp/transformers/models"), ("auto class", "fortuna/prob_model/posterior/sngp/transformers/auto_factory.py")],
  ["ProbClassifier(model=FlaxPreTrainedModel)", "FlaxAutoSNGPModelForSequenceClassification.from_pretrained"], technique="differential monitor against the transformer called directly, step by step")

prop("C42", "Losses, schedules, loader guards and trainer selection equal their definition",
  "Cross-entropy, focal and scaled squared losses and their gradients equal their closed forms and stay finite at any logits, focusing parameter and batch order. Learning-rate schedules give exactly the documented value at every step, loaders that change between passes are refused and steady ones accepted, and each device setting selects its trainer. Trainers that serve as keys of compiled code are equal only if all their settings are, and random trees hold distinct, reproducible keys.",
  ["inputs", "configurations"], "all outputs and targets, schedule tables, loaders, settings and seeds",
  "Tests evaluate each loss once and no schedule at all.",
  ["fortuna/loss", "fortuna/utils/optimizer.py", "fortuna/utils/data.py", "fortuna/utils/device.py", "fortuna/utils/builtins.py", "fortuna/utils/random.py"],
  [("losses", "fortuna/loss"), ("schedules", "fortuna/utils/optimizer.py"), ("randomness guard", "fortuna/utils/data.py:check_data_loader_is_not_random")],
  ["focal_loss_fn", "stepped_schedule", "check_data_loader_is_not_random", "HashableMixin"], technique="closed-form oracle over recorded losses, schedules and selections")

prop("C43", "Figures show the numbers they are given and jobs launch as configured",
  "Reliability diagrams, uncertainty maps and regression bands draw every given number at its own place: each grid cell carries the uncertainty of its own point, bands span the requested number of standard deviations, and inputs stay untouched. A training job is launched exactly once with the channels, hyperparameters, names, metrics and credentials of its configuration, wrapped in a tuner only if one is configured.",
  ["inputs", "configurations"], "all data, grids and configurations",
  "Tests draw a reliability diagram without looking at it and launch no job.",
  ["fortuna/plot.py", "fortuna/sagemaker"],
  [("figures", "fortuna/plot.py"), ("jobs", "fortuna/sagemaker/base.py")],
  ["plot_2d_classification_predictions_and_uncertainty", "plot_reliability_diagram", "run_training_job"], technique="oracle over recorded figure artists and recorded launch calls")

prop("C44", "Half-precision training never lets an overflow into the parameters",
  "A network declared in float16 or bfloat16 is trained with a dynamic loss scale and single-precision parameters: a step whose scaled gradient overflows on any device leaves parameters and optimizer untouched and halves the scale, every other step is the optimizer's update with the unscaled gradient, and long runs of finite steps double the scale. Gradients accumulated over several batches leave the overflowing ones out, all replicas stay identical, and a run resumed from a checkpoint, the current or a saved state continues with the stored scale exactly as if never interrupted. Every approximation trains such networks to finite states and predictions.",
  ["inputs", "histories", "configurations"], "all networks, batches, scales, devices, optimizers and ways of resuming",
  "No test trains in half precision at all.",
  ["fortuna/training/trainer.py", "fortuna/prob_model/posterior/state.py", "fortuna/utils/builtins.py"],
  [("dynamic scale", "fortuna/training/trainer.py:training_step"), ("restored state", "fortuna/prob_model/posterior/state.py:init_from_dict")],
  ["ProbModel.train"], technique="online monitor over every training step against a single-precision reference, with injected overflows")

prop("C45", "Training continues from what a previous run left",
  "A run that continues from the current, a loaded or a checkpointed state of any approximation starts from exactly that state: parameters or means, spreads, running statistics and calibration, for every ensemble member, and for a chain its last step. It also does when other parameters train than before: what was learned is kept, and exactly the parameters that train now move or vary. Continuing leaves the folders it reads from untouched, an ensemble split into two runs equals the undivided one, and a state of a kind that an approximation cannot start from is refused without touching the model's own; a run that is not told to continue gives what it gives on a new model, whatever was trained, calibrated, stored or predicted before.",
  ["inputs", "histories", "configurations"], "all approximations, ways of handing over the state, trainable sets and folders",
  "Existing tests only check that continuing does not raise for one configuration each.",
  ["fortuna/prob_model/posterior/**", "fortuna/training/mixin.py"],
  [("ensemble members", "fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py:fit"), ("ADVI spreads", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py:fit"),
   ("restoring", "fortuna/prob_model/posterior/base.py:_restore_state_from_somewhere")],
  ["ProbModel.train"], technique="online monitor of the first state of every continued run against the last state of the previous one")

prop("C46", "Training on several devices equals training on one",
  "Data-parallel training of any approximation leaves the same state, checkpoints, samples and predictions as training on one device, with frozen parameters, clipping, accumulation, early stopping and continued runs alike, and reports the same losses and metrics. Running statistics are the average over devices and the precision of Gaussian-process heads their sum, in memory as in checkpoints. Calibrating on one or several devices gives each metric the calibrated predictions, uncertainties and targets of exactly the batches it claims, in order, and leaves a checkpoint every given number of steps.",
  ["inputs", "configurations", "schedules"], "all approximations and calibrators, data, options and device counts",
  "No test runs a data-parallel trainer: they are only selected on machines with GPUs.",
  ["fortuna/training/trainer.py", "fortuna/training/output_calibrator.py", "fortuna/prob_model/posterior/**", "fortuna/output_calib_model/**"],
  [("replicas", "fortuna/training/trainer.py:MultiDeviceMixin"), ("calibration metrics", "fortuna/training/output_calibrator.py:val_metrics_step"),
   ("ADVI replicas", "fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py:MultiDeviceADVITrainer")],
  ["ProbModel.train", "ProbModel.calibrate", "OutputCalibModel.calibrate"], technique="differential monitor of runs on one and two emulated devices, plus a recorder of every metric call")

prop("C47", "Model editors transform the outputs of every model",
  "With a model editor, the outputs of classifiers, regressors, spectral-normalised Gaussian processes (whose features are edited, once), pre-trained transformers and models fine-tuned for calibration are the editor's transformation of what the networks themselves give, for every approximation, with or without running statistics, in training, in served predictions and after saving and loading. The coefficients of the editor are learned with the other parameters, by the objective of the edited outputs, unless they are frozen, and running statistics follow the networks as without an editor. The probit editor propagates the uncertainty of exactly the selected parameters, never of running statistics.",
  ["inputs", "configurations"], "all kinds of models and approximations, editors, frozen parts and data",
  "No test combines an editor with an approximation, with running statistics, with SNGP or with transformers.",
  ["fortuna/model/model_manager/**", "fortuna/model_editor/**"],
  [("classification and SNGP", "fortuna/model/model_manager/classification.py"), ("regression", "fortuna/model/model_manager/regression.py"),
   ("transformers", "fortuna/model/model_manager/transformers/classification.py")],
  ["ProbModel.train", "CalibModel.calibrate"], technique="online monitor of every step and prediction against the networks' own outputs, edited outside")
