# what each check does: monitored, oracle, reach/bounds (one line each); used by gen_design.py
D = {
"C01": ("sets, scores and membership returned by the simple and adaptive conformal classifiers", "numpy re-computation of scores and order statistics; for every sample all leave-one-out rotations are conformalised and coverage is counted; nesting in the error, monotonicity in class probability, permutation of calibration points", "CV-style classification pools the folds' scores before one quantile (as implemented: `folds_are_pooled`)"),
"C02": ("intervals, scores, calibrated quantile", "order-statistic oracle, all rotations counted, nesting, shift/scale equivariance of the raw intervals", "error >= 1/(n+1)"),
"C03": ("intervals of jackknife+, minmax, CV+ and the caller's arrays before and after", "brute-force order statistics over every leave-one-out pair; containment of jackknife+ in minmax; repeated calls on the same objects (aliasing)", ""),
"C04": ("initial intervals, stored residual window after every streamed batch", "an independent out-of-bag aggregator given the same bootstrap indices; a queue model of the residual window for batches of size 1, several, and larger than the window", ""),
"C05": ("the error level after every step of adversarial streams", "the recursion in double precision, sign of every move, telescoped long-run average where no clipping occurred", ""),
"C06": ("calibrated probabilities, patches, thresholds, precisions, coverages", "exhaustive search over the same candidate grid", "candidates decided within float32 rounding are skipped"),
"C07": ("values, patches, losses and status of iterative multicalibrators (generic, binary, top-label)", "numpy replay of the patches jointly and one point at a time; runs with increasing round budgets must not increase the error; the group/bucket corrected in each round must be the worst one; second calibrations on the same object", ""),
"C08": ("one-shot values for calibration and test points", "per-cell averaging oracle, each test point also alone", ""),
"C09": ("BatchMVP thresholds, sets, intervals, calibration error", "patch replay, best attainable coverage in a single cell, definition of the multivalid error, earlier calls leave no trace", ""),
"C10": ("accuracy, Brier, ECE, MCE, reliability bins, RMSE, PICP and siblings", "textbook definitions in double precision including empty bins and ties at bin edges", ""),
"C11": ("the stream of batches of every loader kind and source, on several passes, interleaved and from threads", "each example carries its own tag: multiset, alignment and order conservation", "shuffling uses one fixed seed per loader: every pass repeats the order (observed behaviour, asserted only as a permutation)"),
"C12": ("loaders built from loaders: conversions, transforms, chop/split, sampling, sharding, dictionaries, random compositions", "the same operations on lists of tagged examples; interposed reads of source loaders", ""),
"C13": ("log-probabilities, moments, samples, intervals of output layers", "closed-form categorical/masked/normal densities; sample frequencies at 6 standard errors", "the masked layer is checked for positive targets only: it ignores targets <= 0 (design note)"),
"C14": ("every likelihood statistic with different batch sizes, one or two (emulated) devices, calibrated or not, with running statistics", "one-example-at-a-time evaluation of the flax model", ""),
"C15": ("predictive densities, means, modes, entropies, variances, samples", "the posterior is replaced by a known finite mixture whose draws are reported from inside compiled code by a host callback: the statistics must be those of exactly the drawn members", ""),
"C16": ("credible sets, Bayesian conformal sets, quantiles, intervals", "as C15; mass of the returned set under the drawn mixture, minimality; quantiles through the mixture's distribution function", ""),
"C17": ("log densities, gradients and samples of priors; joint log-probabilities, unnormalised by batching", "double-precision Gaussian densities leaf by leaf; n_data/batch scaling; initial states", ""),
"C18": ("whole workflows run twice, with other work in between, in another process, and with the same FitConfig, network, prior or calibrator shared by several models", "bitwise equality of everything observed; another seed must differ; configurations unchanged by use", "one machine, one device count"),
"C19": ("predictions, samples, parameters before saving and after loading into a fresh model", "equality, for eight approximations x (save_state | dump) x (all | frozen parameters) x calibrated, saving twice to the same place, missing checkpoints refused", ""),
"C20": ("every file operation under the checkpoint directory (audit hook + flax I/O shims, local backend)", "fault injection: the run dies at the k-th operation (before, half-way through a write), is restarted, and must restore a state that had been saved; also kill -9 of a real process", "a crash is a stop at a file operation; rename atomic"),
"C21": ("parameters before/after training for every approximation under random freezing rules", "bitwise equality of frozen leaves, movement of the trainable ones, independent optimizer on the trainable subtree, samples keep frozen leaves", ""),
"C22": ("parameters and losses after every batch (callback), also of runs that continue in the middle of a window, and of every approximation", "independent optax run on accumulated, clipped gradients; two emulated devices; norm and cadence of every applied gradient", "micro-batches of one window share the rng key (as implemented)"),
"C23": ("callback trace, statuses, validation calls, early stopping for every approximation", "automaton of the configured schedule; flax EarlyStopping semantics (stops on the (patience+1)-th non-improvement)", "early stopping stores the best state with keep=1 but returns the last one (as implemented)"),
"C24": ("SWAG moments and 12 000 samples", "moments recomputed from the recorded trajectory; covariance 0.5(diag + DD'/(rank-1)) at 4 sigma", "per-step weighting by epoch number as implemented"),
"C25": ("Laplace precisions, log-variances tuned, samples", "dense Gauss-Newton from explicit Jacobians; whitening of samples; independent evidence estimate", ""),
"C26": ("ADVI flow values, objective, samples", "closed-form Gaussian densities and log-determinants, independent Monte Carlo objective", ""),
"C27": ("step sizes, preconditioners, update recurrences, collected chains", "the documented recurrences run in numpy with the noise recovered and tested; schedule of collected samples", "cyclical phase counts from step-burnin-1 (as implemented); max_grad_norm and accumulation are ignored by both samplers (design note)"),
"C28": ("kernel Stein discrepancy and effective sample size", "pairwise double loops in double precision; separation of right and wrong targets", ""),
"C29": ("histories of repository operations in memory and on disk; ensembles", "a model repository (dict of steps with keep/discard semantics)", ""),
"C30": ("fitted temperatures", "dense search in double precision and closed forms, order preservation, zeros and ones", ""),
"C31": ("calibrator parameters per step, predictions before/after", "independent optimizer run on the recorded outputs; argmax/mean unchanged; two devices; resuming; randomising loaders refused", ""),
"C32": ("nested dictionaries utilities, path codecs, freeze partition, decay mask", "flattened-dictionary oracle", ""),
"C33": ("Mahalanobis, Malahanobis-relative and DDU scores", "double-precision densities; degenerate and missing classes", ""),
"C34": ("Nadaraya-Watson predictions; DiagGaussian/multivariate Gaussian", "exact averages and densities; whitened samples", ""),
"C35": ("probit-scaled logits for all strategies, sequences, editors", "dense linearised Gaussian covariance", "sequential probit with short memory is an approximation and is not compared"),
"C36": ("spectrally normalised layers, random features, SNGP precision over epochs", "SVD / linear operator norm; covariance recursion in double precision", "SAME padding, no grouped convolutions"),
"C37": ("hallucination scores, groups, probabilities with a small GPT-2", "perplexity and grouping by definition, string inputs, recomputation", "known finding: padding changes the score"),
"C38": ("batches of tokenised datasets", "every word is a tag: conservation, alignment, truncation, padding, mask rate, label keeping", "masking uses numpy's global generator"),
"C39": ("outputs of built-in architectures", "each row alone against in a batch; running-statistics formula; dropout rate; explicit dense formulas", "residual networks run with few blocks"),
"C40": ("parameters, losses, metrics at every step of calibrate(); predictive statistics", "independent optax run with the loss written out; plain, compiled and two-device trainers", "restoring restarts the optimizer state (as implemented)"),
"C41": ("tiny random BERT, DistilBERT, RoBERTa (and SNGP versions) through training, padding, saving", "transformers' own modules called directly; power iteration in numpy", "no real checkpoints offline"),
"C42": ("losses, gradients, schedules, loader guard, trainer selection, static-argument identity, random trees", "closed forms; loaders that change one element of one batch between passes", "float32"),
"C43": ("matplotlib artists, recorded launch calls", "the numbers given, cell by cell; configuration", "Agg backend; AWS replaced by recorders"),
"C44": ("parameters, optimizer state, scale, counters and accumulated gradients after every training step, on one and two devices, with injected overflowing batches", "transition rules of a dynamic loss scale; single-precision gradient of the loss written out; the uninterrupted run", "update compared up to 4% of its norm (half precision); batch statistics of an overflowing forward pass are kept, as in flax"),
"C45": ("states at both ends of two consecutive runs, with a learning rate of zero in the second, and the bytes of the folders", "the state that the first run left, element by element; the undivided run; the same run of a new model with the same random numbers", "optimizers restart when training continues, as documented; curvatures compared to 1e-3"),
"C46": ("states, checkpoints, statuses, samples and predictions of the same run on one and on two emulated devices; every metric call of a calibration", "the single-device run; the written-out schedule, predictions and uncertainties of a calibration; running averages per device", "two emulated CPU devices; metrics are means; tolerances of 0.2-0.5% for different summation orders"),
"C47": ("every step of training with an editor, every draw, prediction and reloaded state", "the bare Flax networks' outputs edited outside Fortuna (affine map; dense Jacobian for the probit editor) and plain gradient steps", "affine and probit editors; small networks and tiny transformers; tolerances of 0.1-0.5%"),
}
