import numpy as np

from fortuna.data.loader import TargetsLoader
from fortuna.metric import classification as C
from fortuna.metric import regression as R
from vf.core import Suite

suite = Suite(
    "C10",
    rule="case = one batch of predictions, probabilities and targets; distinct = distinct metric values",
    required={"empty_bins": 20, "single_sample": 5, "tie_at_edge": 5},
)


def gen(ctx, n, k):
    kind = ctx.integers(0, 4)
    if kind == 0:
        p = ctx.rng.dirichlet(np.full(k, 0.5), n)
    elif kind == 1:
        p = ctx.rng.dirichlet(np.full(k, 10.0), n)
    elif kind == 2:
        p = np.eye(k)[ctx.rng.integers(k, size=n)]  # fully confident
    elif kind == 3:
        p = np.full((n, k), 1.0 / k)
    else:  # confidences exactly on bin edges
        edges = np.linspace(1 / n, 1, 10)
        c = ctx.rng.choice(edges[edges >= 1 / k], size=n)
        p = np.full((n, k), 0.0)
        p[:] = ((1 - c) / (k - 1))[:, None]
        p[np.arange(n), ctx.rng.integers(k, size=n)] = c
        ctx.event("tie_at_edge")
    p = p.astype(np.float32)
    preds = p.argmax(1) if ctx.rng.random() < 0.8 else ctx.rng.integers(k, size=n)
    y = np.where(ctx.rng.random(n) < ctx.rng.random(), preds, ctx.rng.integers(k, size=n))
    return p, preds.astype(np.int32), y.astype(np.int32)


@suite.scenario(quick=150, thorough=3000)
def classification(ctx):
    n, k = ctx.choice([1, 2, 5, 17, 60, 200]), ctx.choice([2, 3, 10])
    p, preds, y = gen(ctx, n, k)
    onedim = ctx.rng.random() < 0.25
    conf = p.max(1)
    pin = conf if onedim else p
    ctx.note(n=n, k=k, onedim=onedim, probs=p[:3], preds=preds[:10], targets=y[:10])
    if n == 1:
        ctx.event("single_sample")
    a = [preds.copy(), pin.copy(), y.copy()]
    correct = (preds == y).astype(float)
    acc = float(C.accuracy(preds, y))
    ctx.close(acc, correct.mean(), "accuracy", atol=1e-6)
    counts, confs, accs = (np.asarray(x, float) for x in C.compute_counts_confs_accs(*a))
    ece, mce = float(C.expected_calibration_error(*a)), float(C.maximum_calibration_error(*a))
    ctx.check(all(np.array_equal(u, v) for u, v in zip(a, (preds, pin, y))), "inputs_untouched")
    ctx.key(acc, ece, mce)
    ctx.check(counts.sum() == n and np.all(counts >= 0), "each_sample_in_one_bin", f"{counts}")
    ctx.event("empty_bins", (counts == 0).sum())
    if len({len(counts), len(confs), len(accs)}) == 1 and counts.sum() == n:
        # bins are consecutive ranges of confidence: the counts determine their content up to ties
        o = np.argsort(conf, kind="stable")
        cuts = np.r_[0, np.cumsum(counts)].astype(int)
        top = -1.0
        gaps, weights = [], []
        for j in range(len(counts)):
            seg = o[cuts[j] : cuts[j + 1]]
            if len(seg) == 0:
                ctx.check(confs[j] == 0 and accs[j] == 0, "empty_bins_are_zero")
                continue
            ctx.check(conf[seg].min() > top, "ties_share_a_bin")
            top = conf[seg].max()
            ctx.close(confs[j], conf[seg].astype(float).mean(), "bin_confidence", atol=1e-5)
            ctx.close(accs[j], correct[seg].mean(), "bin_accuracy", atol=1e-5)
            if j > 0:
                ctx.check(conf[seg].max() - conf[seg].min() <= (1 - 1 / n) / 9 + 1e-5, "equal_width_bins")
            gaps.append(abs(correct[seg].mean() - conf[seg].astype(float).mean()))
            weights.append(len(seg) / n)
        ctx.close(ece, np.dot(gaps, weights), "ece_definition", atol=1e-5)
        ctx.close(mce, max(gaps), "mce_definition", atol=1e-5)
    ctx.check(-1e-6 <= ece <= 1 + 1e-6 and -1e-6 <= mce <= 1 + 1e-6, "calibration_errors_in_unit_interval", f"{ece} {mce}")
    ctx.check(mce >= ece - 1e-5, "mce_at_least_ece", f"{mce} < {ece}")
    ctx.check(ece >= abs(correct.mean() - conf.astype(float).mean()) - 1e-5, "ece_at_least_global_gap")
    ctx.check(float(C.ece(*a)) == ece and float(C.mce(*a)) == mce, "aliases")
    onehot = np.eye(k)[y]
    want = ((p.astype(float) - onehot) ** 2).sum(1).mean()
    ctx.close(C.brier_score(p, y), want, "brier_score", atol=1e-5)
    ctx.close(C.brier_score(p, TargetsLoader.from_array_targets(y, batch_size=max(1, n // 2))), want, "brier_score_from_loader", atol=1e-5)
    b = (ctx.rng.random(n) < conf).astype(np.int32)
    ctx.close(C.brier_score(conf, b), ((conf.astype(float) - b) ** 2).mean(), "binary_brier_score", atol=1e-5)
    q = ctx.rng.permutation(n)
    for f, name in ((C.expected_calibration_error, "ece"), (C.maximum_calibration_error, "mce")):
        ctx.close(f(preds[q], pin[q], y[q]), f(*a), "sample_order_irrelevant", atol=1e-5)
    ctx.close(C.brier_score(p[q], y[q]), want, "sample_order_irrelevant", atol=1e-5)
    ctx.close(C.accuracy(preds[q], y[q]), acc, "sample_order_irrelevant", atol=1e-6)


@suite.scenario(quick=80, thorough=1500)
def regression(ctx):
    n, d = ctx.choice([1, 2, 9, 100]), ctx.choice([1, 2, 5])
    s = float(ctx.choice([1.0, 1e-3, 100.0]))
    a, b = ((ctx.rng.normal(size=(n, d)) * s).astype(np.float32) for _ in range(2))
    if ctx.rng.random() < 0.1:
        b = a.copy()
    ctx.note(n=n, d=d, scale=s)
    e = a.astype(float) - b
    mse, mae = (e**2).sum(1).mean(), np.abs(e).sum(1).mean()
    tl = dict(rtol=1e-4, atol=1e-7)
    ctx.close(R.mean_squared_error(a, b), mse, "mse", **tl)
    ctx.close(R.mse(a, b), mse, "mse", **tl)
    ctx.close(R.root_mean_squared_error(a, b), np.sqrt(mse), "rmse", **tl)
    ctx.close(R.rmse(a, b), np.sqrt(mse), "rmse", **tl)
    ctx.close(R.mean_absolute_error(a, b), mae, "mae", **tl)
    ctx.close(R.mae(a, b), mae, "mae", **tl)
    ctx.close(R.root_mean_absolute_error(a, b), np.sqrt(mae), "rmae", **tl)
    ctx.close(R.rmae(a, b), np.sqrt(mae), "rmae", **tl)
    q = ctx.rng.permutation(n)
    ctx.close(R.rmse(a[q], b[q]), np.sqrt(mse), "sample_order_irrelevant", **tl)
    ctx.close(R.rmse(b, a), np.sqrt(mse), "symmetric", **tl)
    y = a[:, 0]
    lo = (y - ctx.rng.uniform(-0.5, 1, n) * s).astype(np.float32)
    up = (y + ctx.rng.uniform(-0.5, 1, n) * s).astype(np.float32)
    touch = ctx.rng.random(n)
    lo, up = np.where(touch < 0.1, y, lo), np.where(touch > 0.9, y, up)  # exactly on the bounds
    want = ((y >= lo) & (y <= up)).mean()
    col = lambda x: x[:, None] if ctx.rng.random() < 0.5 else x
    got = float(R.prediction_interval_coverage_probability(col(lo), col(up), col(y)))
    ctx.key(round(float(mse), 6), got)
    ctx.close(got, want, "picp", atol=1e-6)
    ctx.close(R.picp(lo, up, y), want, "picp", atol=1e-6)
    ctx.close(R.picp(lo[q], up[q], y[q]), want, "sample_order_irrelevant", atol=1e-6)
    if d > 1:
        ctx.raises(ValueError, lambda: R.picp(lo, up, a), "vector_targets_rejected")
        ctx.raises(ValueError, lambda: R.picp(a, up, y), "vector_bounds_rejected")
        ctx.raises(ValueError, lambda: R.picp(lo, a, y), "vector_bounds_rejected")
        ctx.raises(ValueError, lambda: C.accuracy(a.astype(int), y.astype(int)), "matrix_predictions_rejected")
