"""C30 temperature scaling. Oracle: the loss each method minimises, computed here at the fitted temperature and on a wide scan of candidates."""
import numpy as np
from scipy.special import log_softmax

from fortuna.calibration.binary_classification.temp_scaling.bias_binary_temp_scaling import (
    BiasBinaryClassificationTemperatureScaling as Bias,
)
from fortuna.calibration.binary_classification.temp_scaling.brier_binary_temp_scaling import (
    BrierBinaryClassificationTemperatureScaling as Brier,
)
from fortuna.calibration.binary_classification.temp_scaling.crossentropy_binary_temp_scaling import (
    CrossEntropyBinaryClassificationTemperatureScaling as CrossEntropy,
)
from fortuna.calibration.binary_classification.temp_scaling.f1_temp_scaling import (
    F1BinaryClassificationTemperatureScaling as F1,
)
from fortuna.calibration.classification.temp_scaling.base import ClassificationTemperatureScaling as Softmax
from vf.core import Suite

suite = Suite(
    "C30",
    rule="case = (sample size, classes, confidence scale, accuracy or base rate, exact zeros/ones, ties) -> probabilities and targets; "
         "distinct = distinct fitted temperatures",
    assumptions=[
        "targets contain a positive with positive probability where the optimum needs one (otherwise the closed form is 0/0)",
        "search tolerance: 1e-3 in mean loss",
    ],
    required={"softmax": 30, "zeros": 10, "bias": 10, "brier": 10, "bce": 20, "f1": 10, "anti-calibrated": 3, "refit": 5},
)
SCAN = np.exp(np.linspace(np.log(1e-5), np.log(1e3), 600))


def nll(p, y, t):
    with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
        return -float(np.mean(log_softmax(np.log(p) / t, axis=1)[np.arange(len(y)), y]))


def keep_input(ctx, *arrays):
    copies = [a.copy() for a in arrays]
    return lambda: ctx.check(all(np.array_equal(a, b) for a, b in zip(arrays, copies)), "input-modified", "fit or predict altered the given arrays")


@suite.scenario(quick=300, thorough=4000)
def multiclass(ctx):
    n, k = ctx.choice([2, 3, 5, 10, 30, 60]), ctx.choice([2, 3, 4, 6, 10])
    scale = 10 ** ctx.rng.uniform(-2.5, 1.3)
    l = ctx.rng.normal(size=(n, k)) * scale
    mode = ctx.choice(["noisy", "noisy", "noisy", "right", "anti"])
    acc = ctx.rng.random()
    p = np.exp(l - l.max(1, keepdims=True))
    p /= p.sum(1, keepdims=True)
    p = np.maximum(p, 1e-300)
    top = p.argmax(1)
    y = {"noisy": np.where(ctx.rng.random(n) < acc, top, ctx.rng.integers(0, k, n)), "right": top, "anti": p.argmin(1)}[mode]
    zeros = ctx.rng.random() < 0.3
    if zeros:  # a saturated softmax: zeros wherever the target is not
        m = ctx.rng.random((n, k)) < 0.3
        m[np.arange(n), y] = False
        m[np.arange(n), top] = False
        p = np.where(m, 0.0, p)
        p /= p.sum(1, keepdims=True)
        ctx.event("zeros")
    if mode == "anti":
        ctx.event("anti-calibrated")
    if ctx.rng.random() < 0.2:
        p = p.astype(np.float32)
    ctx.note(n=n, classes=k, scale=round(scale, 4), mode=mode, zeros=bool(zeros), dtype=str(p.dtype))
    same = keep_input(ctx, p, y)
    with np.errstate(all="ignore"):
        s = Softmax()
        ctx.check(s.temperature is None, "temperature-before-fit", str(s.temperature))
        s.fit(p, y)
        t = float(s.temperature)
        q = s.predict_proba(p)
    ctx.key(("softmax", round(t, 6)))
    ctx.event("softmax")
    ctx.check(np.isfinite(t) and t > 0, "temperature-positive", f"{t}")
    d = p.astype(float)
    a, u = nll(d, y, t), nll(d, y, 1.0)
    ctx.check(a <= u + 1e-3, "worse-than-uncalibrated", f"loss {a} at the fitted temperature {t}, {u} uncalibrated")
    v = [nll(d, y, w) for w in SCAN]
    ctx.check(a <= min(v) + 1e-3, "not-the-best-temperature", f"loss {a} at the fitted temperature {t}, {min(v)} at {SCAN[int(np.argmin(v))]}")
    ctx.check(np.all(np.isfinite(q)) and np.all(q >= 0) and np.allclose(q.sum(1), 1, atol=1e-5), "not-a-distribution", f"{q}")
    with np.errstate(all="ignore"):
        ctx.close(q, np.exp(log_softmax(np.log(d) / t, axis=1)), "proba-formula", "probabilities at the fitted temperature", rtol=1e-3, atol=1e-5)
    # ranking: wherever p_i > p_j, q_i >= q_j
    bad = (d[:, :, None] > d[:, None, :]) & (q[:, :, None] < q[:, None, :] - 1e-7)
    ctx.check(not bad.any(), "ranking-changed", f"{int(bad.sum())} pairs of classes changed order")
    ctx.equal(s.predict(p), np.argmax(p, 1), "predicted-class", "predict")
    pos = q[np.arange(n), s.predict(p)]
    ctx.check(np.all(pos >= q.max(1) - 1e-6), "predict-vs-proba", "the predicted class is not the most probable one")
    # other examples, also of another shape
    m = ctx.integers(1, 7)
    r = ctx.rng.dirichlet(np.ones(k), m)
    with np.errstate(all="ignore"):
        whole = s.predict_proba(r)
        ctx.close(np.concatenate([s.predict_proba(r[i:i + 1]) for i in range(m)]), whole, "example-independence", "one by one", rtol=1e-6, atol=1e-9)
        o = ctx.rng.permutation(n)
        s2 = Softmax()
        s2.fit(p[o], y[o])
        ctx.close(nll(d, y, float(s2.temperature)), a, "order-dependence", "loss after fitting permuted examples", rtol=1e-3, atol=1e-3)
        # an instance may be fitted again: nothing of the first fit remains
        if ctx.rng.random() < 0.4:
            ctx.event("refit")
            s.fit(np.maximum(r, 1e-12), r.argmax(1))
            s.fit(p, y)
            ctx.close(float(s.temperature), t, "refit", "temperature after fitting something else in between", rtol=1e-9)
    same()


def binary(ctx):
    n = ctx.choice([2, 3, 6, 15, 40])
    scale = ctx.choice([0.02, 0.2, 1.0, 1.0])
    p = ctx.rng.random(n) * scale
    if ctx.rng.random() < 0.3:
        p = np.round(p, 2)
    z = ctx.rng.random() < 0.3
    if z:
        p[ctx.rng.random(n) < 0.3] = 0.0
        p[ctx.integers(0, n - 1)] = scale
    y = (ctx.rng.random(n) < np.clip(p * 10 ** ctx.rng.uniform(-1, 1.2), 0, 1)).astype(int)
    j = int(np.argmax(p))
    if p[j] == 0:
        p[j] = scale / 2
    y[j] = 1
    if ctx.rng.random() < 0.1:
        y[:] = 1
    if z:
        ctx.event("zeros")
    ctx.note(n=n, scale=scale, zeros=bool(z), positives=int(y.sum()))
    return p, y


def common(ctx, s, p, y, thr=0.5):
    t = float(s.temperature)
    ctx.check(np.isfinite(t) and t > 0, "temperature-positive", f"{t}")
    with np.errstate(all="ignore"):
        q = s.predict_proba(p)
    ctx.check(np.all((q >= 0) & (q <= 1)), "not-a-probability", f"{q}")
    ctx.close(q, np.minimum(p / t, 1), "proba-formula", "probabilities at the fitted temperature", rtol=1e-6)
    o = np.argsort(p, kind="stable")
    ctx.check(np.all(np.diff(q[o]) >= 0), "not-monotone", f"{q[o]} for {p[o]}")
    ctx.check(np.array_equal(s.predict(p), (q >= thr).astype(int)), "predict-vs-proba", f"{s.predict(p)} for {q} threshold {thr}")
    grid = np.linspace(0, 1, 11)
    h = s.predict_proba(grid)
    ctx.check(np.all(np.diff(h) >= 0) and np.all((h >= 0) & (h <= 1)), "not-monotone", f"{h}")
    return t


@suite.scenario(quick=200, thorough=3000)
def closed_forms(ctx):
    p, y = binary(ctx)
    same = keep_input(ctx, p, y)
    o = ctx.rng.permutation(len(p))
    s = Bias()
    s.fit(p, y)
    t = common(ctx, s, p, y)
    ctx.event("bias")
    ctx.key(("bias", round(t, 6)))
    ctx.close(np.mean(p / t), np.mean(y), "bias-optimum", "mean scaled probability vs base rate", rtol=1e-9)
    s2 = Bias()
    s2.fit(p[o], y[o])
    ctx.close(float(s2.temperature), t, "order-dependence", "bias temperature", rtol=1e-9)
    thr = float(ctx.choice([0.1, 0.3, 0.7]))
    ctx.equal(s.predict(p, thr), (s.predict_proba(p) >= thr).astype(int), "predict-vs-proba", f"threshold {thr}")

    s = Brier()
    s.fit(p, y)
    t = common(ctx, s, p, y)
    ctx.event("brier")
    ctx.key(("brier", round(t, 6)))
    f = lambda w: float(np.mean((p / w - y) ** 2))
    v = [f(w) for w in np.concatenate([SCAN, t * np.linspace(0.9, 1.1, 21), [1.0]])]
    ctx.check(f(t) <= min(v) * (1 + 1e-9) + 1e-12, "brier-optimum", f"{f(t)} at {t}, best scanned {min(v)}")
    s2 = Brier()
    s2.fit(p[o], y[o])
    ctx.close(float(s2.temperature), t, "order-dependence", "Brier temperature", rtol=1e-9)
    same()


def bce(p, y, t):
    q = np.clip(p / t, 1e-9, 1 - 1e-9)
    return -float(np.mean(y * np.log(q) + (1 - y) * np.log(1 - q)))


@suite.scenario(quick=120, thorough=2000)
def cross_entropy(ctx):
    p, y = binary(ctx)
    same = keep_input(ctx, p, y)
    s = CrossEntropy()
    s.fit(p, y)
    t = common(ctx, s, p, y)
    ctx.event("bce")
    ctx.key(("bce", round(t, 6)))
    a, u = bce(p, y, t), bce(p, y, 1.0)
    ctx.check(a <= u + 1e-3, "worse-than-uncalibrated", f"loss {a} at {t}, {u} uncalibrated")
    c = np.concatenate([SCAN, t * np.linspace(0.9, 1.1, 11)])
    v = [bce(p, y, w) for w in c]
    ctx.check(a <= min(v) + 1e-2, "not-the-best-temperature", f"loss {a} at {t}, {min(v)} at {c[int(np.argmin(v))]}")
    o = ctx.rng.permutation(len(p))
    s2 = CrossEntropy()
    s2.fit(p[o], y[o])
    ctx.close(bce(p, y, float(s2.temperature)), a, "order-dependence", "loss after fitting permuted examples", rtol=1e-3, atol=1e-3)
    same()


def f1(p, y, cut):
    m = p >= cut
    tp = (m & (y == 1)).sum()
    return 0.0 if tp == 0 else 2.0 * tp / (m.sum() + y.sum())


@suite.scenario(quick=100, thorough=1500)
def f1_score(ctx):
    p, y = binary(ctx)
    p = np.round(p * 50 / p.max()) / 50 * ctx.choice([1.0, 0.98, 0.6])  # values far enough apart for the 1000-point grid to separate all of them
    j = int(np.argmax(p))
    y[j] = 1
    thr = float(ctx.choice([0.2, 0.5, 0.5, 0.8]))
    same = keep_input(ctx, p, y)
    s = F1()
    s.fit(p, y, thr)
    t = common(ctx, s, p, y, thr)
    ctx.event("f1")
    ctx.key(("f1", round(t, 6), thr))
    ctx.close(float(s.threshold), thr, "threshold", "stored threshold")
    got = f1(s.predict_proba(p), y, thr)
    cuts = np.unique(p[p > 0])
    # cutoffs reachable by a temperature of at least the least positive probability
    best = max(f1(p, y, c) for c in cuts)
    ctx.check(got >= best - 1e-9 or got >= max([f1(p, y, c) for c in cuts - 1e-3] + [0]) - 1e-9, "not-the-best-temperature",
              f"F1 {got} at temperature {t}, best over cutoffs {best} ({p}, {y}, threshold {thr})")
    same()


@suite.scenario(quick=12, thorough=60)
def validation(ctx):
    """wrong shapes and non-integer targets are rejected and leave a fitted temperature alone"""
    cls = ctx.choice([Bias, Brier, CrossEntropy, F1, Softmax])
    s = cls()
    extra = (0.5,) if cls is F1 else ()
    good = (np.array([[0.2, 0.8], [0.6, 0.4], [0.3, 0.7]]), np.array([1, 0, 0])) if cls is Softmax else (np.array([0.2, 0.7, 0.6]), np.array([0, 1, 1]))
    s.fit(*good, *extra)
    t = float(s.temperature)
    p, y = good
    wrong = p[0] if cls is Softmax else p[:, None]
    ctx.raises(ValueError, lambda: s.fit(wrong, y, *extra), "bad-probs-accepted", "fit")
    ctx.raises(ValueError, lambda: s.fit(p, y.astype(float), *extra), "float-targets-accepted", "fit")
    ctx.raises(ValueError, lambda: s.fit(p, y[:, None], *extra), "bad-targets-accepted", "fit")
    ctx.raises(ValueError, lambda: s.predict_proba(wrong), "bad-probs-accepted", "predict_proba")
    ctx.raises(ValueError, lambda: s.predict(wrong), "bad-probs-accepted", "predict")
    ctx.close(float(s.temperature), t, "refused-fit-changed-state", "temperature")
    ctx.key((cls.__name__, round(t, 6)))
