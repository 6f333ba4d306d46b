import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from fortuna.distribution.gaussian import DiagGaussian, MultGaussian
from fortuna.kernel_regression.nadaraya_watson import NadarayaWatsonKernelRegressor
from vf.core import Suite

suite = Suite(
    "C34",
    rule="case = training set, queries, bandwidth and kernel, or a Gaussian and query points; distinct = distinct predictions, densities, samples",
    assumptions=["queries at which every kernel weight underflows are excluded: the average is undefined there",
                 "sampling is judged with 4-sigma bounds on the moments of whitened draws"],
    required={"predict": 50, "constant-targets": 5, "custom-kernel": 10, "diag": 20, "mult": 20},
)
KERNELS = {
    "default": (None, lambda u: np.exp(-0.5 * u ** 2)),
    "epanechnikov": (lambda u: 0.75 * jnp.maximum(1 - u ** 2, 0), lambda u: np.maximum(1 - u ** 2, 0)),
    "laplace": (lambda u: 0.5 * jnp.exp(-jnp.abs(u)), lambda u: np.exp(-np.abs(u))),
    "box": (lambda u: jnp.where(jnp.abs(u) <= 1, 0.5, 0.0), lambda u: np.where(np.abs(u) <= 1, 1.0, 0.0)),
}


@suite.scenario(quick=70, thorough=2000)
def kernel_average(ctx):
    n, m = ctx.choice([1, 2, 15, 80]), ctx.choice([1, 9])
    name = ctx.choice(["default", "default", *list(KERNELS)[1:]])
    h = ctx.choice([None, 0.05, 0.3, 2.0])
    kind = ctx.choice(["noisy", "constant", "offset", "binary"])
    x = (ctx.rng.uniform(-1, 1, n) * ctx.choice([0.5, 2.0])).astype(np.float32)
    y = {"noisy": np.sin(3 * x) + 0.1 * ctx.rng.normal(size=n), "constant": np.full(n, ctx.choice([0.0, 2.5, -1e3])),
         "offset": 500 + x, "binary": (ctx.rng.random(n) < 0.4) * 1.0}[kind].astype(np.float32)
    q = np.where(ctx.rng.random(m) < 0.5, ctx.rng.choice(x, m), ctx.rng.choice(x, m) + (h or 0.1) * ctx.rng.uniform(-2, 2, m)).astype(np.float32)
    ctx.note(n=n, m=m, kernel=name, bandwidth=h, targets=kind)
    ctx.event("predict")
    kw = {} if KERNELS[name][0] is None else dict(kernel=KERNELS[name][0])
    if kw:
        ctx.event("custom-kernel")
    if np.ptp(y) == 0:
        ctx.event("constant-targets")
    bw = {} if h is None else dict(bandwidth=h)
    x0, y0, q0 = x.copy(), y.copy(), q.copy()
    model = NadarayaWatsonKernelRegressor(train_inputs=x, train_targets=y, **kw)
    got = np.asarray(model.predict(q, **bw))
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0) and np.array_equal(q, q0), "inputs-untouched")
    u = (q.astype(float)[:, None] - x[None]) / np.float32(h or 0.1)
    w = KERNELS[name][1](u)
    ok = w.sum(1) > 1e-6
    if name in ("box", "epanechnikov"):
        ok &= ~np.any(np.abs(np.abs(u) - 1) < 1e-3, axis=1)
    want = (w * y).sum(1) / np.where(ok, w.sum(1), 1)
    spread = float(np.ptp(y)) + 1e-3 * float(np.abs(y).max()) + 1e-6
    ctx.equal(got.shape, (m,), "one-prediction-per-query")
    ctx.check(np.all(np.abs(got - want)[ok] <= 3e-3 * spread) and not np.any(np.isnan(got[ok])), "kernel-average", f"{got[ok]} vs {want[ok]}")
    ctx.check(np.all((got[ok] >= y.min() - 1e-3 * spread) & (got[ok] <= y.max() + 1e-3 * spread)), "within-target-range", f"{got[ok]}")
    one = np.concatenate([np.asarray(model.predict(q[i:i + 1], **bw)) for i in range(min(m, 3))])
    ctx.check(np.all(np.abs(one - got[:3])[ok[:3]] <= 1e-3 * spread), "queries-are-independent")
    p = ctx.rng.permutation(n)
    alt = np.asarray(NadarayaWatsonKernelRegressor(train_inputs=x[p], train_targets=y[p], **kw).predict(q, **bw))
    ctx.check(np.all(np.abs(alt - got)[ok] <= 2e-3 * spread), "training-order-irrelevant")
    # the model keeps its own copy of what it was given
    x += 7
    y *= -3
    ctx.check(np.all(np.abs(np.asarray(model.predict(q, **bw)) - got)[ok] <= 1e-6 * spread), "keeps-its-own-copy")
    ctx.key(got)


@suite.scenario(quick=8, thorough=60)
def shapes_rejected(ctx):
    a = ctx.rng.normal(size=4).astype(np.float32)
    bad = ctx.integers(0, 3)
    ctx.note(bad=bad)
    ok = NadarayaWatsonKernelRegressor(train_inputs=a, train_targets=a)
    ctx.raises(ValueError, [lambda: NadarayaWatsonKernelRegressor(train_inputs=a[:, None], train_targets=a),
                            lambda: NadarayaWatsonKernelRegressor(train_inputs=a, train_targets=a[:, None]),
                            lambda: NadarayaWatsonKernelRegressor(train_inputs=a, train_targets=a[:3]),
                            lambda: ok.predict(a[:, None])][bad], "bad-shape-rejected")
    ctx.key(bad, a)


def moments(ctx, z, mech):
    """z: whitened draws (n, d)"""
    n, d = z.shape
    ctx.check(np.all(np.abs(z.mean(0)) < 4.5 / np.sqrt(n)), mech + ":mean", str(z.mean(0)))
    c = z.T @ z / n
    ctx.check(np.all(np.abs(c - np.eye(d)) < 4.5 * np.where(np.eye(d) > 0, np.sqrt(2), 1) / np.sqrt(n)), mech + ":covariance", str(c))
    for j in range(d):
        ctx.check(stats.kstest(z[:, j], "norm").pvalue > 1e-7, mech + ":normal")


@suite.scenario(quick=30, thorough=600)
def diagonal_gaussian(ctx):
    d = ctx.choice([1, 2, 5])
    form = ctx.choice(["arrays", "array-mean", "array-std", "floats"])
    mean = (ctx.rng.normal(size=d) * 3).astype(np.float32)
    std = ctx.rng.uniform(0.1, 4, d).astype(np.float32)
    if form in ("array-mean", "floats"):
        std[:] = std[0]
    if form in ("array-std", "floats"):
        mean[:] = mean[0]
    if form == "floats":
        d, mean, std = 1, mean[:1], std[:1]
    m_arg = float(mean[0]) if form in ("array-std", "floats") else jnp.asarray(mean)
    s_arg = float(std[0]) if form in ("array-mean", "floats") else jnp.asarray(std)
    ctx.note(d=d, form=form)
    ctx.event("diag")
    g = DiagGaussian(mean=m_arg, std=s_arg)
    x = (mean + std * ctx.rng.normal(size=(6, d)) * 2).astype(np.float32)
    want = stats.norm.logpdf(x, mean, std).sum(-1)
    ctx.close(np.asarray(g.log_joint_prob(jnp.asarray(x))), want, "log-density", rtol=1e-3, atol=1e-3)
    ctx.close(np.asarray(g.log_joint_prob(jnp.asarray(x[0]))), want[0], "log-density-of-one-point", rtol=1e-3, atol=1e-3)
    key = jax.random.PRNGKey(ctx.integers(0, 10**6))
    s = np.asarray(g.sample(key, n_samples=2000), float)
    ctx.equal(s.shape, (2000, d), "sample-shape")
    moments(ctx, (s - mean) / std, "diagonal")
    ctx.equal(np.asarray(g.sample(key, n_samples=2000)), s.astype(np.float32), "same-key-same-sample")
    ctx.equal(np.asarray(g.sample(key)).shape, (1, d), "one-sample-by-default")
    ctx.key(s[0])


@suite.scenario(quick=30, thorough=600)
def full_gaussian(ctx):
    d = ctx.choice([1, 2, 4])
    mean = (ctx.rng.normal(size=d) * 3).astype(np.float32)
    A = ctx.rng.normal(size=(d, d)) + np.eye(d)
    cov = (A @ A.T + 0.3 * np.eye(d)).astype(np.float32)
    ctx.note(d=d)
    ctx.event("mult")
    g = MultGaussian(mean=jnp.asarray(mean), cov=jnp.asarray(cov))
    x = (mean + ctx.rng.normal(size=(6, d)) @ A.T).astype(np.float32)
    want = stats.multivariate_normal(mean, cov).logpdf(x).reshape(-1)
    ctx.close(np.asarray(g.log_joint_prob(jnp.asarray(x))), want, "log-density", rtol=2e-3, atol=2e-3)
    key = jax.random.PRNGKey(ctx.integers(0, 10**6))
    s = np.asarray(g.sample(key, n_samples=2000), float)
    ctx.equal(s.shape, (2000, d), "sample-shape")
    moments(ctx, np.linalg.solve(np.linalg.cholesky(cov.astype(float)), (s - mean).T).T, "full")
    ctx.equal(np.asarray(g.sample(key, n_samples=2000)), s.astype(np.float32), "same-key-same-sample")
    ctx.key(s[0])
