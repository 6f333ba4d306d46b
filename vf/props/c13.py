import jax
import jax.numpy as jnp
import numpy as np
from scipy import special, stats

from fortuna.prob_output_layer.classification import (
    ClassificationMaskedProbOutputLayer,
    ClassificationProbOutputLayer,
)
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer
from fortuna.utils.random import RandomNumberGenerator
from vf.core import Suite

suite = Suite(
    "C13",
    rule="case = (outputs, targets, key); distinct = distinct log-probability vectors",
    assumptions=["outputs are finite float32 of magnitude up to 60", "sampling frequencies judged at 6 standard errors"],
    required={"saturated": 10, "sampled": 20},
)
NS, KS = [1, 2, 5, 16], [2, 3, 7]


def layer(ctx, cls):
    l = cls()
    l.rng = RandomNumberGenerator(ctx.integers(0, 10 ** 6))
    return l


def logits(ctx, n, k):
    s = float(ctx.choice([0.1, 1.0, 5.0, 30.0]))
    o = (ctx.rng.normal(size=(n, k)) * s + ctx.rng.normal() * float(ctx.choice([0, 10, 30]))).astype("float32")
    if ctx.rng.random() < 0.2:
        o[:] = o[:, :1]  # ties
    if s >= 30:
        ctx.event("saturated")
    return o


@suite.scenario(quick=200, thorough=6000)
def categorical(ctx):
    n, k = ctx.choice(NS), ctx.choice(KS)
    o = logits(ctx, n, k)
    arr = ctx.choice([jnp.asarray, np.asarray])
    l = layer(ctx, ClassificationProbOutputLayer)
    t = ctx.rng.integers(0, k, size=n)
    lp = special.log_softmax(o.astype(float), -1)
    p = np.exp(lp)
    ctx.note(n=n, classes=k, outputs=o)
    got = l.log_prob(arr(o), arr(t))
    ctx.close(got, lp[np.arange(n), t], "log-prob", rtol=2e-5, atol=2e-5)
    every = np.stack([np.asarray(l.log_prob(arr(o), arr(np.full(n, c)))) for c in range(k)], 1)
    ctx.close(np.exp(every).sum(1), np.ones(n), "normalised", atol=2e-5)
    ctx.close(l.mean(arr(o)), p, "mean", atol=2e-6)
    ctx.close(l.variance(arr(o)), p * (1 - p), "variance", atol=2e-6)
    ctx.close(np.asarray(l.std(arr(o))) ** 2, np.asarray(l.variance(arr(o))), "std", atol=2e-6)
    v = ctx.rng.uniform(0.1, 4, size=(n, k)).astype("float32")
    ctx.close(l.std(arr(o), variances=arr(v)), np.sqrt(v), "std-of-given-variance")
    ctx.close(l.entropy(arr(o)), -(p * lp).sum(1), "entropy", atol=3e-5)
    for f, m in ((l.mode, "mode"), (l.predict, "predict")):
        g = np.asarray(f(arr(o)))
        ctx.check(g.shape == (n,) and np.all(o[np.arange(n), g] == o.max(1)), m)
    # a row's results depend on that row alone
    j = ctx.integers(0, n - 1)
    ctx.close(l.log_prob(arr(o[j:j + 1]), arr(t[j:j + 1]))[0], got[j], "row-independent", rtol=1e-6, atol=1e-6)
    ctx.close(l.entropy(arr(o[j:j + 1]))[0], l.entropy(arr(o))[j], "row-independent", rtol=1e-5, atol=1e-5)
    ctx.key(np.asarray(got))


@suite.scenario(quick=60, thorough=1500)
def masked(ctx):
    """label 0 is padding: it contributes nothing, others contribute as without a mask"""
    n, k = ctx.choice(NS), ctx.choice(KS)
    o = logits(ctx, n, k)
    l = layer(ctx, ClassificationMaskedProbOutputLayer)
    t = ctx.rng.integers(0, k, size=n)
    lp = special.log_softmax(o.astype(float), -1)[np.arange(n), t]
    got = np.asarray(l.log_prob(jnp.asarray(o), jnp.asarray(t)))
    ctx.close(got, np.where(t == 0, 0.0, lp), "masked-log-prob", rtol=2e-5, atol=2e-5)
    ctx.key(got)


@suite.scenario(quick=24, thorough=400)
def categorical_samples(ctx):
    n, k, m = ctx.choice([1, 3, 6]), ctx.choice([2, 4]), 3000
    o = logits(ctx, n, k)
    l = layer(ctx, ClassificationProbOutputLayer)
    p = special.softmax(o.astype(float), -1)
    given = bool(ctx.rng.random() < 0.5)
    if given:
        p = ctx.rng.dirichlet(np.ones(k), size=n)
    kw = dict(probs=jnp.asarray(p, jnp.float32)) if given else {}
    key = jax.random.PRNGKey(ctx.integers(0, 10 ** 6))
    s = np.asarray(l.sample(m, jnp.asarray(o), rng=key, **kw))
    ctx.equal(s.shape, (m, n), "sample-shape")
    ctx.equal(s, l.sample(m, jnp.asarray(o), rng=key, **kw), "sample-reproducible")
    s2 = np.asarray(l.sample(m, jnp.asarray(o), rng=jax.random.PRNGKey(10 ** 6 + ctx.i), **kw))
    if (p.max(1) < 0.9).any():
        ctx.check(not np.array_equal(s, s2), "keys-matter")
        # rows are drawn independently
        if n > 1 and (p.max(1)[:2] < 0.8).all():
            a, b = (s[:, 0] == 0), (s[:, 1] == 0)
            c = np.cov(a, b)[0, 1]
            se = np.sqrt(max(a.var() * b.var(), 1e-12) / m)
            ctx.check(abs(c) < 6 * se + 1e-6, "rows-independent", f"cov {c} se {se}")
    f = np.stack([(s == c).mean(0) for c in range(k)], 1)
    se = np.sqrt(p * (1 - p) / m)
    ctx.check(np.all(np.abs(f - p) <= 6 * se + 2 / m), "sample-frequencies", f"{f} vs {p}")
    ctx.check(not np.array_equal(l.sample(m, jnp.asarray(o), **kw), l.sample(m, jnp.asarray(o), **kw))
              or (p.max(1) > 0.9).all(), "default-key-advances")
    ctx.event("sampled")
    ctx.key(s[:50])


def gauss(ctx, n, d):
    mu = (ctx.rng.normal(size=(n, d)) * float(ctx.choice([1, 100]))).astype("float32")
    lv = (ctx.rng.normal(size=(n, d)) * float(ctx.choice([0.3, 2.0, 5.0]))).astype("float32")
    return mu, lv, np.concatenate([mu, lv], -1)


@suite.scenario(quick=150, thorough=5000)
def normal(ctx):
    n, d = ctx.choice(NS), ctx.choice([1, 2, 3])
    mu, lv, o = gauss(ctx, n, d)
    arr = ctx.choice([jnp.asarray, np.asarray])
    l = layer(ctx, RegressionProbOutputLayer)
    sd = np.exp(0.5 * lv.astype(float))
    y = (mu + sd * ctx.rng.normal(size=(n, d)) * 2).astype("float32")
    ctx.note(n=n, dim=d, outputs=o, targets=y)
    got = np.asarray(l.log_prob(arr(o), arr(y)))
    z = (y.astype(float) - mu) / sd
    scale = 1 + (z ** 2 + np.abs(lv)).sum(-1) + (np.abs(mu) / sd * np.abs(z)).sum(-1) * 2e-2
    want = stats.norm.logpdf(y.astype(float), mu.astype(float), sd).sum(-1)
    ctx.check(got.shape == (n,) and np.all(np.abs(got - want) <= 1e-4 * scale), "log-prob", f"{got} vs {want}")
    for f, m in ((l.mean, "mean"), (l.mode, "mode"), (l.predict, "predict")):
        ctx.equal(f(arr(o)), mu, m)
    ctx.close(l.variance(arr(o)), sd ** 2, "variance", rtol=1e-4)
    ctx.close(l.std(arr(o)), sd, "std", rtol=1e-4)
    v = ctx.rng.uniform(0.1, 4, size=(n, d)).astype("float32")
    ctx.close(l.std(arr(o), variances=arr(v)), np.sqrt(v), "std-of-given-variance")
    j = ctx.integers(0, n - 1)
    ctx.close(l.log_prob(arr(o[j:j + 1]), arr(y[j:j + 1]))[0], got[j], "row-independent", rtol=1e-5, atol=1e-5)
    ctx.key(got)


@suite.scenario(quick=40, thorough=600)
def normal_samples(ctx):
    n, d, m = ctx.choice([1, 3, 6]), ctx.choice([1, 2]), 3000
    mu, lv, o = gauss(ctx, n, d)
    sd = np.exp(0.5 * lv.astype(float))
    l = layer(ctx, RegressionProbOutputLayer)
    key = jax.random.PRNGKey(ctx.integers(0, 10 ** 6))
    s = np.asarray(l.sample(m, jnp.asarray(o), rng=key))
    ctx.equal(s.shape, (m, n, d), "sample-shape")
    ctx.equal(s, l.sample(m, jnp.asarray(o), rng=key), "sample-reproducible")
    ctx.check(not np.array_equal(s, l.sample(m, jnp.asarray(o))), "keys-matter")
    z = (s - mu) / sd
    ctx.check(np.all(np.abs(z.mean(0)) < 6 / np.sqrt(m)), "sample-mean", z.mean(0))
    ctx.check(np.all(np.abs(z.var(0) - 1) < 6 * np.sqrt(2 / m)), "sample-variance", z.var(0))
    ctx.check(np.all(stats.kstest(z[:, 0, 0], "norm").pvalue > 1e-7), "sample-law")
    if n * d > 1:
        c = np.cov(z.reshape(m, -1).T)
        ctx.check(np.all(np.abs(c - np.diag(np.diag(c))) < 6 / np.sqrt(m)), "samples-independent")
    ctx.event("sampled")
    e = np.asarray(l.entropy(jnp.asarray(o), n_target_samples=m, rng=key))
    want = stats.norm.entropy(mu, sd).sum(-1)
    ctx.check(e.shape == (n,) and np.all(np.abs(e - want) < 6 * np.sqrt(d / 2 / m) + 1e-3), "entropy", f"{e} vs {want}")
    qs = np.sort(ctx.rng.uniform(0.02, 0.98, size=3))
    q = l.quantile(ctx.choice([list, np.asarray, jnp.asarray])([float(v) for v in qs]), jnp.asarray(o),
                   n_target_samples=m, rng=key)
    ctx.close(q, np.quantile(s.astype(float), qs, axis=0), "quantile", rtol=1e-4, atol=1e-4 * float(sd.max() + 1))
    q1 = l.quantile(0.5, jnp.asarray(o), n_target_samples=m, rng=key)
    ctx.check(np.all(np.abs(np.asarray(q1) - mu) < 8 * sd / np.sqrt(m)), "median-near-mean")
    ctx.key(s[:20])


@suite.scenario(quick=50, thorough=800)
def intervals(ctx):
    n, m = ctx.choice([1, 2, 3, 6]), 2000
    mu, lv, o = gauss(ctx, n, 1)
    sd = np.exp(0.5 * lv.astype(float))
    l = layer(ctx, RegressionProbOutputLayer)
    key = jax.random.PRNGKey(ctx.integers(0, 10 ** 6))
    s = np.asarray(l.sample(m, jnp.asarray(o), rng=key)).astype(float)
    tol = dict(rtol=1e-4, atol=1e-4 * float(sd.max() + 1))
    prev = None
    for e in sorted([0.01, float(ctx.rng.uniform(0.02, 0.6)), 0.7], reverse=True):
        ci = np.asarray(l.credible_interval(jnp.asarray(o), m, error=e, rng=key))
        ctx.equal(ci.shape, (n, 2), "interval-shape")
        ctx.close(ci.T[..., None], np.quantile(s, [e / 2, 1 - e / 2], axis=0), "two-tailed", **tol)
        ctx.check(np.all(ci[:, 0] <= ci[:, 1]), "interval-ordered")
        cov = stats.norm.cdf(ci[:, 1], mu[:, 0], sd[:, 0]) - stats.norm.cdf(ci[:, 0], mu[:, 0], sd[:, 0])
        ctx.check(np.all(np.abs(cov - (1 - e)) < 7 * np.sqrt(e * (1 - e) / m) + 2 / m), "interval-mass", f"{cov} vs {1 - e}")
        if prev is not None:
            ctx.check(np.all(ci[:, 0] <= prev[:, 0]) and np.all(prev[:, 1] <= ci[:, 1]), "interval-nested")
        prev = ci
        left = l.credible_interval(jnp.asarray(o), m, error=e, interval_type="left-tailed", rng=key)
        right = l.credible_interval(jnp.asarray(o), m, error=e, interval_type="right-tailed", rng=key)
        ctx.close(np.asarray(left).reshape(-1), np.quantile(s, e, axis=0).reshape(-1), "left-tailed", **tol)
        ctx.close(np.asarray(right).reshape(-1), np.quantile(s, 1 - e, axis=0).reshape(-1), "right-tailed", **tol)
        ctx.key(ci)
    ctx.raises(ValueError, lambda: l.credible_interval(jnp.asarray(o), interval_type="both", rng=key), "unknown-interval")
    o2 = np.concatenate([o, o], -1)
    ctx.raises(ValueError, lambda: l.credible_interval(jnp.asarray(o2), rng=key), "vector-target-interval")
