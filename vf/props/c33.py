import numpy as np
from scipy.special import logsumexp

from fortuna.ood_detection.ddu import DeepDeterministicUncertaintyOODClassifier
from fortuna.ood_detection.mahalanobis import MalahanobisOODClassifier
from vf.core import Suite

suite = Suite(
    "C33",
    rule="case = labelled training embeddings and query embeddings; distinct = distinct score vectors",
    assumptions=["each class has more examples than dimensions plus two unless the case is about degenerate classes",
                 "classes weigh the same in the density score, as documented (logsumexp of class densities)"],
    required={"mahalanobis": 40, "ddu": 40, "imbalanced": 10, "missing-class": 5, "degenerate": 4},
)


def gen(ctx, shape=None):
    K, d = ctx.choice([2, 3, 5]), ctx.choice([1, 2, 4])
    how = ctx.choice(["balanced", "imbalanced"])
    per = np.full(K, 12) if how == "balanced" else np.array([8, 30, 9, 14, 11])[:K]
    if how == "imbalanced":
        ctx.event("imbalanced")
    centres = ctx.rng.normal(size=(K, d)) * ctx.choice([0.5, 3.0, 10.0])
    y = np.repeat(np.arange(K), per)
    mix = [np.linalg.qr(ctx.rng.normal(size=(d, d)))[0] @ np.diag(ctx.rng.uniform(0.3, 2.0, d)) for _ in range(K)]
    x = np.stack([centres[c] + mix[c] @ ctx.rng.normal(size=d) for c in y])
    p = ctx.rng.permutation(len(y))
    x, y = x[p].astype(np.float32), y[p].astype(np.int32)
    q = np.concatenate([x[:5], centres, centres + ctx.rng.normal(size=(K, d)) * 5, ctx.rng.normal(size=(3, d))])[:14].astype(np.float32)
    return x, y, q, K, d, how


def maha_ref(x, y, q):
    x, q = x.astype(float), q.astype(float)
    labs = np.unique(y)
    means = np.stack([x[y == c].mean(0) for c in labs])
    cov = sum((x[y == c] - means[i]).T @ (x[y == c] - means[i]) for i, c in enumerate(labs)) / len(y)
    P = np.linalg.inv(cov)
    return np.min([np.einsum("ni,ij,nj->n", q - m, P, q - m) for m in means], 0), means, cov


def ddu_ref(x, y, q):
    x, q = x.astype(float), q.astype(float)
    lp, means = [], []
    for c in np.unique(y):
        v = x[y == c]
        m, S = v.mean(0), (v - v.mean(0)).T @ (v - v.mean(0)) / (len(v) - 1)
        means.append(m)
        _, ld = np.linalg.slogdet(S)
        r = q - m
        lp.append(-0.5 * (np.einsum("ni,ij,nj->n", r, np.linalg.inv(S), r) + ld + x.shape[1] * np.log(2 * np.pi)))
    return -logsumexp(lp, axis=0), np.stack(means)


def common(ctx, cls, K, x, y, q, s, tol):
    m = lambda xx, yy: (lambda o: (o.fit(xx, yy), o)[1])(cls(num_classes=K))
    o = m(x, y)
    ctx.close(np.concatenate([np.asarray(o.score(q[i:i + 7])) for i in range(0, len(q), 7)]), s, "scores-independent-of-batching", **tol)
    p, r = ctx.rng.permutation(len(y)), ctx.rng.permutation(len(q))
    ctx.close(np.asarray(m(x[p], y[p]).score(q)), s, "training-order-irrelevant", **tol)
    ctx.close(np.asarray(o.score(q[r])), s[r], "query-order-equivariant", **tol)
    rel = ctx.rng.permutation(K)
    ctx.close(np.asarray(m(x, rel[y].astype(np.int32)).score(q)), s, "class-names-irrelevant", **tol)
    # refitting replaces what was fitted before
    o.fit(x[: len(x) // 2] * 3 + 1, y[: len(x) // 2])
    o.fit(x, y)
    ctx.close(np.asarray(o.score(q)), s, "refit-forgets", **tol)


@suite.scenario(quick=45, thorough=1200)
def mahalanobis(ctx):
    x, y, q, K, d, how = gen(ctx)
    ctx.note(K=K, d=d, how=how)
    ctx.event("mahalanobis")
    o = MalahanobisOODClassifier(num_classes=K)
    x0, y0, q0 = x.copy(), y.copy(), q.copy()
    o.fit(x, y)
    s = np.asarray(o.score(q))
    ctx.check(all(np.array_equal(a, b) for a, b in ((x, x0), (y, y0), (q, q0))), "inputs-untouched")
    want, means, cov = maha_ref(x, y, q)
    tol = dict(rtol=5e-3, atol=5e-3)
    ctx.equal(s.shape, (len(q),), "one-score-per-query")
    ctx.close(s, want, "mahalanobis-definition", **tol)
    ctx.close(np.asarray(o.mean), means, "class-means", rtol=1e-3, atol=1e-3)
    ctx.close(np.asarray(o.cov), cov, "shared-covariance", rtol=2e-3, atol=2e-3)
    ctx.check(np.all(s >= -1e-3), "distance-non-negative")
    at = np.asarray(o.score(means.astype(np.float32)))
    far = np.asarray(o.score((means + 100 * np.sqrt(np.diag(cov)).max()).astype(np.float32)))
    ctx.check(np.all(at < 1e-2) and far.min() > at.max(), "far-scores-higher", f"{at} {far}")
    common(ctx, MalahanobisOODClassifier, K, x, y, q, s, tol)
    ctx.key(np.round(s, 3))


@suite.scenario(quick=45, thorough=1200)
def density(ctx):
    x, y, q, K, d, how = gen(ctx)
    ctx.note(K=K, d=d, how=how)
    ctx.event("ddu")
    o = DeepDeterministicUncertaintyOODClassifier(num_classes=K)
    x0, y0, q0 = x.copy(), y.copy(), q.copy()
    o.fit(x, y)
    s = np.asarray(o.score(q))
    ctx.check(all(np.array_equal(a, b) for a, b in ((x, x0), (y, y0), (q, q0))), "inputs-untouched")
    want, means = ddu_ref(x, y, q)
    tol = dict(rtol=2e-2, atol=2e-2)
    ctx.equal(s.shape, (len(q),), "one-score-per-query")
    ctx.close(s, want, "density-definition", **tol)
    at = np.asarray(o.score(means.astype(np.float32)))
    far = np.asarray(o.score((means + 200 * x.std(0).max()).astype(np.float32)))
    ctx.check(far.min() > at.max(), "far-scores-higher", f"{at} {far}")
    common(ctx, DeepDeterministicUncertaintyOODClassifier, K, x, y, q, s, tol)
    ctx.key(np.round(s, 2))


@suite.scenario(quick=8, thorough=150)
def class_absent_from_training(ctx):
    """fewer labels than announced: a warning is logged and the score is the one of the classes that are there"""
    x, y, q, K, d, how = gen(ctx)
    drop = ctx.integers(0, K - 1)
    x, y = x[y != drop], y[y != drop]
    ctx.note(K=K, d=d, drop=drop)
    ctx.event("missing-class")
    o = MalahanobisOODClassifier(num_classes=K)
    o.fit(x, y)
    ctx.close(np.asarray(o.score(q)), maha_ref(x, y, q)[0], "absent-class-is-ignored", rtol=5e-3, atol=5e-3)
    ctx.key(x[:2])


@suite.scenario(quick=8, thorough=150)
def degenerate_covariance(ctx):
    """embeddings on a line / repeated: scores stay finite, and queries on the support score no higher than queries off it"""
    d, n = 3, 10
    cls = ctx.choice([MalahanobisOODClassifier, DeepDeterministicUncertaintyOODClassifier])
    ctx.event("degenerate")
    u = np.eye(3)[ctx.integers(0, 2)]
    t = ctx.rng.normal(size=2 * n)
    y = np.repeat([0, 1], n).astype(np.int32)
    x = (t[:, None] * u + np.where(y[:, None] == 1, 8 * u, 0)).astype(np.float32)
    o = cls(num_classes=2)
    o.fit(x, y)
    on, off = np.asarray(o.score(x)), np.asarray(o.score((x + 500 * u).astype(np.float32)))
    ctx.note(cls=cls.__name__)
    ctx.check(np.all(np.isfinite(on)) and np.all(np.isfinite(off)), "finite-scores-when-singular", f"{on} {off}")
    ctx.check(off.min() > on.max(), "far-scores-higher", f"{on} {off}")
    ctx.key(x[:2])


@suite.scenario(quick=4, thorough=10)
def not_fitted(ctx):
    cls = ctx.choice([MalahanobisOODClassifier, DeepDeterministicUncertaintyOODClassifier])
    ctx.raises((ValueError, AttributeError), lambda: cls(num_classes=2).score(np.zeros((2, 2), np.float32)), "score-before-fit-rejected")
    ctx.key(cls.__name__, ctx.rng.integers(1 << 30))
