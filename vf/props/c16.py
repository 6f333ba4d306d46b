from vf.props import predrig  # noqa: F401

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from scipy import special, stats  # noqa: E402

from vf.core import Suite  # noqa: E402
from vf.props.predrig import Rig  # noqa: E402

suite = Suite(
    "C16",
    rule="case = (members, data, batching, error, key); distinct = distinct sets and intervals",
    assumptions=["posterior.sample is replaced by a known finite mixture whose draws are reported by a host callback",
                 "float32 cumulative masses: sets are compared away from the level by 2e-5",
                 "quantiles are judged through the mixture's distribution function at 7 standard errors"],
    required={"draws": 100, "several-batches": 5, "tight": 3},
)


@suite.scenario(quick=22, thorough=1500)
def credible_sets(ctx):
    dim = ctx.choice([2, 3, 5])
    r = Rig(ctx, "cls", dim, scale=ctx.choice([0.3, 1.0, 3.0]))
    il = r.loaders()[1]
    m = ctx.choice([1, 4])
    errs = [float(ctx.choice([0.0, 1e-9, 1e-4])), float(ctx.rng.uniform(0.01, 0.5)), float(ctx.choice([0.05, 0.9, 0.999]))]
    if errs[0] < 1e-7:
        ctx.event("tight")
    ctx.note(errors=errs)
    sizes = []
    # the draws depend on the key only: nesting is observable because all calls share it
    for e in sorted(errs):
        res, d = r.observe(lambda: r.pm.predictive.credible_set(il, n_posterior_samples=m, error=e, rng=r.key,
                                                                 distribute=r.distribute))
        r.monitor_draws(ctx, d, m)
        p = np.array([v.mean(0) for v in r.per_row(d, r.means())])
        ctx.check(len(res) == r.n, "one-set-per-row")
        for i, s in enumerate(res):
            s = list(s)
            ctx.check(1 <= len(s) <= dim and len(set(s)) == len(s) and set(s) <= set(range(dim)), "set-of-classes", s)
            ps = p[i][s]
            ctx.check(np.all(np.diff(ps) <= 1e-5), "most-probable-first", f"{s} with {ps}")
            out = [p[i][c] for c in range(dim) if c not in s]
            ctx.check(not out or max(out) <= ps.min() + 1e-5, "contains-most-probable", f"{s} of {p[i]}")
            ctx.check(ps.sum() >= 1 - e - 2e-5 or len(s) == dim, "mass-reached", f"{s}: {ps.sum()} < {1 - e}", error=e)
            ctx.check(len(s) == 1 or ps[:-1].sum() <= 1 - e + 2e-5, "smallest-prefix", f"{s}: {ps}", error=e)
            if e == 0.0 or e < 1e-8:
                ctx.check(len(s) == dim or ps.sum() > 1 - 1e-5, "no-error-no-exclusion", f"{s}: {ps}")
        sizes.append([len(s) for s in res])
        ctx.key(str([list(s) for s in res]))
    ctx.check(all(a >= b for u, v in zip(sizes, sizes[1:]) for a, b in zip(u, v)), "sets-nest", sizes)
    again = r.pm.predictive.credible_set(il, n_posterior_samples=m, error=e, rng=r.key, distribute=r.distribute)
    ctx.check([list(a) for a in again] == [list(a) for a in res], "reproducible")


@suite.scenario(quick=12, thorough=600)
def bayesian_conformal_sets(ctx):
    """add-one-in importance sampling over the observed members"""
    dim = ctx.choice([2, 3])
    r = Rig(ctx, "cls", dim, n_dev_ok=False, scale=ctx.choice([0.5, 1.5]))
    dl, il = r.loaders()
    r.y[:dim] = np.arange(dim) if r.n >= dim else r.y[:dim]
    if len(np.unique(r.y)) < dim:
        ctx.check(True, "not-all-labels")
        return
    m, e = ctx.choice([3, 8]), float(ctx.choice([0.0, 0.05, 0.2, 0.5, 0.8]))
    ctx.note(error=e, posterior_samples=m)
    ess = bool(ctx.rng.random() < 0.4)
    res, d = r.observe(lambda: r.pm.predictive.conformal_set(dl, il, n_posterior_samples=m, error=e, rng=r.key,
                                                              distribute=False, return_ess=ess))
    if ess:
        res, ES = res
    draws = {tuple(sorted(v[j:j + m])) for v in d.values() for j in range(0, len(v), m)}
    ctx.check(len(draws) == 1 and len(next(iter(draws))) == m, "one-ensemble-for-train-and-test", str(d)[:300], fatal=True)
    ctx.event("draws", m)
    k = list(next(iter(draws)))
    L = special.log_softmax(r.outs, -1)[k]  # (m, n, classes)
    train = np.exp(L[:, np.arange(r.n), r.y])  # (m, n)
    ctx.check(len(res) == r.n, "one-set-per-row")
    for i in range(r.n):
        s = set(res[i])
        ctx.check(len(s) == len(res[i]), "set-of-classes", res[i])
        for c in range(dim):
            w = np.exp(L[:, i, c])
            pt = (w / w.sum()) @ train
            own = (w ** 2).sum() / w.sum()
            lo = np.sum(pt <= own * (1 - 1e-4)) + 1
            hi = np.sum(pt <= own * (1 + 1e-4)) + 1
            t = e * (r.n + 1)
            if lo > t + 1e-3:
                ctx.check(c in s, "conformal-includes", f"row {i} class {c} rank {lo} > {t}")
            elif hi < t - 1e-3:
                ctx.check(c not in s, "conformal-excludes", f"row {i} class {c} rank {hi} <= {t}")
            if ess:
                want = w.sum() ** 2 / (w ** 2).sum()
                ctx.close(np.asarray(ES)[i].reshape(-1)[c], want, "importance-ess", rtol=1e-3)
    ctx.key(str([sorted(v) for v in res]))


def cdf(r, members, i, v):
    mu, sd = r.outs[members, i, :r.dim], np.exp(r.outs[members, i, r.dim:] / 2)
    return stats.norm.cdf(v, mu, sd).mean(0)


@suite.scenario(quick=10, thorough=700)
def quantiles(ctx):
    r = Rig(ctx, "reg", ctx.choice([1, 2]))
    il = r.loaders()[1]
    m = 1000
    key = r.key
    qs = sorted(float(v) for v in ctx.rng.uniform(0.02, 0.98, size=3))
    arg = ctx.choice([list(qs), jnp.array(qs), np.array(qs)])
    res, d = r.observe(lambda: r.pm.predictive.quantile(arg, il, n_target_samples=m, rng=key, distribute=r.distribute))
    r.monitor_draws(ctx, d, m)
    q = np.asarray(res)
    ctx.equal(q.shape, (3, r.n, r.dim), "quantile-shape")
    ctx.check(np.all(np.diff(q, axis=0) >= 0), "quantiles-monotone")
    tol = lambda p: 7 * np.sqrt(p * (1 - p) / m) + 2 / m
    for t, rows in r.shards().items():
        for i in rows:
            for j, p in enumerate(qs):
                f = cdf(r, d[t], i, q[j, i])
                ctx.check(np.all(np.abs(f - p) < tol(p)), "quantile-level", f"row {i}: F(q)={f} want {p}")
    ctx.key(q)
    one = r.pm.predictive.quantile(qs[1], il, n_target_samples=m, rng=key, distribute=r.distribute)
    ctx.close(one, q[1], "quantile-alone", rtol=1e-4, atol=1e-4)


@suite.scenario(quick=10, thorough=700)
def intervals(ctx):
    r = Rig(ctx, "reg", 1)
    il = r.loaders()[1]
    m = 1000
    f = lambda **k: r.pm.predictive.credible_interval(il, n_target_samples=m, rng=r.key, distribute=r.distribute, **k)
    tol = lambda p: 7 * np.sqrt(p * (1 - p) / m) + 2 / m
    prev = None
    for e in (0.8, float(ctx.rng.uniform(0.05, 0.5)), 0.02):
        res, d = r.observe(lambda: f(error=e))
        r.monitor_draws(ctx, d, m)
        ci = np.asarray(res)
        ctx.equal(ci.shape, (r.n, 2), "interval-shape")
        ctx.check(np.all(ci[:, 0] <= ci[:, 1]), "interval-ordered")
        for t, rows in r.shards().items():
            for i in rows:
                lo, up = cdf(r, d[t], i, ci[i, 0]), cdf(r, d[t], i, ci[i, 1])
                ctx.check(abs(lo - e / 2) < tol(e / 2) and abs(up - 1 + e / 2) < tol(e / 2), "tail-mass",
                          f"row {i} error {e}: {lo} {up}")
        if prev is not None:
            ctx.check(np.all(ci[:, 0] <= prev[:, 0]) and np.all(ci[:, 1] >= prev[:, 1]), "intervals-nest")
        prev = ci
        ctx.key(ci)
    for kind, level in (("left-tailed", e), ("right-tailed", 1 - e)):
        res, d = r.observe(lambda: f(error=e, interval_type=kind))
        v = np.asarray(res).reshape(-1)
        ctx.check(len(v) == r.n, "one-tailed-shape")
        for t, rows in r.shards().items():
            for i in rows:
                g = cdf(r, d[t], i, v[i])
                ctx.check(np.all(np.abs(g - level) < tol(level)), kind, f"row {i}: {g} want {level}")
    ctx.raises(ValueError, lambda: f(interval_type="middle"), "unknown-interval")
    ctx.equal(f(error=0.3), f(error=0.3), "reproducible")
    r2 = Rig(ctx, "reg", 2, n=2, bs=2)
    ctx.raises(ValueError, lambda: r2.pm.predictive.credible_interval(r2.loaders()[1], n_target_samples=5, rng=r.key,
                                                                      distribute=False), "vector-target-interval")
