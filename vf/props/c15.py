from vf.props import predrig  # noqa: F401  (sets up two devices before jax starts)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from scipy import special, stats  # noqa: E402

from fortuna.data.loader import ConcatenatedLoader  # noqa: E402,F401
from vf.core import Suite  # noqa: E402
from vf.props.predrig import Rig  # noqa: E402

suite = Suite(
    "C15",
    rule="case = (members, data, batching, devices, key); distinct = distinct multisets of posterior draws observed",
    assumptions=["posterior.sample is replaced by a known finite mixture whose draws are reported by a host callback",
                 "Monte Carlo entropies of regression are judged at 6 standard errors"],
    required={"draws": 150, "distributed": 3, "several-batches": 5},
)
TOL = dict(rtol=3e-4, atol=5e-5)


def rig(ctx, kind=None, **kw):
    kind = kind or ctx.choice(["cls", "reg"])
    return Rig(ctx, kind, ctx.choice([2, 3]) if kind == "cls" else ctx.choice([1, 2]), **kw)


def run(ctx, r, m, fn):
    res, drawn = r.observe(fn)
    r.monitor_draws(ctx, drawn, m)
    ctx.key(tuple(sorted((t, tuple(sorted(v))) for t, v in drawn.items())))
    return res, drawn


def agg(r, drawn, per, f):
    return np.array([f(v) for v in r.per_row(drawn, per)])


@suite.scenario(quick=16, thorough=600)
def densities(ctx):
    r = rig(ctx)
    pred, m = r.pm.predictive, ctx.choice([1, 2, 5])
    dl, il = r.loaders()
    kw = dict(rng=r.key, distribute=r.distribute)
    lp = r.logp()
    res, d = run(ctx, r, m, lambda: pred.log_prob(dl, n_posterior_samples=m, **kw))
    ctx.close(res, agg(r, d, lp, lambda v: special.logsumexp(v) - np.log(m)), "log-predictive", **TOL)
    res, d = run(ctx, r, m, lambda: pred.ensemble_log_prob(dl, n_posterior_samples=m, **kw))
    ctx.close(np.sort(np.asarray(res), 0), agg(r, d, lp, np.sort).T, "ensemble-log-prob", **TOL)
    ctx.equal(np.asarray(res).shape, (m, r.n), "ensemble-shape")
    res, d = run(ctx, r, m, lambda: pred.sample_calibrated_outputs(il, n_output_samples=m, **kw))
    want = r.per_row(d, r.outs)
    o = np.asarray(res)
    ctx.equal(o.shape, (m, r.n, r.outs.shape[-1]), "outputs-shape")
    order = lambda a: a[np.lexsort(a.T)]
    ctx.check(all(np.allclose(order(np.round(o[:, i].astype(float), 3)), order(np.round(w, 3)), atol=3e-3)
                  or np.allclose(np.sort(o[:, i].astype(float), 0), np.sort(w, 0), atol=1e-3)
                  for i, w in enumerate(want)), "calibrated-outputs")
    # one posterior sample is used for the whole shard: rows of an ensemble belong to one member
    for t, rows in r.shards().items():
        for s in range(m):
            dist = np.abs(o[s, rows][None] - r.outs[:, rows]).reshape(r.K, -1).max(1)
            ctx.check(dist.min() < 1e-2, "members-in-full", f"shard {t} sample {s}: distances {dist}")


@suite.scenario(quick=18, thorough=800)
def moments(ctx):
    r = rig(ctx)
    pred, m = r.pm.predictive, ctx.choice([1, 2, 5])
    dl, il = r.loaders()
    kw = dict(rng=r.key, distribute=r.distribute)
    mu, var = r.means(), r.variances()
    sc = 1 + np.abs(mu).max() ** 2
    tol = dict(rtol=3e-4, atol=2e-5 * sc)
    res, d = run(ctx, r, m, lambda: pred.mean(il, n_posterior_samples=m, **kw))
    wm = agg(r, d, mu, lambda v: v.mean(0))
    ctx.close(res, wm, "mean", **TOL)
    if r.kind == "cls":
        res, d = run(ctx, r, m, lambda: pred.mode(il, n_posterior_samples=m, **kw))
        wm = agg(r, d, mu, lambda v: v.mean(0))
        srt = np.sort(wm, -1)
        sure = srt[:, -1] - srt[:, -2] > 1e-4
        ctx.check(np.asarray(res).shape == (r.n,) and np.array_equal(np.asarray(res)[sure], wm.argmax(-1)[sure]), "mode")
        ctx.equal(pred.mode(il, means=jnp.asarray(wm)), wm.astype("float32").argmax(-1), "mode-of-given-means")
    else:
        res, d = run(ctx, r, m, lambda: pred.mode(il, n_posterior_samples=m, **kw))
        ctx.close(res, agg(r, d, mu, lambda v: v.mean(0)), "mode", **TOL)
        ctx.equal(pred.mode(il, means=jnp.asarray(wm)), wm.astype("float32"), "mode-of-given-means")
    res, d = run(ctx, r, m, lambda: pred.aleatoric_variance(il, n_posterior_samples=m, **kw))
    ctx.close(res, agg(r, d, var, lambda v: v.mean(0)), "aleatoric-variance", rtol=5e-4, atol=1e-5)
    alea = res
    res, d = run(ctx, r, m, lambda: pred.epistemic_variance(il, n_posterior_samples=m, **kw))
    ctx.close(res, agg(r, d, mu, lambda v: v.var(0)), "epistemic-variance", **tol)
    ctx.check(np.all(np.asarray(res) >= 0), "epistemic-nonnegative")
    epi = res
    res, d = run(ctx, r, m, lambda: pred.variance(il, n_posterior_samples=m, aleatoric_variances=alea, **kw))
    ctx.close(res, np.asarray(alea) + agg(r, d, mu, lambda v: v.var(0)), "total-variance", rtol=5e-4, atol=2e-5 * sc)
    res, d = run(ctx, r, m, lambda: pred.variance(il, n_posterior_samples=m, epistemic_variances=epi, **kw))
    ctx.close(res, np.asarray(epi) + agg(r, d, var, lambda v: v.mean(0)), "total-variance", rtol=5e-4, atol=2e-5 * sc)
    ctx.close(pred.variance(il, aleatoric_variances=alea, epistemic_variances=epi), np.asarray(alea) + np.asarray(epi),
              "total-variance")
    ctx.close(pred.std(il, variances=alea), np.sqrt(np.asarray(alea)), "std")


@suite.scenario(quick=6, thorough=200)
def total_variance(ctx):
    """with a single member nothing is random: the decomposition is exact"""
    r = rig(ctx, members=1)
    pred, m = r.pm.predictive, ctx.choice([1, 3])
    dl, il = r.loaders()
    kw = dict(n_posterior_samples=m, distribute=r.distribute)
    sc = 1 + np.abs(r.means()).max() ** 2
    v = pred.variance(il, **kw)
    ctx.close(v, r.variances()[0], "degenerate-variance", rtol=5e-4, atol=2e-5 * sc)
    ctx.close(pred.std(il, **kw), np.sqrt(np.asarray(v)), "std", rtol=1e-3, atol=1e-2 * np.sqrt(sc) * 1e-1)
    ctx.close(pred.mean(il, **kw), r.means()[0], "degenerate-mean", **TOL)
    ctx.close(pred.log_prob(dl, **kw), r.logp()[0], "degenerate-log-prob", **TOL)
    ctx.key(np.asarray(v))
    ctx.event("draws", m)


@suite.scenario(quick=16, thorough=600)
def entropies(ctx):
    r = rig(ctx)
    pred, m = r.pm.predictive, ctx.choice([1, 2, 5])
    dl, il = r.loaders()
    kw = dict(n_posterior_samples=m, distribute=r.distribute)
    H = lambda p: -special.xlogy(p, p).sum(-1)
    if r.kind == "cls":
        p = r.means()
        e, d = run(ctx, r, m, lambda: pred.entropy(il, rng=r.key, **kw))
        ctx.close(e, agg(r, d, p, lambda v: H(v.mean(0))), "total-entropy", **TOL)
        a, d = run(ctx, r, m, lambda: pred.aleatoric_entropy(il, rng=r.key, **kw))
        ctx.close(a, agg(r, d, p, lambda v: H(v).mean(0)), "aleatoric-entropy", **TOL)
        q, d = run(ctx, r, m, lambda: pred.epistemic_entropy(il, rng=r.key, **kw))
        ctx.close(q, agg(r, d, p, lambda v: H(v.mean(0)) - H(v).mean(0)), "epistemic-entropy", **TOL)
        ctx.check(np.all(np.asarray(q) > -1e-4), "epistemic-nonnegative", np.asarray(q))
        return
    s = 600
    mk = lambda f: run(ctx, r, m, lambda: f(il, n_target_samples=s, rng=r.key, **kw))
    e, de = mk(pred.entropy)
    a, da = mk(pred.aleatoric_entropy)
    q, dq = mk(pred.epistemic_entropy)
    sd = np.exp(r.outs[..., r.dim:] / 2)
    ha = stats.norm.entropy(0, sd).sum(-1)
    err = 6 * np.sqrt(r.dim / 2 / (m * s)) + 2e-3
    wa = agg(r, da, ha, lambda v: v.mean(0))
    ctx.check(np.asarray(a).shape == (r.n,) and np.all(np.abs(a - wa) < err), "aleatoric-entropy", f"{np.abs(a - wa).max()} {err}")
    # reference for the mixture by an independent large sample
    g = np.random.default_rng(0)

    def mix(rows_outs):
        S = len(rows_outs)
        k = g.integers(0, S, 4000)
        mu_, sd_ = rows_outs[:, :r.dim], np.exp(rows_outs[:, r.dim:] / 2)
        y = mu_[k] + sd_[k] * g.normal(size=(4000, r.dim))
        l = stats.norm.logpdf(y[:, None], mu_[None], sd_[None]).sum(-1)
        lm = special.logsumexp(l, 1) - np.log(S)
        return -lm.mean(), lm.std()

    mm = [mix(v) for v in r.per_row(de, r.outs)]
    we, sde = np.array([v[0] for v in mm]), np.array([v[1] for v in mm])
    err2 = 7 * (sde + 0.3) * (1 / np.sqrt(m * s) + 1 / np.sqrt(4000)) + 5e-3
    ctx.check(np.asarray(e).shape == (r.n,) and np.all(np.abs(e - we) < err2), "total-entropy", f"{np.abs(e - we)} {err2}")
    mq = [mix(v) for v in r.per_row(dq, r.outs)]
    wq = np.array([v[0] for v in mq]) - agg(r, dq, ha, lambda v: v.mean(0))
    ctx.check(np.asarray(q).shape == (r.n,) and np.all(np.abs(q - wq) < err2 + err), "epistemic-entropy", f"{np.abs(q - wq)} {err2}")
    if m == 1:
        ctx.check(np.all(np.abs(np.asarray(q)) < 1e-3), "no-epistemic-entropy-with-one-member")


@suite.scenario(quick=14, thorough=500)
def target_samples(ctx):
    """nearly deterministic likelihoods make every target sample identify the member it came from"""
    kind = ctx.choice(["cls", "reg"])
    r = rig(ctx, kind, scale=1.0 if kind == "reg" else 6.0, log_var_shift=-30.0)
    pred, m = r.pm.predictive, ctx.choice([1, 3, 6])
    dl, il = r.loaders()
    aux = bool(ctx.rng.random() < 0.5)
    kw = dict(rng=ctx.choice([r.key, r.key, None]), distribute=r.distribute)
    res, d = run(ctx, r, m, lambda: pred.sample(il, n_target_samples=m, return_aux=["outputs"] if aux else None, **kw))
    if aux:
        res, a = res
        ctx.check(set(a) == {"outputs"}, "sample-aux", set(a), fatal=True)
        o = np.asarray(a["outputs"], float)
        ctx.equal(o.shape, (m, r.n, r.outs.shape[-1]), "sample-aux-shape")
        w = r.per_row(d, r.outs)
        ctx.check(all(np.allclose(np.sort(o[:, i], 0), np.sort(w[i], 0), rtol=1e-3, atol=1e-3 * np.abs(r.outs).max())
                      for i in range(r.n)), "sample-aux-outputs")
    s = np.asarray(res)
    if kind == "reg":
        ctx.equal(s.shape, (m, r.n, r.dim), "sample-shape")
        w = r.per_row(d, r.means())
        ctx.check(all(np.allclose(np.sort(s[:, i], 0), np.sort(w[i], 0), atol=2e-3) for i in range(r.n)), "sample-from-members")
    else:
        ctx.equal(s.shape, (m, r.n), "sample-shape")
        p = r.means()
        for t, rows in r.shards().items():
            for i in rows:
                sure = p[:, i].max(-1) > 1 - 1e-5
                mem = d[t]
                if all(sure[k] for k in mem):
                    ctx.check(sorted(s[:, i]) == sorted(p[k, i].argmax() for k in mem), "sample-from-members")
                    ctx.event("saturated-row")
    if kw["rng"] is not None:
        again = pred.sample(il, n_target_samples=m, **kw)
        ctx.equal(again, s, "sample-reproducible")


@suite.scenario(quick=10, thorough=400)
def joint(ctx):
    r = rig(ctx, n=6, bs=6)
    pred, m, total = r.pm.predictive, ctx.choice([1, 3]), ctx.choice([6, 50])
    lj = r.logp().sum(1) * total / r.n
    res, drawn = r.observe(lambda: pred._batched_log_joint_prob((jnp.asarray(r.x), jnp.asarray(r.y)), total, m, rng=r.key))
    got = drawn.get(0, [])
    ctx.check(len(got) == m, "draw-count", got)
    ctx.event("draws", m)
    w = special.logsumexp(lj[got]) - np.log(m)
    ctx.close(res, w, "joint-predictive", rtol=3e-4, atol=2e-3)
    ens = jnp.asarray(r.raw[:m], jnp.float32)
    cp = r.sample(r.key).calib_params
    t = float(np.asarray(cp["output_calibrator"]["params"]["log_temp"])[0])
    o = r.raw[:m].copy()
    if r.kind == "cls":
        o *= np.exp(-t)
        l = special.log_softmax(o, -1)[:, np.arange(r.n), r.y]
    else:
        o[..., r.dim:] += t
        l = stats.norm.logpdf(r.y, o[..., :r.dim], np.exp(o[..., r.dim:] / 2)).sum(-1)
    w = special.logsumexp(l.sum(1) * total / r.n) - np.log(m)
    v, aux = pred._batched_log_joint_prob((jnp.asarray(r.x), jnp.asarray(r.y)), total, return_aux=["outputs"],
                                          ensemble_outputs=ens, calib_params=cp)
    ctx.close(v, w, "joint-from-outputs", rtol=3e-4, atol=2e-3)
    ctx.close(aux["outputs"], o.mean(0), "joint-aux-outputs", **TOL)
    n = pred._batched_negative_log_joint_prob((jnp.asarray(r.x), jnp.asarray(r.y)), total, return_aux=[], ensemble_outputs=ens, calib_params=cp)
    ctx.close(n, -w, "negative-joint", rtol=3e-4, atol=2e-3)
    ctx.raises(Exception, lambda: pred._batched_log_joint_prob((r.x, r.y), total, m, return_aux=["foo"], rng=r.key), "unknown-aux")
    ctx.key(tuple(got), np.asarray(res))
