import jax
import jax.numpy as jnp
import numpy as np
import optax

from fortuna.prob_model import LaplacePosteriorApproximator
from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior
from vf.core import Suite
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C25",
    rule="case = (model, data, batching, prior, frozen subset) fitted with Laplace from a saved MAP; distinct = distinct precisions",
    assumptions=["samples are whitened by the reference precision and judged with 4-sigma bounds on mean and covariance",
                 "prior tuning is judged with an independent 300-sample estimate and a slack of a quarter of the candidates' range"],
    required={"cls": 3, "reg": 3, "diagonal-prior": 3, "frozen": 3, "tuned": 2, "refit": 1},
)


def ggn(pm, kind, flat, x, y):
    """sum over the data of the diagonal of J' H J, by dense float64 algebra from Jacobians of the network outputs"""
    mm = pm.joint.likelihood.model_manager
    paths = list(flat)

    def nest(v):
        out, i = {}, 0
        for p in paths:
            d = out
            for k in p[:-1]:
                d = d.setdefault(k, {})
            n = flat[p].size
            d[p[-1]] = v[i:i + n].reshape(flat[p].shape)
            i += n
        return out

    def outputs(v, xi):
        p = nest(v)
        o = mm.model.apply(p["model"], xi[None])[0]
        if kind == "reg":
            o = jnp.concatenate([o, mm.likelihood_log_variance_model.apply(p["lik_log_var"], xi[None])[0]])
        return o

    v = jnp.asarray(R.ravel(flat, paths), jnp.float32)
    O = np.asarray(jax.vmap(lambda xi: outputs(v, xi))(x), float)
    J = np.asarray(jax.vmap(lambda xi: jax.jacrev(outputs)(v, xi))(x), float)
    h = np.zeros(len(v))
    for o, j, t in zip(O, J, y):
        if kind == "cls":
            p = np.exp(o - o.max())
            p /= p.sum()
            H = np.diag(p) - np.outer(p, p)
        else:
            m, lv = np.split(o, 2)
            r, e = t - m, np.exp(-lv)
            H = np.block([[np.diag(e), np.diag(r * e)], [np.diag(r * e), np.diag(0.5 * r * r * e)]])
        h += np.einsum("ak,ab,bk->k", j, H, j)
    out, i = {}, 0
    for p in paths:
        out[p] = h[i:i + flat[p].size].reshape(flat[p].shape)
        i += flat[p].size
    return out


def fit(ctx, tune=False, val=None, kind=None, n=None):
    kind = kind or ctx.choice(["cls", "reg"])
    dim = ctx.choice([2, 3]) if kind == "cls" else ctx.choice([1, 2])
    n = n or ctx.choice([12, 20])
    bs = ctx.choice([4, 7, n])
    x, y = T.data(ctx, kind, dim, n)
    name, fz, test = R.freeze(ctx)
    seed = ctx.integers(0, 1000)
    probe = T.flat_dict(T.make(kind, dim).joint.init((2,)).params)
    P = sum(v.size for v in probe.values())
    prior = ctx.choice(["iso", "diag"])
    lv = float(ctx.choice([-2.0, 0.0, 2.0])) if prior == "iso" else (ctx.rng.uniform(-2, 2, P)).astype(np.float32)
    pr = IsotropicGaussianPrior(lv) if prior == "iso" else DiagonalGaussianPrior(jnp.asarray(lv))
    ctx.note(kind=kind, dim=dim, n=n, batch=bs, freeze=name, prior=prior, log_var=lv if prior == "iso" else "vector")
    ctx.event(kind)
    if prior == "diag":
        ctx.event("diagonal-prior")
    if fz:
        ctx.event("frozen")
    return kind, dim, n, bs, x, y, name, fz, test, seed, prior, lv, pr


def by_path(lv, flat):
    """prior log-variance of every parameter: a vector prior follows the sorted-path order of the flattened tree"""
    if np.ndim(lv) == 0:
        return {p: np.full(v.shape, lv) for p, v in flat.items()}
    out, i = {}, 0
    for p in sorted(flat):
        out[p] = np.asarray(lv[i:i + flat[p].size], float).reshape(flat[p].shape)
        i += flat[p].size
    return out


@suite.scenario(quick=10, thorough=90)
def precision_and_samples(ctx):
    kind, dim, n, bs, x, y, name, fz, test, seed, prior, lv, pr = fit(ctx)
    with R.scratch() as d:
        kw = dict(kind=kind, dim=dim, prior=pr, seed=seed)
        pm0, mp = R.map_start(kw, T.loader((x, y), bs), d)
        pm = T.make(approx=LaplacePosteriorApproximator(tune_prior_log_variance=False), **kw)
        pm.train(T.loader((x, y), bs, shuffle=bool(ctx.integers(0, 1))),
                 fit_config=T.config(freeze_fun=fz, restore_checkpoint_path=d))
    paths = [p for p in mp if test(p)]
    rest = [p for p in mp if not test(p)]
    h, lvs = ggn(pm, kind, mp, x, y), by_path(lv, mp)
    prec = R.ravel(h, paths) + np.exp(-R.ravel(lvs, paths))
    keys, s = R.draws(pm, 1500, seed)
    ctx.check(set(s) == set(mp), "sample-has-every-parameter", str(set(s) ^ set(mp)))
    for p in rest:
        ctx.check(np.array_equal(s[p], np.broadcast_to(mp[p], s[p].shape)), "frozen-parameters-exact", str(p))
    z = (R.stack(s, paths) - R.ravel(mp, paths)) * np.sqrt(prec)
    R.standard_normal(ctx, z, "laplace-gaussian")
    # the scale of every parameter more sharply than sampling error allows: the same key gives the same noise under a shifted prior
    lv2 = -20.0
    ctx.close(R.stack(T.flat_dict(jax.tree_util.tree_map(lambda v: v[None], pm.posterior.sample(rng=keys[0], prior_log_var=lv2).params)), paths)[0],
              R.ravel(mp, paths), "vanishing-prior-variance-gives-the-map", atol=1e-3)
    noise = z[0]
    for lv2 in (-4.0, 3.0):
        one = R.stack(T.flat_dict(jax.tree_util.tree_map(lambda v: v[None], pm.posterior.sample(rng=keys[0], prior_log_var=lv2).params)), paths)[0]
        want = R.ravel(mp, paths) + noise / np.sqrt(R.ravel(h, paths) + np.exp(-lv2))
        ctx.close(one, want, "precision-is-prior-plus-ggn", rtol=5e-3, atol=5e-4)
    again = T.flat_dict(pm.posterior.sample(rng=keys[3]).params)
    ctx.check(all(np.allclose(again[p], s[p][3], atol=1e-6) for p in mp), "same-key-same-sample")
    ctx.key(prec)


@suite.scenario(quick=3, thorough=24)
def batching_does_not_matter(ctx):
    """one key, the same MAP, two batchings: same sample"""
    kind, dim, n, bs, x, y, name, fz, test, seed, prior, lv, pr = fit(ctx)
    kw = dict(kind=kind, dim=dim, prior=pr, seed=seed)
    out = []
    with R.scratch() as d:
        _, mp = R.map_start(kw, T.loader((x, y), n), d)
        for b, o in ((n, np.arange(n)), (ctx.choice([1, 3, 5]), ctx.rng.permutation(n))):
            pm = T.make(approx=LaplacePosteriorApproximator(tune_prior_log_variance=False), **kw)
            pm.train(T.loader((x[o], y[o]), b), fit_config=T.config(freeze_fun=fz, restore_checkpoint_path=d))
            out.append(T.flat_dict(pm.posterior.sample(rng=jax.random.PRNGKey(seed)).params))
    for p in out[0]:
        ctx.close(out[1][p], out[0][p], "batching-and-order-irrelevant", rtol=2e-3, atol=1e-4)
    ctx.key(R.ravel(out[0], list(out[0])))


def val_nll(pm, kind, x, y, lv, n=300):
    """minus the log of the posterior-averaged likelihood, summed over the validation points"""
    keys = jax.random.split(jax.random.PRNGKey(11), n)
    ps = jax.jit(jax.vmap(lambda k: pm.posterior.sample(rng=k, prior_log_var=lv).params))(keys)
    mm = pm.joint.likelihood.model_manager
    o = np.asarray(jax.vmap(lambda p: mm.model.apply(p["model"], x))(ps), float)
    ll = np.take_along_axis(o, y[None, :, None].repeat(n, 0), 2)[..., 0] - np.log(np.exp(o - o.max(-1, keepdims=True)).sum(-1)) - o.max(-1)
    m = ll.max(0)
    return -float((np.log(np.exp(ll - m).mean(0)) + m).sum())


@suite.scenario(quick=3, thorough=24)
def prior_tuning(ctx):
    """classification: the tuned prior variance is a candidate and (nearly) the best one on validation data, in a refit too"""
    n, dim = 24, 2
    seed = ctx.integers(0, 1000)
    ctx.event("tuned")
    prior = float(ctx.choice([-1.0, 4.0]))
    devices = ctx.choice([0, -1])
    with R.scratch() as d:
        kw = dict(kind="cls", dim=dim, prior=IsotropicGaussianPrior(prior), seed=seed)
        pm = T.make(approx=LaplacePosteriorApproximator(), **kw)
        for r in range(2):
            x = ctx.rng.normal(size=(n, 2)).astype("float32") * 2
            flip = (r + seed) % 2
            y = (x[:, 0] > 0).astype(int)
            xv = ctx.rng.normal(size=(n, 2)).astype("float32") * 2
            yv = (xv[:, 0] > 0).astype(int)
            if flip:
                yv = 1 - yv
            cfg = lambda **k: T.config(devices=devices, **k)
            pm.train(T.loader((x, y), 8), T.loader((xv, yv), 8), fit_config=cfg(),
                     map_fit_config=cfg(method=optax.adam(0.1), n_epochs=15))
            got = float(np.asarray(pm.posterior.state.get().prior_log_var).reshape(-1)[0])
            grid = list(np.linspace(-3, 3, 20)) + [prior]
            ctx.note(seed=seed, prior=prior, devices=devices, flip=flip, got=got)
            ctx.check(min(abs(got - c) for c in grid) < 1e-3, "tuned-value-is-a-candidate", f"{got}")
            # posterior samples use the tuned value
            k = jax.random.PRNGKey(1)
            a, b = T.flat_dict(pm.posterior.sample(rng=k).params), T.flat_dict(pm.posterior.sample(rng=k, prior_log_var=got).params)
            ctx.check(all(np.allclose(a[p], b[p], atol=1e-5) for p in a), "samples-use-the-tuned-variance")
            scan = {c: val_nll(pm, "cls", xv, yv, c) for c in grid[::3] + [prior]}
            mine = val_nll(pm, "cls", xv, yv, got)
            lo, hi = min(scan.values()), max(scan.values())
            ctx.check(mine <= lo + 0.25 * (hi - lo) + 0.5, "tuned-variance-is-best-on-validation-data", f"{mine:.2f} for {got:.2f}; others {({round(float(c), 2): round(v, 2) for c, v in scan.items()})}")
            ctx.key(got, mine)
            if r:
                ctx.event("refit")
