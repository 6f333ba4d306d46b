import jax
import jax.numpy as jnp
import numpy as np
import optax
from scipy import stats

from fortuna.distribution.gaussian import DiagGaussian
from fortuna.prob_model import ADVIPosteriorApproximator
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_architecture import ADVIArchitecture
from vf.core import Suite
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C26",
    rule="case = a flow and points, or (model, data, frozen subset, hyper-parameters) fitted with ADVI; distinct = distinct parameters and samples",
    assumptions=["samples are whitened by the stored mean and scale and judged with 4-sigma bounds",
                 "the objective is compared with an independent Monte Carlo estimate within 5 standard errors"],
    required={"flow": 20, "fitted": 5, "frozen": 2, "objective": 3, "map-start": 3},
)


@suite.scenario(quick=30, thorough=600)
def flow(ctx):
    d, n = ctx.choice([1, 3, 6]), ctx.choice([1, 5])
    std0 = float(ctx.choice([0.01, 0.1, 1.0]))
    a = ADVIArchitecture(d, std_init_params=std0)
    p = {"mean": jnp.asarray(ctx.rng.normal(size=d) * 3, jnp.float32), "log_std": jnp.asarray(ctx.rng.normal(size=d), jnp.float32)}
    ctx.note(d=d, n=n)
    ctx.event("flow")
    u = jnp.asarray(ctx.rng.normal(size=(n, d)), jnp.float32)
    v, ldj = a.forward(p, u)
    w, inv = a.backward(p, v)
    ctx.equal(np.asarray(v).shape, (n, d), "shape")
    ctx.equal(np.asarray(ldj).shape, (n,), "one-log-determinant-per-point")
    ctx.close(np.asarray(v), np.asarray(p["mean"]) + np.exp(np.asarray(p["log_std"], float)) * np.asarray(u), "affine-transformation", rtol=1e-4, atol=1e-4)
    ctx.close(np.asarray(w), np.asarray(u), "backward-inverts-forward", rtol=1e-3, atol=1e-3)
    f2, l2 = a.forward(p, a.backward(p, u)[0])
    ctx.close(np.asarray(f2), np.asarray(u), "forward-inverts-backward", rtol=1e-3, atol=1e-3)
    ctx.close(np.asarray(inv), -np.asarray(ldj), "log-determinants-opposite", rtol=1e-4, atol=1e-4)
    J = np.asarray(jax.jacrev(lambda t: a.forward(p, t[None])[0][0])(u[0]), float)
    ctx.close(np.asarray(ldj), np.full(n, np.linalg.slogdet(J)[1]), "exact-log-determinant", rtol=1e-3, atol=1e-3)
    # change of variables
    lb = -1.2
    base = DiagGaussian(mean=jnp.zeros(d), std=jnp.exp(lb) * jnp.ones(d))
    lq = np.asarray(base.log_joint_prob(w) + inv)
    want = stats.norm.logpdf(np.asarray(v, float), np.asarray(p["mean"], float), np.exp(np.asarray(p["log_std"], float) + lb)).sum(-1)
    ctx.close(lq, want, "density-by-change-of-variables", rtol=2e-3, atol=2e-2)
    q = a.init_params(jax.random.PRNGKey(ctx.integers(0, 1000)))
    ctx.check(q["mean"].shape == (d,) and q["log_std"].shape == (d,) and bool(jnp.any(q["mean"] != q["log_std"])), "initial-parameters")
    ctx.check(float(jnp.abs(q["mean"]).max()) < 6 * std0, "initial-parameters-scale")
    given = a.init_params(jax.random.PRNGKey(0), mean=p["mean"])
    ctx.equal(np.asarray(given["mean"]), np.asarray(p["mean"]), "given-mean-kept")
    ctx.equal(np.asarray(a.init_params(jax.random.PRNGKey(0), log_std=p["log_std"])["log_std"]), np.asarray(p["log_std"]), "given-scale-kept")
    ctx.key(np.asarray(v))


def split_state(params, trainable):
    """mean and log-std by original path from the stored parameters (paths carry the labels `mean` / `log_std`)"""
    mean, ls = {}, {}
    for p, v in T.flat_dict(T.host(params)).items():
        if "mean" in p:
            mean[tuple(k for k in p if k != "mean")] = v
        elif "log_std" in p:
            ls[tuple(k for k in p if k != "log_std")] = v
        else:
            mean[p] = v
    return mean, ls


def case(ctx):
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    n, bs = 12, ctx.choice([12, 5])
    x, y = T.data(ctx, kind, dim, n)
    name, fz, test = R.freeze(ctx)
    ctx.note(kind=kind, batch=bs, freeze=name)
    if fz:
        ctx.event("frozen")
    return kind, dim, n, bs, x, y, name, fz, test, ctx.integers(0, 1000)


@suite.scenario(quick=9, thorough=110)
def samples_follow_the_stored_gaussian(ctx):
    kind, dim, n, bs, x, y, name, fz, test, seed = case(ctx)
    lb, s0 = float(ctx.choice([-2.3, 0.0, -4.0])), float(ctx.choice([0.1, 0.5]))
    start = ctx.choice(["map", "random"])
    epochs = ctx.choice([1, 3])
    jit = ctx.rng.random() < 0.8
    ctx.note(log_std_base=lb, start=start, epochs=epochs, jit=jit)
    ctx.event("fitted")
    kw = dict(kind=kind, dim=dim, seed=seed)
    pm = T.make(approx=ADVIPosteriorApproximator(std_init_params=s0, log_std_base=lb, n_loss_samples=ctx.choice([1, 3])), **kw)
    with R.scratch() as d:
        mp = None
        if start == "map":
            _, mp = R.map_start(kw, T.loader((x, y), bs), d)
        still = start == "map" and ctx.rng.random() < 0.6
        pm.train(T.loader((x, y), bs), fit_config=T.config(method=optax.sgd(0.0) if still else optax.adam(0.05), n_epochs=epochs, freeze_fun=fz,
                                                           disable_jit=not jit, restore_checkpoint_path=d if mp else None))
    mean, ls = split_state(pm.posterior.state.get().params, test)
    paths = [p for p in mean if test(p)]
    ctx.check(set(ls) == set(paths), "scale-for-exactly-the-trainable-parameters", str(set(ls) ^ set(paths)))
    if mp is not None:
        ctx.event("map-start")
        ctx.check(set(mean) == set(mp), "mean-for-every-parameter")
        for p in mp:
            if still or not test(p):
                ctx.check(np.allclose(mean[p], mp[p], atol=1e-6), "starts-at-the-map" if test(p) else "frozen-parameters-exact", f"{p}: {mean[p]} vs {mp[p]}")
    keys, out = R.draws(pm, 3000, seed)
    ctx.check(set(out) == set(mean), "sample-has-every-parameter")
    for p in mean:
        if not test(p):
            ctx.check(np.array_equal(out[p], np.broadcast_to(mean[p], out[p].shape)), "frozen-parameters-exact:sample", str(p))
    z = (R.stack(out, paths) - R.ravel(mean, paths)) / np.exp(R.ravel(ls, paths) + lb)
    R.standard_normal(ctx, z, "advi-gaussian")
    again = T.flat_dict(pm.posterior.sample(rng=keys[3]).params)
    ctx.check(all(np.allclose(again[p], out[p][3], atol=1e-5) for p in mean), "same-key-same-sample")
    ctx.key(R.ravel(mean, paths))


@suite.scenario(quick=4, thorough=45)
def objective(ctx):
    """with a zero learning rate the reported loss is a Monte Carlo estimate of E_q[-log joint] - log|det|"""
    kind, dim, n, bs, x, y, name, fz, test, seed = case(ctx)
    bs = 12
    ctx.event("objective")
    lb = float(ctx.choice([-2.3, -0.7]))
    S, E = 64, 6
    kw = dict(kind=kind, dim=dim, seed=seed)
    pm = T.make(approx=ADVIPosteriorApproximator(log_std_base=lb, std_init_params=0.4, n_loss_samples=S), **kw)
    st = pm.train(T.loader((x, y), bs), T.loader((x, y), bs), fit_config=T.config(method=optax.sgd(0.0), n_epochs=E, freeze_fun=fz))
    hist = np.asarray(st["fit_status"]["advi"]["loss"], float)
    val = np.asarray(st["fit_status"]["advi"]["val_loss"], float)
    _, ls = split_state(pm.posterior.state.get().params, test)
    ldj = sum(float(v.sum()) for v in ls.values())
    _, out = R.draws(pm, 4000, seed + 1)
    loss = T.reference_loss(pm, kind)
    import flax

    def one(flat):
        return loss(flax.core.FrozenDict(flax.traverse_util.unflatten_dict(flat)), x, y, n)[0]

    L = np.asarray(jax.vmap(one)(out), float)
    want, se = L.mean() - ldj, L.std() / np.sqrt(S * E)
    ctx.equal(hist.shape, (E,), "one-loss-per-epoch")
    ctx.check(abs(hist.mean() - want) < 5 * se + 1e-3 * abs(want), "objective-is-the-negative-elbo", f"{hist} vs {want:.3f} +- {se:.3f}")
    ctx.check(abs(val.mean() - want) < 5 * se * np.sqrt(E) + 1e-3 * abs(want), "validation-objective", f"{val} vs {want:.3f}")
    ctx.check(np.unique(hist).size > 1, "fresh-samples-every-step")
    ctx.key(hist)
