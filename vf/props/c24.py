import jax
import jax.numpy as jnp
import numpy as np
import optax

from fortuna.prob_model import SWAGPosteriorApproximator
from vf.core import Suite
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C24",
    rule="case = (model, data, rank, epochs, batches, frozen subset) trained with SWAG from a saved MAP; distinct = distinct moments",
    assumptions=["every step moves the running moments towards the current parameters with weight one over the number of the epoch "
                 "(from one), which is the plain average when an epoch is one step",
                 "covariances of samples are judged with 4-sigma bounds over 12000 draws"],
    required={"one-batch": 2, "many-batches": 2, "frozen": 2, "mutable": 2, "rejected": 2},
)


def moments(log, rank, trainable):
    """running moments and deviations of the recorded trajectory, float64, by path"""
    epoch, mean, sq, dev = -1, None, None, []
    for e, _, p in log:
        if e == "start":
            epoch += 1
        elif e == "step":
            v = {k: a.astype(float) for k, a in T.flat_dict(p).items() if k in trainable}
            if mean is None:
                mean, sq = dict(v), {k: a ** 2 for k, a in v.items()}
                continue
            mean = {k: (epoch * mean[k] + v[k]) / (epoch + 1) for k in v}
            sq = {k: (epoch * sq[k] + v[k] ** 2) / (epoch + 1) for k in v}
            dev.append({k: v[k] - mean[k] for k in v})
    return mean, {k: np.sqrt(np.maximum(sq[k] - mean[k] ** 2, 0)) for k in mean}, dev[-rank:]


def setup(ctx, model=None):
    kind = ctx.choice(["cls", "reg"]) if model is None else "cls"
    dim = 2 if kind == "cls" else 1
    n = 12
    bs = ctx.choice([12, 12, 5, 4])
    rank = ctx.choice([2, 3, 5])
    epochs = rank + ctx.choice([1, 2, 4])
    name, fz, test = R.freeze(ctx) if model is None else ("none", None, lambda p: True)
    x, y = T.data(ctx, kind, dim, n)
    ctx.note(kind=kind, batch=bs, rank=rank, epochs=epochs, freeze=name)
    ctx.event("one-batch" if bs == 12 else "many-batches")
    if fz:
        ctx.event("frozen")
    return kind, dim, x, y, bs, rank, epochs, fz, test, ctx.integers(0, 1000)


@suite.scenario(quick=10, thorough=120)
def trajectory_moments(ctx):
    kind, dim, x, y, bs, rank, epochs, fz, test, seed = setup(ctx)
    jit = ctx.rng.random() < 0.8
    acc, clip = ctx.choice([None, 2]) if bs < 12 else None, ctx.choice([None, 1.0])
    ctx.note(jit=jit, accumulation=acc, max_grad_norm=clip)
    kw = dict(kind=kind, dim=dim, seed=seed)
    rec = T.Recorder()
    with R.scratch() as d:
        _, mp = R.map_start(kw, T.loader((x, y), bs), d)
        pm = T.make(approx=SWAGPosteriorApproximator(rank=rank), **kw)
        pm.train(T.loader((x, y), bs), fit_config=T.config(method=optax.adam(0.1), n_epochs=epochs, freeze_fun=fz, callbacks=[rec], accumulation=acc, max_grad_norm=clip,
                                                           restore_checkpoint_path=d, disable_jit=not jit))
    paths = [p for p in mp if test(p)]
    mean, std, dev = moments(rec.log, rank, set(paths))
    last = T.flat_dict([p for e, _, p in rec.log if e == "step"][-1])
    ctx.check(set(mean) == set(paths), "every-trainable-parameter-recorded")
    m, s = R.ravel(mean, paths), R.ravel(std, paths)
    D = np.stack([R.ravel(v, paths) for v in dev], 1)
    st = pm.posterior.state.get()
    ctx.equal(np.asarray(st.dev).shape[1], min(rank, len(dev)), "rank-as-configured")
    # the stored moments, as multisets: their layout is internal
    srt = lambda v: np.sort(np.asarray(v, float))
    ctx.close(srt(st.mean), srt(m), "stored-mean", rtol=1e-3, atol=1e-4)
    ctx.close(srt(st.std), srt(s), "stored-standard-deviation", rtol=5e-3, atol=3e-3)
    ctx.close(np.linalg.norm(np.asarray(st.dev, float), axis=0), np.linalg.norm(D, axis=0), "stored-deviations", rtol=2e-3, atol=1e-3)
    fin = T.flat_dict(T.host(st.params))
    ctx.check(set(fin) == set(mp) and all(np.allclose(fin[p], last[p], atol=1e-6) for p in paths), "state-holds-the-last-parameters")
    keys, out = R.draws(pm, 12000, seed)
    ctx.check(set(out) == set(mp), "sample-has-every-parameter")
    for p in mp:
        if not test(p):
            ctx.check(np.array_equal(out[p], np.broadcast_to(mp[p], out[p].shape)), "frozen-parameters-exact", str(p))
    X = R.stack(out, paths)
    C = np.diag(s ** 2) / 2 + D @ D.T / (2 * D.shape[1])
    w, U = np.linalg.eigh(C)
    ok = w > 1e-5
    ctx.check(ok.sum() >= 2, "trajectory-spread")
    R.standard_normal(ctx, (X - m) @ U[:, ok] / np.sqrt(w[ok]), "swag-gaussian")
    again = T.flat_dict(pm.posterior.sample(rng=keys[3]).params)
    ctx.check(all(np.allclose(again[p], out[p][3], atol=1e-5) for p in mp), "same-key-same-sample")
    fin2 = T.flat_dict(T.host(pm.posterior.state.get().params))
    ctx.check(all(np.array_equal(fin[p], fin2[p]) for p in fin), "sampling-leaves-the-state")
    ctx.key(m, s)


@suite.scenario(quick=3, thorough=25)
def mutable_state(ctx):
    """batch statistics of a sample are re-estimated on the given inputs with the sampled parameters"""
    net = T.Net(2)
    kind, dim, x, y, bs, rank, epochs, fz, test, seed = setup(ctx, net)
    ctx.event("mutable")
    kw = dict(kind="cls", dim=2, seed=seed, model=net)
    with R.scratch() as d:
        _, mp = R.map_start(kw, T.loader((x, y), bs), d)
        pm = T.make(approx=SWAGPosteriorApproximator(rank=rank), **kw)
        pm.train(T.loader((x, y), bs), fit_config=T.config(method=optax.adam(0.1), n_epochs=epochs, restore_checkpoint_path=d))
    before = T.flat_dict(T.host(pm.posterior.state.get().mutable))
    ctx.raises(ValueError, lambda: pm.posterior.sample(rng=jax.random.PRNGKey(0)), "mutable-state-needs-inputs")
    key = jax.random.PRNGKey(seed)
    batches = [x[:5], x[5:9], x[9:]]
    how = ctx.choice(["inputs", "loader"])
    from fortuna.data.loader import InputsLoader
    smp = pm.posterior.sample(rng=key, **(dict(inputs=x[:5]) if how == "inputs" else dict(inputs_loader=InputsLoader.from_iterable(batches))))
    mut = pm.posterior.state.get().mutable["model"]
    for b in batches[:1] if how == "inputs" else batches:
        _, mut = net.apply({**smp.params["model"], **mut}, b, train=True, mutable=["batch_stats"])
    got, want = T.flat_dict(T.host(smp.mutable["model"])), T.flat_dict(T.host(mut))
    ctx.check(set(got) == set(want) and len(got) > 0, "mutable-structure")
    for p in want:
        ctx.close(got[p], want[p], "batch-statistics-follow-the-sample:" + how, rtol=1e-3, atol=1e-4)
    after = T.flat_dict(T.host(pm.posterior.state.get().mutable))
    ctx.check(all(np.array_equal(before[p], after[p]) for p in before), "sampling-leaves-the-state")
    other = pm.posterior.sample(rng=key, inputs=x[:5])
    ctx.check(all(np.allclose(a, b) for a, b in zip(T.leaves(other.params), T.leaves(smp.params))), "parameters-do-not-depend-on-inputs")
    ctx.key(R.ravel(got, list(got)))


@suite.scenario(quick=3, thorough=12)
def budgets_rejected(ctx):
    x, y = T.data(ctx, "cls", 2, 8)
    bad = ctx.choice(["rank", "epochs", "start"])
    ctx.note(bad=bad)
    ctx.event("rejected")
    pm = T.make("cls", 2, SWAGPosteriorApproximator(rank=1 if bad == "rank" else 3))
    ctx.raises(ValueError, lambda: pm.train(T.loader((x, y), 8), fit_config=T.config(n_epochs=3 if bad == "epochs" else 5),
                                            map_fit_config=None if bad == "start" else T.config()), "insufficient-budget-rejected")
    ctx.key(bad, x)
