from vf.props import trainrig as T  # before jax
import shutil
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.prob_model import ADVIPosteriorApproximator, DeepEnsemblePosteriorApproximator, MAPPosteriorApproximator, SWAGPosteriorApproximator
from fortuna.utils.training import clip_grandients_by_norm, clip_grandients_by_value
from vf.core import Suite

suite = Suite(
    "C22",
    rule="case = (model, data, batch size, accumulation length, gradient norm bound, optimizer, epochs); "
         "distinct = distinct parameter trajectories",
    assumptions=["float32 arithmetic", "training on one CPU device (with and without jit) and on two emulated ones"],
    required={"accumulated": 3, "clipped": 3, "window-crosses-epoch": 1, "data-parallel": 1, "continued": 4, "gradients-left-over": 4, "approximation:map": 1, "approximation:advi": 1, "approximation:swag": 1, "approximation:ensemble": 2},
)


def norm(t):
    return float(np.sqrt(sum((np.asarray(v, float) ** 2).sum() for v in T.leaves(t))))


@suite.scenario(quick=18, thorough=300)
def updates(ctx):
    run(ctx, False)


@suite.scenario(quick=5, thorough=80)
def parallel_updates(ctx):
    """the data-parallel trainer on two emulated devices computes the same"""
    T.use_devices(2)
    try:
        run(ctx, True)
        ctx.event("data-parallel")
    finally:
        T.use_devices(1)


APPROX = {"map": lambda: MAPPosteriorApproximator(), "advi": lambda: ADVIPosteriorApproximator(), "swag": lambda: SWAGPosteriorApproximator(rank=2),
          "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2)}


@suite.scenario(quick=8, thorough=80)
def approximations(ctx):
    """whatever is trained by gradients, every applied gradient is the average of one window, cut to the largest norm"""
    name, acc = list(APPROX)[ctx.i % 4], [None, 2, 3][ctx.i % 3]
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    clip = ctx.choice([0.02, 0.05])  # far below the norm of any gradient here
    x, y = T.data(ctx, kind, dim, 20)
    rec = T.Recorder()
    pm = T.make(kind, dim, approx=APPROX[name](), seed=ctx.integers(0, 1000))
    ctx.note(approximation=name, kind=kind, accumulation=acc, max_grad_norm=clip)
    extra = dict(map_fit_config=T.config(optax.sgd(1e-3), 1)) if name == "swag" else {}
    pm.train(T.loader((x, y), 4), fit_config=T.config(optax.sgd(1.0), 4, max_grad_norm=clip, accumulation=acc, callbacks=[rec]), **extra)
    vec = lambda p: np.concatenate([np.ravel(np.asarray(v, float)) for v in T.leaves(p)])
    runs = []
    for e, t, p in rec.log:
        if e == "start" and (not runs or t < runs[-1][-1][0]):
            runs.append([(t, vec(p))])
        elif e == "step":
            runs[-1].append((t, vec(p)))
    ctx.equal(len(runs), 2 if name == "ensemble" else 1, "one-run-per-member")
    k = acc or 1
    for r in runs:
        ctx.equal([t - r[0][0] for t, _ in r[1:]], list(range(k, 21, k)), "one-step-per-window", name)
        for (_, a), (t, b) in zip(r, r[1:]):
            ctx.close(np.linalg.norm(b - a), clip, "applied-gradient-norm", f"{name}, step {t}", rtol=1e-3)
        ctx.event("approximation:" + name)
    ctx.key(name, *[v for _, v in runs[0]])


BEFORE = [("current", 2), ("saved", 3), ("frozen", 4), ("longer", 3)]


@suite.scenario(quick=5, thorough=80)
def continued_updates(ctx):
    """a run that continues from a state in the middle of a window of another run starts its own windows"""
    how, acc = BEFORE[ctx.i % 4]
    multi = ctx.i % 5 == 4
    T.use_devices(2 if multi else 1)
    try:
        run(ctx, multi, how, acc)
    finally:
        T.use_devices(1)


def before(ctx, pm, kind, dim, how, acc):
    """train on a number of batches that is no multiple of the accumulation length, and say how to continue"""
    nb = ctx.choice([b for b in (1, 2, 3, 5) if b % acc])
    pm.train(T.loader(T.data(ctx, kind, dim, 4 * nb), 4), fit_config=T.config(
        optax.sgd(1e-2), 1, accumulation=acc, freeze_fun=(lambda path, v: "trainable" if "kernel" in path else "frozen") if how == "frozen" else None))
    step = int(np.ravel(pm.posterior.state.get().step)[0])
    ctx.check(step == nb, "step-count", f"{step} after {nb} batches")
    ctx.event("gradients-left-over")
    ctx.event("continued")
    if how != "saved":
        return dict(start_from_current_state=True), None
    d = tempfile.mkdtemp()
    pm.save_state(d)
    return dict(restore_checkpoint_path=d), d


def run(ctx, multi, how=None, prior=None):
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    pm = T.shared(kind, dim)  # one model object goes through many different training configurations
    acc = ctx.choice([None, 0, 1, 2, 2, 3, 4]) if how is None else 2 if how == "longer" else prior
    k = max(int(acc or 1), 1)
    bs, nb = ctx.choice([2, 4]), ctx.choice([1, 2, 3, 4, 5])
    epochs = ctx.choice([1, 2, 3])
    if how is not None:
        nb, epochs = ctx.choice([3, 4, 5]), 2
    n = bs * nb
    clip = ctx.choice([None, 0.0, 1.0, 10.0, 1e4])
    x, y = T.data(ctx, kind, dim, n)
    method = ctx.choice([lambda: optax.sgd(1e-2), lambda: optax.adam(1e-2), lambda: optax.sgd(1e-2, momentum=0.9)])()
    rec = T.Recorder(multi)
    ctx.note(kind=kind, accumulation=acc, batches=nb, batch_size=bs, epochs=epochs, max_grad_norm=clip, after=how, previous_accumulation=prior)
    kw, d = ({}, None) if how is None else before(ctx, pm, kind, dim, how, prior)
    cfg = T.config(method, epochs, max_grad_norm=clip, accumulation=acc, callbacks=[rec], disable_jit=not multi and ctx.rng.random() < 0.15, **kw)
    try:
        st = pm.train(T.loader((x, y), bs), fit_config=cfg)["fit_status"]
    finally:
        if d is not None:
            shutil.rmtree(d)
    if k > 1:
        ctx.event("accumulated")
    if k > 1 and nb % k:
        ctx.event("window-crosses-epoch")

    ref = T.reference_loss(pm, kind)
    first, p = rec.log[0][1:]
    q = jax.tree_util.tree_map(jnp.asarray, p)
    s = method.init(q)
    total, steps, losses = None, [], []
    for e in range(epochs):
        cur = []
        for b in range(nb):
            sl = slice(b * bs, (b + 1) * bs)
            loss, g = ref(q, x[sl], y[sl], float(n))
            t = e * nb + b + 1
            total = g if total is None else jax.tree_util.tree_map(jnp.add, total, g)
            if t % k == 0:
                g = jax.tree_util.tree_map(lambda v: v / k, total)
                total = None
                if clip:
                    m = norm(g)
                    if m > clip:
                        ctx.event("clipped")
                        g = jax.tree_util.tree_map(lambda v: v * (clip / m), g)
                u, s = method.update(g, s, q)
                q = optax.apply_updates(q, u)
                steps.append((t, T.host(q)))
                cur.append(float(loss))
        losses.append(np.mean(cur) if cur else None)
    got = [(t - first, v) for ev, t, v in rec.log if ev == "step"]
    ctx.check([t for t, _ in got] == [t for t, _ in steps], "one-step-per-window",
              f"optimizer steps reported after batches {[t for t, _ in got]}, windows end at {[t for t, _ in steps]}")
    for (t, v), (_, w) in zip(got, steps):
        a, b = T.flat_dict(v), T.flat_dict(w)
        for key in b:
            if not ctx.close(a[key], b[key], "update", rtol=2e-3, atol=2e-4, msg=f"after batch {t} {key}"):
                return
    final = T.flat_dict(pm.posterior.sample().params)
    last = T.flat_dict(steps[-1][1] if steps else p)
    for key in last:
        ctx.close(final[key], last[key], "final-parameters", rtol=2e-3, atol=2e-4)
    want = [v for v in losses if v is not None]
    if want or "loss" in st:
        ctx.close(np.asarray(st["loss"]), want, "reported-loss", rtol=2e-3, atol=1e-2)
    ctx.key(*[v for v in T.leaves(final)])


@suite.scenario(quick=60, thorough=2000)
def clipping(ctx):
    scale = float(10 ** ctx.rng.uniform(-4, 4))
    g = {"a": jnp.asarray(ctx.rng.normal(size=(2, 3)) * scale, jnp.float32),
         "b": {"c": jnp.asarray(ctx.rng.normal(size=ctx.choice([(), (4,)])) * scale, jnp.float32)}}
    if ctx.rng.random() < 0.1:
        g = jax.tree_util.tree_map(jnp.zeros_like, g)
    g = FrozenDict(g) if ctx.rng.random() < 0.5 else g
    m = norm(g)
    bound = float(ctx.choice([m * 0.3, m * 0.999, m * 1.001, m * 5, 1.0, 1e-3]) or 1.0)
    ctx.note(norm=m, bound=bound)
    out = clip_grandients_by_norm(g, bound)
    f = min(1.0, bound / m) if m > 0 else 1.0
    a, b = T.flat_dict(out), T.flat_dict(g)
    for k in b:
        ctx.close(a[k], b[k] * f, "clip-by-norm", rtol=2e-3 if m < 1e-3 else 1e-4, atol=0 if m > 0 else 1e-12)
    ctx.check(norm(out) <= bound * (1 + 1e-5), "norm-bounded")
    v = abs(float(ctx.rng.normal())) * scale
    out = T.flat_dict(clip_grandients_by_value(g, v))
    for k in b:
        ctx.close(out[k], np.clip(b[k], -v, v), "clip-by-value", rtol=1e-6, atol=0)
    ctx.key(m, bound)
