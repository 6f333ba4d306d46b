"""Calibration by fine-tuning (CalibClassifier, CalibRegressor): the trajectory is that of the given optimizer on the
mean loss of each batch, and the predictive is the likelihood at the calibrated parameters."""
import os

from vf.props import trainrig as T  # first: it asks for two devices
from vf.props import postrig as R

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from scipy import stats

from vf.core import Suite

from fortuna.calib_model import (CalibClassifier, CalibRegressor, Checkpointer, Config, Monitor, Optimizer, Processor)
from fortuna.calib_model.config.hyperparameters import Hyperparameters
from fortuna.calib_model.loss import Loss
from fortuna.data.loader import DataLoader, InputsLoader
from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
from fortuna.loss.classification.focal_loss import focal_loss_fn
from fortuna.loss.regression.scaled_mse import scaled_mse_fn
from fortuna.model.mlp import MLP
import fortuna.calib_model.base as _cb
from fortuna.utils.device import select_trainer_given_devices

suite = Suite(
    "C40",
    rule="case = (model kind, loss, data, batch size, optimizer, clipping, accumulation, trainer) calibrated step by step, or one predictive "
         "statistic of a calibrated model; distinct = distinct calibrated parameters",
    assumptions=["float32 arithmetic", "two simulated CPU devices stand for a multi-device host", "losses are means over the batch"],
    required={"kind:cls": 3, "kind:reg": 3, "trainer:jitted": 3, "trainer:plain": 1, "trainer:multi": 2, "step": 60, "accumulated": 2,
              "clipped": 2, "mutable": 2, "restored": 2, "continued": 2, "left-over": 4, "statistic": 40, "refused": 6, "validated": 4, "again": 6},
)


def net(dim):
    return MLP(dim, widths=(3,), activations=(nn.tanh,))


def logsumexp(o):
    return jax.scipy.special.logsumexp(o, -1)


def picked(o, y):
    return jnp.take_along_axis(o, y[:, None].astype(int), 1)[:, 0] - logsumexp(o)


def custom_cls(outputs, targets):
    return jnp.mean(jnp.sum((jax.nn.softmax(outputs, -1) - jax.nn.one_hot(targets, outputs.shape[-1])) ** 2, -1))


def custom_reg(outputs, targets):
    m, _ = jnp.split(outputs, 2, -1)
    return jnp.mean(jnp.abs(m - targets)) + 0.1 * jnp.mean(outputs ** 2)


# name -> (fortuna's argument, independent definition)
LOSSES = {
    "cls": {"default": (None, lambda o, y: jnp.mean(-((1 - jnp.exp(picked(o, y))) ** 2) * picked(o, y))),
            "focal3": (lambda o, y: focal_loss_fn(o, y, gamma=3.0), lambda o, y: jnp.mean(-((1 - jnp.exp(picked(o, y))) ** 3) * picked(o, y))),
            "ce": (cross_entropy_loss_fn, lambda o, y: -jnp.mean(picked(o, y))),
            "custom": (custom_cls, lambda o, y: jnp.mean(jnp.sum((jnp.exp(o - logsumexp(o)[:, None]) - jnp.eye(o.shape[1])[y]) ** 2, 1)))},
    "reg": {"default": (None, lambda o, y: jnp.mean(jnp.sum((y - o[:, :y.shape[1]]) ** 2 / jnp.exp(o[:, y.shape[1]:]) + o[:, y.shape[1]:], 1))),
            "mse": (scaled_mse_fn, lambda o, y: jnp.mean(jnp.sum((y - o[:, :y.shape[1]]) ** 2 / jnp.exp(o[:, y.shape[1]:]) + o[:, y.shape[1]:], 1))),
            "custom": (custom_reg, lambda o, y: jnp.mean(jnp.abs(o[:, :y.shape[1]] - y)) + 0.1 * jnp.mean(o ** 2))},
}


def build(kind, dim, seed, model=None):
    if kind == "cls":
        return CalibClassifier(model=model or net(dim), seed=seed)
    return CalibRegressor(model=model or net(dim), likelihood_log_variance_model=net(dim), seed=seed)


def outputs(m, kind, params, mutable, x, train=False):
    """the model's outputs (and new batch statistics) from flax alone"""
    mm = m.model_manager
    v = dict(params["model"])
    if mutable is not None:
        v.update(mutable["model"])
    new = mutable
    if mutable is not None and train:
        o, st = mm.model.apply(v, x, train=True, mutable=list(mutable["model"].keys()))
        new = {"model": st}
    else:
        o = mm.model.apply(v, x)
    if kind == "reg":
        o = jnp.concatenate([o, mm.likelihood_log_variance_model.apply(dict(params["lik_log_var"]), x)], -1)
    return o, new


def spread(preds, uncertainties, targets):
    return jnp.mean(preds * 1.0) + 3 * jnp.mean(uncertainties ** 2) + 7 * jnp.mean(targets * 1.0)


def use_trainer(which):
    _cb.select_trainer_given_devices = (
        (lambda multi_device_trainer_cls, **kw: multi_device_trainer_cls) if which == "multi" else select_trainer_given_devices)


def config(which, method, epochs, monitor=None, hyper=None, callbacks=None, **ck):
    return Config(optimizer=Optimizer(method=method, n_epochs=epochs), monitor=Monitor(verbose=False, **(monitor or {})),
                  processor=Processor(devices=0, disable_jit=which == "plain"),
                  hyperparameters=hyper or Hyperparameters(), callbacks=callbacks, checkpointer=Checkpointer(**ck))


def clip(g, bound):
    if not bound:
        return g, False
    n = float(np.sqrt(sum(float((np.asarray(v, "float64") ** 2).sum()) for v in T.leaves(g))))
    return jax.tree_util.tree_map(lambda v: v * min(1.0, bound / n), g), n > bound


@suite.scenario(quick=22, thorough=400)
def trajectory(ctx):
    kind = ["cls", "reg"][ctx.i % 2]
    which = ["jitted", "multi", "jitted", "plain"][ctx.i // 2 % 4]
    dim = ctx.choice([2, 3]) if kind == "cls" else ctx.choice([1, 2])
    mutable = kind == "cls" and ctx.i % 3 == 0
    bs, nb, epochs = ctx.choice([2, 4]), ctx.choice([2, 3]), ctx.choice([1, 2, 3])
    n = bs * nb - (1 if which != "multi" and ctx.rng.random() < 0.4 else 0)
    x, y = T.data(ctx, kind, dim, n)
    name = ctx.choice(list(LOSSES[kind]))
    given, ref = LOSSES[kind][name]
    acc = ctx.choice([None, None, 1, 2, 3]) if not mutable else None
    bound = ctx.choice([None, None, 1e-2, 0.1, 10.0])
    oname, method = ctx.choice([("sgd", optax.sgd(0.1)), ("momentum", optax.sgd(0.05, momentum=0.9)), ("adam", optax.adam(1e-2, eps=1e-3))])  # a bias before a BatchNorm has a gradient of pure noise
    seed = ctx.integers(0, 1000)
    xv, yv = T.data(ctx, kind, dim, 2 * ctx.choice([2, 3]))
    val, every = ctx.rng.random() < 0.6, ctx.choice([1, 1, 2])
    off = ctx.rng.random() < 0.3
    ctx.event("kind:" + kind)
    ctx.event("trainer:" + which)
    ctx.note(kind=kind, trainer=which, dim=dim, n=n, batch_size=bs, epochs=epochs, loss=name, accumulation=acc, max_grad_norm=bound,
             optimizer=oname, mutable=mutable, validation=val and every, metrics_off=off)
    m = build(kind, dim, seed, T.Net(dim) if mutable else None)
    states = []

    class Rec(T.Recorder):
        def _add(self, e, s):
            t = T.host(s.mutable) if s.mutable is not None else None
            if self.replicated and t is not None:
                t = jax.tree_util.tree_map(lambda v: v[0], t)
            states.append(t)
            return super()._add(e, s)

    rec = Rec(which == "multi")
    use_trainer(which)
    kw = {} if given is None else dict(loss_fn=given)
    try:
        st = m.calibrate(T.loader((x, y), bs), val_data_loader=T.loader((xv, yv), len(yv)) if val else None,
                         config=config(which, method, epochs, monitor=dict(metrics=(spread,), eval_every_n_epochs=every,
                                                                           disable_calibration_metrics_computation=off),
                                       hyper=Hyperparameters(max_grad_norm=bound, gradient_accumulation_steps=acc), callbacks=[rec]), **kw)
    finally:
        use_trainer(None)
    k = max(int(acc or 1), 1)
    if k > 1:
        ctx.event("accumulated")
    if mutable:
        ctx.event("mutable")

    if ("r", kind, dim, mutable, name) not in T._loss_cache:
        def batch_loss(p, mut, xx, yy):
            o, new = outputs(m, kind, p, mut, xx, train=True)
            return ref(o, yy), (o, new)
        T._loss_cache["r", kind, dim, mutable, name] = jax.jit(jax.value_and_grad(batch_loss, has_aux=True))
    step = T._loss_cache["r", kind, dim, mutable, name]

    q = jax.tree_util.tree_map(jnp.asarray, rec.log[0][2])
    mut = jax.tree_util.tree_map(jnp.asarray, states[0]) if states[0] is not None else None
    s = method.init(q)
    total, steps, losses, mets, vlosses, vmets = None, [], [], [], [], []

    def metric(o, yy):
        if kind == "cls":
            p = np.asarray(jax.nn.softmax(o, -1))
            top = np.sort(p, 1)
            tie = (top[:, -1] - top[:, -2] < 2e-3).any()  # float noise may decide the class: not compared
            return np.nan if tie else p.argmax(1).mean() + 3 * (p ** 2).mean() + 7 * np.mean(yy * 1.0)
        return np.asarray(o)[:, :dim].mean() + 3 * np.exp(2 * np.asarray(o)[:, dim:]).mean() + 7 * np.mean(yy)

    def compare(got, want, mech):
        got, want = np.asarray(got), np.asarray(want)
        ctx.check(got.shape == want.shape, mech, f"{got} vs {want}", fatal=True)
        ok = ~np.isnan(want)
        ctx.close(got[ok], want[ok], mech, rtol=1e-2, atol=2e-2)

    for e in range(epochs):
        cur, curm = [], []
        for b in range(nb):
            sl = slice(b * bs, (b + 1) * bs)
            parts = [sl] if which != "multi" else [slice(b * bs, b * bs + bs // 2), slice(b * bs + bs // 2, (b + 1) * bs)]
            rs = [step(q, mut, x[p], y[p]) for p in parts]
            g = jax.tree_util.tree_map(lambda *v: sum(v) / len(v), *[r[1] for r in rs])
            loss = np.mean([float(r[0][0]) for r in rs])
            o = jnp.concatenate([r[0][1][0] for r in rs])
            if mutable:
                if which == "multi":
                    return  # replicas keep their own statistics during training: not comparable step by step
                mut = rs[0][0][1][1]
            t = e * nb + b + 1
            total = g if total is None else jax.tree_util.tree_map(jnp.add, total, g)
            if t % k == 0:
                g, hit = clip(jax.tree_util.tree_map(lambda v: v / k, total), bound)
                total = None
                if hit:
                    ctx.event("clipped")
                u, s = method.update(g, s, q)
                q = optax.apply_updates(q, u)
                steps.append((t, T.host(q)))
                cur.append(loss)
                curm.append(metric(o, y[sl]))
        if cur:
            losses.append(np.mean(cur))
            mets.append(np.mean(curm))
        if val and e % every == 0:
            o, _ = outputs(m, kind, q, mut, xv)
            vlosses.append(float(ref(o, yv)))
            vmets.append(metric(o, yv))
    got = [(t, v) for ev, t, v in rec.log if ev == "step"]
    ctx.check([t for t, _ in got] == [t for t, _ in steps], "one-step-per-window", f"{[t for t, _ in got]} vs {[t for t, _ in steps]}", fatal=True)
    for (t, v), (_, w) in zip(got, steps):
        ctx.event("step")
        a, b = T.flat_dict(v), T.flat_dict(w)
        for key in b:
            if not ctx.close(a[key], b[key], "update", rtol=2e-3, atol=3e-4, msg=f"after batch {t} {key}"):
                return
    end = T.flat_dict(T.host(m.predictive.state.get().params))
    for key, v in T.flat_dict(steps[-1][1] if steps else rec.log[0][2]).items():
        ctx.close(end[key], v, "calibrated-parameters", rtol=2e-3, atol=3e-4, msg=str(key))
    if mutable:
        a, b = T.flat_dict(T.host(m.predictive.state.get().mutable)), T.flat_dict(T.host(mut))
        for key in b:
            ctx.close(a[key], b[key], "calibrated-statistics", rtol=2e-3, atol=3e-4, msg=str(key))
    if losses:
        ctx.close(np.asarray(st["loss"]), losses, "reported-loss", rtol=2e-3, atol=1e-3)
        ctx.check(("spread" in st) == (not off), "metrics-reported", str(sorted(st)))
        if "spread" in st:
            compare(st["spread"], mets, "reported-metric")
    if val:
        ctx.event("validated")
        ctx.close(np.asarray(st["val_loss"]), vlosses, "validation-loss", rtol=3e-3, atol=1e-3)
        compare(st["val_spread"], vmets, "validation-metric")
    ctx.key(*[end[p] for p in sorted(end)])


_calibrated = {}


def calibrated(ctx, kind, dim, mutable=False):
    """a calibrated model shared by the cases of one worker"""
    key = kind, dim, mutable
    if key not in _calibrated:
        m = build(kind, dim, 3, T.Net(dim) if mutable else None)
        x, y = T.data(ctx, kind, dim, 8)
        m.calibrate(T.loader((x, y), 4), config=config("jitted", optax.adam(5e-2), 6))
        _calibrated[key] = m
    return _calibrated[key]


@suite.scenario(quick=16, thorough=250)
def statistics(ctx):
    """every predictive statistic is that of the likelihood at the calibrated parameters"""
    kind = ["cls", "reg"][ctx.i % 2]
    dim = ctx.choice([2, 3]) if kind == "cls" else 1
    mutable = kind == "cls" and ctx.rng.random() < 0.4
    m = calibrated(ctx, kind, dim, mutable)
    n, bs = ctx.choice([4, 6]), ctx.choice([2, 3, 6])
    x, y = T.data(ctx, kind, dim, n)
    dist = ctx.rng.random() < 0.5
    if dist:
        bs = ctx.choice([2, 4]) if n == 4 else 2
    st = m.predictive.state.get()
    params = T.host(st.params)
    mut = T.host(st.mutable) if st.mutable is not None else None
    o = np.asarray(outputs(m, kind, params, mut, x)[0], "float64")
    il = InputsLoader.from_array_inputs(x, batch_size=bs)
    dl = DataLoader.from_array_data((x, y), batch_size=bs)
    ctx.note(kind=kind, dim=dim, n=n, batch_size=bs, distribute=dist, mutable=mutable)
    p = m.predictive
    kw = dict(distribute=dist)
    key = jax.random.PRNGKey(ctx.integers(0, 10 ** 6))
    if kind == "cls":
        lp = o - np.log(np.exp(o - o.max(1, keepdims=True)).sum(1, keepdims=True)) - o.max(1, keepdims=True)
        pr = np.exp(lp)
        want = dict(mean=pr, mode=pr.argmax(1), variance=pr * (1 - pr), std=np.sqrt(pr * (1 - pr)), entropy=-(pr * lp).sum(1))
        lpy = lp[np.arange(n), y]
    else:
        mu, lv = o[:, :dim], o[:, dim:]
        want = dict(mean=mu, mode=mu, variance=np.exp(lv), std=np.exp(lv / 2))
        lpy = stats.norm.logpdf(y, mu, np.exp(lv / 2)).sum(1)
    for name, w in want.items():
        ctx.event("statistic")
        if name == "mode" and kind == "cls":
            top = np.sort(pr, 1)
            ok = top[:, -1] - top[:, -2] > 1e-5
            ctx.equal(np.asarray(getattr(p, name)(il, **kw))[ok], w[ok], "mode")
        else:
            ctx.close(np.asarray(getattr(p, name)(il, **kw)), w, name, rtol=1e-3, atol=1e-4)
    v = np.abs(ctx.rng.normal(size=want["variance"].shape))
    ctx.close(np.asarray(p.std(il, variances=jnp.asarray(v), **kw)), np.sqrt(v), "std-of-given-variances")
    ctx.event("statistic", 2)
    ctx.close(np.asarray(p.log_prob(dl, **kw)), lpy, "log-prob", rtol=1e-3, atol=1e-3)
    S = 400
    smp = np.asarray(p.sample(il, n_samples=S, rng=key, **kw))
    ctx.event("statistic")
    if kind == "cls":
        ctx.check(smp.shape == (S, n), "sample-shape", str(smp.shape), fatal=True)
        f = np.stack([(smp == c).mean(0) for c in range(dim)], 1)
        # six standard deviations of a proportion
        ctx.check(bool((np.abs(f - pr) <= 6 * np.sqrt(pr * (1 - pr) / S) + 5 / S).all()), "sample-frequencies", f"{f} vs {pr}")
        again = np.asarray(p.sample(il, n_samples=S, rng=key, **kw))
        ctx.equal(smp, again, "sample-key")
    else:
        ctx.check(smp.shape == (S, n, dim), "sample-shape", str(smp.shape), fatal=True)
        sd = np.exp(lv / 2)
        ctx.check(bool((np.abs(smp.mean(0) - mu) <= 6 * sd / np.sqrt(S)).all()), "sample-mean")
        ctx.check(bool((np.abs(smp.std(0) / sd - 1) <= 6 / np.sqrt(2 * S)).all()), "sample-spread")
        ent = np.asarray(p.entropy(il, n_samples=S, rng=key, **kw))
        e = stats.norm.entropy(mu, sd).sum(1)
        ctx.event("statistic", 3)
        ctx.check(ent.shape == (n,), "entropy-shape", str(ent.shape))
        ctx.check(bool((np.abs(ent - e) <= 6 * np.sqrt(0.5 / S)).all()), "entropy", f"{ent} vs {e}")
        q = ctx.choice([0.1, 0.5, 0.8])
        got = np.asarray(p.quantile(q, il, n_samples=S, rng=key, **kw))
        d = stats.norm.pdf(stats.norm.ppf(q)) / sd
        tol = 6 * np.sqrt(q * (1 - q) / S) / d
        ctx.check(got.shape == (n, dim), "quantile-shape", str(got.shape))
        ctx.check(bool((np.abs(got - (mu + sd * stats.norm.ppf(q))) <= tol).all()), "quantile")
        err = ctx.choice([0.1, 0.3])
        kind_ = ctx.choice(["two-tailed", "right-tailed", "left-tailed"])
        iv = np.asarray(p.credible_interval(il, n_samples=S, error=err, interval_type=kind_, rng=key, **kw))
        qs = {"two-tailed": [err / 2, 1 - err / 2], "left-tailed": [err], "right-tailed": [1 - err]}[kind_]
        each = np.concatenate([np.asarray(p.quantile(a, il, n_samples=S, rng=key, **kw)) for a in qs], 1)
        ctx.check(iv.shape == (n, len(qs)), "interval-shape", str(iv.shape))
        ctx.close(iv, each, "interval-quantiles", rtol=1e-4, atol=1e-5)
        ctx.raises(ValueError, lambda: p.credible_interval(il, interval_type="both"), "interval-type")
    ctx.key(smp)


@suite.scenario(quick=8, thorough=100)
def continuing(ctx):
    """calibrating for a few epochs, then further from the current state or from the saved checkpoint, is one longer run"""
    kind = ["cls", "reg"][ctx.i % 2]
    how = ["current", "checkpoint", "saved"][ctx.i % 3]
    dim = 2 if kind == "cls" else 1
    mutable = kind == "cls" and ctx.rng.random() < 0.5
    # "left": each run ends in the middle of an accumulation window, and the next starts a window of its own, so that the last batch never counts
    left = ctx.i % 4 >= 2
    mutable = mutable and not left
    x, y = T.data(ctx, kind, dim, 12 if left else 8)
    seed = ctx.integers(0, 1000)
    a, b = (1, 1) if left else (ctx.choice([1, 2]), ctx.choice([1, 2]))
    sgd = optax.sgd(0.05)
    ctx.note(kind=kind, how=how, epochs=[a, b], mutable=mutable, left=left)
    hyper = Hyperparameters(gradient_accumulation_steps=2) if left else None
    if left:
        ctx.event("left-over")

    def fresh(s=seed):
        return build(kind, dim, s, T.Net(dim) if mutable else None)

    def run(m, n, size=len(x), **ck):
        m.calibrate(T.loader((x[:size], y[:size]), 4), config=config("jitted", sgd, n, hyper=hyper, **ck))
        return m

    whole = T.flat_dict(T.host(run(fresh(), a + b, 8).predictive.state.get().params))
    with R.scratch() as d:
        if how == "current":
            m = run(fresh(), a)
            m = run(m, b, start_from_current_state=True)
            ctx.event("continued")
        else:
            p = os.path.join(d, "c")
            if how == "checkpoint":
                run(fresh(), a, save_checkpoint_dir=p, dump_state=bool(ctx.integers(0, 1)))
            else:
                run(fresh(), a).save_state(p)
            other = fresh(seed + 1)
            m = run(other, b, restore_checkpoint_path=p)
            ctx.event("restored")
        got = T.flat_dict(T.host(m.predictive.state.get().params))
    for k in whole:
        ctx.close(got[k], whole[k], "continued-run", rtol=1e-4, atol=1e-5, msg=str(k))
    ctx.key(*[whole[p] for p in sorted(whole)])


@suite.scenario(quick=10, thorough=60)
def refusals(ctx):
    """wrong dimensions, empty data and inconsistent requests are refused before anything changes"""
    kind = ["cls", "reg"][ctx.i % 2]
    case = ctx.i // 2 % 5
    dim = 3 if kind == "cls" else 2
    m = build(kind, dim, 0)
    x, y = T.data(ctx, kind, dim, 8)
    cfg = config("jitted", optax.sgd(0.1), 1)
    ctx.event("refused")
    ctx.note(kind=kind, case=case)
    good = T.loader((x, y), 4)
    bad = T.loader((x, y % 2 if kind == "cls" else y[:, :1]), 4)
    if case == 0:
        ctx.raises(ValueError, lambda: m.calibrate(bad, config=cfg), "wrong-dimension")
    elif case == 1:
        ctx.raises(ValueError, lambda: m.calibrate(good, val_data_loader=bad, config=cfg), "wrong-validation-dimension")
    elif case == 2:
        ctx.raises(ValueError, lambda: m.calibrate(good, config=config("jitted", optax.sgd(0.1), 1, dump_state=True)), "dump-without-directory")
    elif case == 3:
        ctx.raises(ValueError, lambda: Monitor(metrics=[spread]), "metrics-not-a-tuple")
        ctx.raises(ValueError, lambda: Monitor(metrics=(1,)), "metrics-not-callable")
        ctx.raises(ValueError, lambda: Monitor(uncertainty_fn=3), "uncertainty-not-callable")
        with R.scratch() as d:
            ctx.raises(ValueError, lambda: m.load_state(os.path.join(d, "nothing")), "no-checkpoint")
    else:
        loss = Loss(m.likelihood, loss_fn=focal_loss_fn if kind == "cls" else scaled_mse_fn)
        s = m._init(good, cfg)
        batch = (x, y)
        o = outputs(m, kind, s.params, None, x)[0]
        ctx.raises(AttributeError, lambda: loss(s.params, batch, return_aux=["nope"]), "unknown-aux")
        ctx.raises(ValueError, lambda: loss(s.params, batch, train=True, outputs=o), "train-with-outputs")
        ctx.raises(ValueError, lambda: loss(s.params, batch, return_aux=["mutable"]), "mutable-without-training")
        v, aux = loss(s.params, batch, return_aux=["outputs"])
        w, _ = loss(s.params, batch, outputs=o)
        ctx.close(aux["outputs"], o, "aux-outputs")
        ctx.close(float(v), float(w), "loss-of-given-outputs")
        ctx.close(float(v), float(LOSSES[kind]["default"][1](o, y)), "loss-value", rtol=1e-3)
    if case < 3:
        ctx.check(m.predictive.state is None, "refused-run-leaves-no-state")
    ctx.key(case, kind, ctx.i)


@suite.scenario(quick=6, thorough=60)
def again(ctx):
    """a model that was calibrated before and is not told to continue gives what a new model gives"""
    from vf.props.c45 import reseed
    kind = ["cls", "reg"][ctx.i % 2]
    dim = 2 if kind == "cls" else 1
    mutable, stored = kind == "cls" and ctx.i % 4 == 0, ctx.i % 3 == 0
    a, b = T.data(ctx, kind, dim, 8), T.data(ctx, kind, dim, 12)
    seed = ctx.integers(0, 1000)
    ctx.note(kind=kind, mutable=mutable, stored=stored)
    used, new = (build(kind, dim, seed, T.Net(dim) if mutable else None) for _ in range(2))
    opt = lambda: optax.adam(0.05)
    with R.scratch() as d:
        used.calibrate(T.loader(a, 4), config=config("jitted", opt(), 2, **(dict(save_checkpoint_dir=os.path.join(d, "c"), dump_state=True) if stored else {})))
        status = []
        for m in (used, new):
            reseed(m, 5)
            status.append(m.calibrate(T.loader(b, 4), config=config("jitted", opt(), 2)))
        u, n = ({**T.flat_dict(T.host(s.params)), **(T.flat_dict(T.host(s.mutable)) if s.mutable is not None else {})} for s in (m.predictive.state.get() for m in (used, new)))
    ctx.check(set(u) == set(n), "again-names", str(set(u) ^ set(n)))
    for k in n:
        ctx.close(u[k], n[k], "again-state", str(k), rtol=1e-6, atol=1e-7)
    ctx.check(set(status[0]) == set(status[1]), "again-history")
    for k in status[1]:
        ctx.close(status[0][k], status[1][k], "again-history", k, rtol=1e-6, atol=1e-7)
    ctx.event("again")
    ctx.key(*[n[k] for k in sorted(n)])
