"""C31 output calibration: replay of the calibration training and before/after comparison of everything it must leave alone."""
import os

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from scipy import stats
from scipy.special import log_softmax, softmax

from fortuna.data.loader import DataLoader
from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
from fortuna.output_calib_model import (OutputCalibClassifier, OutputCalibRegressor)
from fortuna.output_calib_model import Checkpointer as OCheckpointer, Config as OConfig, Monitor as OMonitor, Optimizer as OOptimizer, Processor as OProcessor
from fortuna.model.mlp import MLP
from fortuna.prob_model import CalibCheckpointer, CalibConfig, CalibMonitor, CalibOptimizer, CalibProcessor, ProbClassifier
from vf.core import Suite
from vf.props import c19
from vf.props import postrig as R
from vf.props import trainrig as T

import fortuna.output_calib_model.output_calib_model_calibrator as _oc
import fortuna.training.output_calibrator as _pc
import fortuna.output_calib_model.base as _ob
import fortuna.prob_model.base as _pb
from fortuna.utils.device import select_trainer_given_devices

import tqdm as _tqdm

_oc.trange = _pc.trange = lambda n, **kw: _tqdm.trange(n, disable=True)

suite = Suite(
    "C31",
    rule="case = (outputs or fitted model, targets, loss, optimizer, epochs, validation, early stopping, checkpoints, devices) calibrated and "
         "compared with an independent replay; distinct = distinct fitted temperatures",
    assumptions=["float32 arithmetic", "one CPU device, or two emulated ones", "data loaders in a fixed order (shuffled ones are refused)"],
    required={"classification": 6, "regression": 6, "extreme": 3, "mutable": 2, "validated": 5, "stopped-early": 2, "two-devices": 2, "resumed": 2,
              "model": 6, "several-batches": 3, "identified-members": 2, "refused": 4, "taken-over": 4, "taken-over-dump": 4, "shared-folder": 6, "cached-again": 4},
)


def devices(n):
    f = (lambda multi_device_trainer_cls, **kw: multi_device_trainer_cls) if n == 2 else select_trainer_given_devices
    _ob.select_trainer_given_devices = f
    _pb.select_trainer_given_devices = f


class Counting(nn.Module):
    """a temperature that also counts its training calls in a mutable variable"""

    @nn.compact
    def __call__(self, x, train=False, **kwargs):
        c = self.variable("stats", "count", lambda: jnp.zeros(()))
        t = self.param("log_temp", nn.initializers.zeros, (1,))
        if train:
            c.value = c.value + 1.0
        return x * jnp.exp(-t)


def scaled(kind, o, t):
    if kind == "cls":
        return o * jnp.exp(-t)
    d = o.shape[-1] // 2
    return jnp.concatenate([o[..., :d], o[..., d:] + t], -1)


def focal(o, y):
    lp = jnp.take_along_axis(o - jax.scipy.special.logsumexp(o, -1, keepdims=True), y[:, None], 1)[:, 0]
    return jnp.mean(-((1 - jnp.exp(lp)) ** 2) * lp)


def mse(o, y):
    d = o.shape[-1] // 2
    return jnp.mean(jnp.sum(jnp.exp(-o[:, d:]) * (y - o[:, :d]) ** 2 + o[:, d:], -1))


def loglik(kind, o, y):
    """per example"""
    if kind == "cls":
        return jnp.take_along_axis(o - jax.scipy.special.logsumexp(o, -1, keepdims=True), y[:, None], 1)[:, 0]
    d = o.shape[-1] // 2
    return -0.5 * (jnp.log(2 * jnp.pi) + o[:, d:] + (y - o[:, :d]) ** 2 * jnp.exp(-o[:, d:])).sum(-1)


def replay(loss, method, epochs, t0=0.0, batches=((),)):
    """trajectory of the log-temperature and of the per-epoch mean loss"""
    g = jax.jit(jax.value_and_grad(loss))
    t = jnp.full((1,), t0)
    s = method.init(t)
    ts, ls = [], []
    for _ in range(epochs):
        cur = []
        for b in batches:
            l, d = g(t, *b)
            u, s = method.update(d, s, t)
            t = optax.apply_updates(t, u)
            cur.append(float(l))
        ts.append(float(t[0]))
        ls.append(float(np.mean(cur)))
    return ts, ls


def log_temp(params):
    v = T.flat_dict(params)
    v = {k: a for k, a in v.items() if k[-1] == "log_temp"}
    assert len(v) == 1
    return float(np.asarray(list(v.values())[0]).reshape(-1)[0])


def outputs(ctx, kind, n, dim, scale):
    if kind == "cls":
        o = (ctx.rng.normal(size=(n, dim)) * scale).astype("float32")
        y = np.where(ctx.rng.random(n) < 0.6, o.argmax(1), ctx.rng.integers(0, dim, n))
        y[:dim] = np.arange(dim)  # every class is present, as calibrate demands
        return o, y
    m = ctx.rng.normal(size=(n, dim))
    y = m + ctx.rng.normal(size=(n, dim)) * 0.5
    return np.concatenate([m, ctx.rng.normal(size=(n, dim)) * min(scale, 3.0)], 1).astype("float32"), y.astype("float32")


def stop_epoch(val, patience, delta):
    """epochs run with early stopping on the validation loss, epoch by epoch"""
    best, bad = np.inf, 0
    for e, v in enumerate(val):
        if e == 0 or best - v > delta:
            best, bad = v, 0
        else:
            if bad >= patience:
                return e + 1
            bad += 1
    return len(val)


@suite.scenario(quick=30, thorough=400)
def calibrate_outputs(ctx):
    kind = ["cls", "reg"][ctx.i % 2]
    n, dim = ctx.choice([6, 12]), ctx.choice([2, 3])
    extreme = kind == "cls" and ctx.rng.random() < 0.3
    scale = 300.0 if extreme else float(ctx.choice([0.3, 1.0, 5.0]))
    o, y = outputs(ctx, kind, n, dim, scale)
    val = outputs(ctx, kind, ctx.choice([6, 12]), dim, scale) if ctx.rng.random() < 0.6 else None
    epochs = ctx.choice([1, 3, 6])
    method = ctx.choice([lambda: optax.adam(0.1), lambda: optax.sgd(0.05), lambda: optax.sgd(0.02, momentum=0.9)])()
    if extreme or (kind == "reg" and scale > 1):
        method = optax.adam(0.1)
    if kind == "cls":
        fn, ref = [(None, focal), (cross_entropy_loss_fn, lambda a, b: -jnp.mean(loglik("cls", a, b)))][ctx.integers(0, 1)]
    else:
        fn, ref = [(None, mse), (lambda a, b: jnp.mean(jnp.abs(a[:, -1])) + mse(a, b), lambda a, b: jnp.mean(jnp.abs(a[:, -1])) + mse(a, b))][ctx.integers(0, 1)]
    two = ctx.rng.random() < 0.2
    mut = kind == "cls" and not two and ctx.rng.random() < 0.3
    patience = ctx.choice([0, 1, 2]) if val is not None else 0
    if patience:
        epochs = ctx.choice([8, 12])
        method = optax.sgd(float(ctx.choice([3.0, 0.05]))) if not extreme and kind == "cls" else optax.adam(1.0)
    every = ctx.choice([1, 1, 2, 0]) if val is not None and not patience else 1
    acc = lambda preds, unc, t: jnp.mean(preds == t) + 0 * jnp.sum(unc)
    acc.__name__ = "hits"
    metrics = (acc,) if ctx.rng.random() < 0.3 and not two and kind == "cls" else None
    jit = ctx.rng.random() < 0.8
    ctx.note(kind=kind, n=n, dim=dim, scale=scale, val=val is not None, epochs=epochs, loss="default" if fn is None else "other", two=two, mutable=mut,
             patience=patience, every=every, metrics=metrics is not None, jit=jit)
    ctx.event({"cls": "classification", "reg": "regression"}[kind])
    for f, e in ((extreme, "extreme"), (mut, "mutable"), (val is not None, "validated"), (two, "two-devices")):
        if f:
            ctx.event(e)
    cls = OutputCalibClassifier if kind == "cls" else OutputCalibRegressor
    kw = dict(output_calibrator=Counting()) if mut else {}
    m = cls(seed=ctx.integers(0, 99), **kw)
    ctx.raises(ValueError, lambda: m.predictive.mean(o), "uncalibrated-use", "mean before calibration")
    before = {f: np.asarray(getattr(m.predictive, f)(o, calibrated=False)) for f in ("mean", "mode", "variance")}
    keep = o.copy(), y.copy()

    def config(ep, **ck):
        return OConfig(optimizer=OOptimizer(method=method, n_epochs=ep), processor=OProcessor(devices=0, disable_jit=not jit and not two),
                       monitor=OMonitor(verbose=False, metrics=metrics, eval_every_n_epochs=every, early_stopping_patience=patience),
                       checkpointer=OCheckpointer(**ck))

    args = dict(val_outputs=val[0], val_targets=val[1]) if val else {}
    if fn is not None:
        args["loss_fn"] = fn
    with R.scratch() as root:
        devices(2 if two else 1)
        try:
            resume = not two and not patience and ctx.rng.random() < 0.3
            if resume:  # stop after some epochs, and restart from the checkpoint
                ctx.event("resumed")
                p = os.path.join(root, "c")
                first = m.calibrate(o, y, config=config(2, save_checkpoint_dir=p), **args)
                m2 = cls(seed=5, **kw)
                second = m2.calibrate(o, y, config=config(epochs, restore_checkpoint_path=p), **args)
                status = {k: np.concatenate([np.asarray(first[k]), np.asarray(second[k])]) for k in first}
                m, total = m2, epochs + 2
            else:
                status, total = m.calibrate(o, y, config=config(epochs), **args), epochs
        finally:
            devices(1)
    ctx.check(np.array_equal(keep[0], o) and np.array_equal(keep[1], y), "input-modified", "outputs or targets")
    fun = lambda t: ref(scaled(kind, o, t), y)
    ts, ls = replay(fun, method, total if total == epochs else 2)
    if total > epochs:  # restoring brings back the calibrator; the optimizer starts afresh
        t2, l2 = replay(fun, method, epochs, t0=ts[-1])
        ts, ls = ts + t2, ls + l2
    run = total
    if val:
        vl = [float(ref(scaled(kind, val[0], t), val[1])) for t in ts]
        if patience:
            run = stop_epoch(vl, patience, 0.0)
            if run < total:
                ctx.event("stopped-early")
        if every == 0:
            ctx.check("val_loss" not in status, "validation-off", str(sorted(status)))
        else:
            parts = [vl[:2], vl[2:]] if total > epochs else [vl[:run]]
            want = [v for p in parts for v in p[::every]]
            ctx.close(status["val_loss"], want, "validation-loss", "validation losses", rtol=1e-3, atol=1e-4)
    # early stopping is decided by comparisons of float losses: only claim the stopping epoch when no comparison was close
    clear = not patience or all(abs(a - b) > 1e-5 * (1 + abs(a)) for i, a in enumerate(vl) for b in vl[:i])
    if clear:
        ctx.close(status["loss"], ls[:run], "loss-trajectory", "training losses", rtol=1e-3, atol=1e-4)
    st = m.predictive.state.get()
    t = log_temp(st.params)
    ctx.key((kind, round(t, 5)))
    ctx.check(np.isfinite(t), "temperature-positive", f"log temperature {t}")
    if clear:
        ctx.close(t, ts[run - 1], "temperature-trajectory", "log temperature", rtol=1e-3, atol=1e-4)
    if metrics:
        ctx.check("hits" in status and len(status["hits"]) == len(status["loss"]), "metrics-missing", str(sorted(status)))
        ctx.close(status["hits"], np.full(len(status["hits"]), np.mean(o.argmax(1) == y)), "metric-value", "accuracy does not depend on the temperature")
    if mut:
        ctx.close(T.flat_dict(st.mutable)[("output_calibrator", "stats", "count")], float(len(status["loss"])), "mutable-updates", "training calls counted by the calibrator")
    predictions(ctx, m, kind, o, y, t, before)


def predictions(ctx, m, kind, o, y, t, before):
    pr = m.predictive
    for f in ("mean", "mode", "variance"):
        ctx.equal(getattr(pr, f)(o, calibrated=False), before[f], "uncalibrated-changed", f"{f} with calibrated=False")
    c = np.asarray(scaled(kind, o, t), float)
    if kind == "cls":
        q = softmax(c, axis=1)
        ctx.equal(pr.mode(o), o.argmax(1), "class-changed", "predicted classes")
        ctx.close(pr.mean(o), q, "calibrated-mean", "class probabilities", rtol=1e-3, atol=1e-5)
        ctx.close(pr.variance(o), q * (1 - q), "calibrated-variance", "variance", rtol=1e-3, atol=1e-4)
        ctx.close(pr.std(o), np.sqrt(q * (1 - q)), "calibrated-std", "std", rtol=1e-2, atol=2e-3)
        ctx.close(pr.log_prob(o, y), log_softmax(c, axis=1)[np.arange(len(y)), y], "calibrated-log-prob", "log-probability", rtol=1e-3, atol=1e-3)
        with np.errstate(all="ignore"):
            ctx.close(pr.entropy(o), np.where(q > 0, -q * np.log(q), 0).sum(1), "calibrated-entropy", "entropy", rtol=1e-3, atol=1e-4)
        s = np.asarray(pr.sample(5, o, rng=jax.random.PRNGKey(0)))
        ctx.check(s.shape == (5, len(o)) and np.isin(s, np.arange(o.shape[1])).all(), "calibrated-sample", f"{s.shape}")
        sure = q.max(1) > 1 - 1e-7
        ctx.check((s[:, sure] == q.argmax(1)[sure]).all(), "calibrated-sample", "samples of a certain class")
    else:
        d = o.shape[1] // 2
        v = np.exp(c[:, d:])
        ctx.equal(pr.mean(o), before["mean"], "mean-changed", "calibration changed the mean")
        ctx.equal(pr.mode(o), before["mode"], "mode-changed", "calibration changed the mode")
        ctx.close(pr.variance(o), v, "calibrated-variance", "variance", rtol=1e-4)
        ctx.close(np.asarray(pr.variance(o)) / before["variance"], np.full(v.shape, np.exp(t)), "one-factor", "variance ratio", rtol=1e-4)
        ctx.close(pr.std(o), np.sqrt(v), "calibrated-std", "std", rtol=1e-4)
        ctx.close(pr.log_prob(o, y), stats.norm(c[:, :d], np.sqrt(v)).logpdf(y).sum(1), "calibrated-log-prob", "log-density", rtol=1e-3, atol=1e-3)
        ctx.close(pr.entropy(o), 0.5 * np.log(2 * np.pi * np.e * v).sum(1), "calibrated-entropy", "entropy (30 samples)", rtol=0, atol=6 * np.sqrt(d / 60))
        k = jax.random.PRNGKey(ctx.integers(0, 99))
        a = np.asarray(pr.sample(4, o, rng=k), float)
        b = np.asarray(pr.sample(4, o, rng=k, calibrated=False), float)
        ctx.close(a - o[:, :d], (b - o[:, :d]) * np.exp(t / 2), "calibrated-sample", "with one key, samples differ by the scale only", rtol=1e-3, atol=1e-3 * float(np.sqrt(v.max())) + 1e-5)
        e = float(ctx.choice([0.05, 0.2]))
        if d == 1:
            w = np.diff(np.asarray(pr.credible_interval(o, n_samples=50, error=e, rng=k), float))
            u = np.diff(np.asarray(pr.credible_interval(o, n_samples=50, error=e, rng=k, calibrated=False), float))
            ctx.close(w, u * np.exp(t / 2), "calibrated-interval", "interval widths", rtol=1e-2, atol=1e-3)
        z = np.asarray(pr.quantile(0.5, o, n_samples=50, rng=k), float)
        ctx.check(z.shape[-2:] == (len(o), d) or z.shape == (len(o), d), "calibrated-quantile", str(z.shape))


@suite.scenario(quick=12, thorough=40)
def refusals(ctx):
    kind = ["cls", "reg"][ctx.i % 2]
    o, y = outputs(ctx, kind, 8, 2, 1.0)
    m = (OutputCalibClassifier if kind == "cls" else OutputCalibRegressor)()
    cfg = OConfig(optimizer=OOptimizer(n_epochs=1), monitor=OMonitor(verbose=False), processor=OProcessor(devices=0))
    wrong = np.concatenate([o, o[:, :1]], 1)
    ctx.raises(ValueError, lambda: m.calibrate(wrong, y, config=cfg), "dimension-accepted", "outputs of another dimension")
    ctx.raises(ValueError, lambda: m.calibrate(o, y, val_outputs=wrong, val_targets=y, config=cfg), "dimension-accepted", "validation outputs of another dimension")
    ctx.raises(ValueError, lambda: m.calibrate(o, y, val_targets=y, config=cfg), "half-validation-accepted", "validation targets alone")
    for f in ("mean", "mode", "variance", "std", "entropy"):
        ctx.raises(ValueError, lambda: getattr(m.predictive, f)(o), "uncalibrated-use", f)
    ctx.raises(ValueError, lambda: m.predictive.log_prob(o, y), "uncalibrated-use", "log_prob")
    ctx.raises(ValueError, lambda: m.predictive.sample(2, o), "uncalibrated-use", "sample")
    ctx.event("refused")
    ctx.key((kind, ctx.i))


def everything(pm, x, kind, seed):
    """what calibration must leave alone"""
    out = {}
    for i in range(3):
        s = pm.posterior.sample(rng=jax.random.PRNGKey(seed + i), inputs=x)
        for f in ("params", "mutable"):
            v = getattr(s, f)
            out.update({(i, f) + k: a for k, a in T.flat_dict(v).items()} if v is not None else {})
    for j, s in enumerate(c19.members(pm)):
        out.update({(j,) + k: a for k, a in c19.arrays(s).items() if not k[0].startswith("calib")})
    return out


@suite.scenario(quick=16, thorough=160)
def calibrate_models(ctx):
    order = ["map", "ensemble", "advi", "sghmc", "laplace", "swag", "cyclical", "sngp"]
    method = order[ctx.i % len(order)]
    kind = "cls" if method == "sngp" else ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    n, bs = ctx.choice([(8, 8), (12, 4), (12, 6)])
    x, y = T.data(ctx, kind, dim, n)
    seed = ctx.integers(0, 1000)
    pm = c19.build(method, kind, seed)
    mapped = method in ("laplace", "swag")
    train = T.loader((x, y), 4)
    pm.train(train, fit_config=T.config(optax.adam(1e-1) if method not in ("sghmc", "cyclical") else None, 3), **(dict(map_fit_config=T.config(n_epochs=2)) if mapped else {}))
    cx, cy = T.data(ctx, kind, dim, n)
    calib = T.loader((cx, cy), bs)
    val = T.data(ctx, kind, dim, 8) if ctx.rng.random() < 0.5 else None
    epochs, n_post = ctx.choice([2, 5]), ctx.choice([1, 5, 30])
    opt = ctx.choice([lambda: optax.adam(0.1), lambda: optax.sgd(1e-2)])()
    two = ctx.rng.random() < 0.15
    ctx.note(method=method, kind=kind, n=n, batch=bs, epochs=epochs, posterior_samples=n_post, val=val is not None, two=two)
    ctx.event("model")
    if bs < n:
        ctx.event("several-batches")
    before = everything(pm, cx, kind, seed)
    k = jax.random.PRNGKey(seed)
    ld = T.loader((cx, cy), 5)
    raw = np.asarray(pm.predictive.sample_calibrated_outputs(ld.to_inputs_loader(), n_output_samples=3, rng=k, distribute=False))
    cfg = CalibConfig(optimizer=CalibOptimizer(method=opt, n_epochs=epochs), monitor=CalibMonitor(verbose=False),
                      processor=CalibProcessor(devices=0, n_posterior_samples=n_post))
    devices(2 if two else 1)
    try:
        status = pm.calibrate(calib, val_data_loader=None if val is None else T.loader(val, 4), calib_config=cfg)
        if two:
            ctx.event("two-devices")
    finally:
        devices(1)
    after = everything(pm, cx, kind, seed)
    ctx.check(set(before) == set(after), "structure-changed", str(set(before) ^ set(after)))
    bad = [p for p in before if p in after and not np.array_equal(before[p], after[p])]
    ctx.check(not bad, "posterior-changed", f"calibration changed {bad[:4]}")
    ts = {round(log_temp(s.calib_params), 6) for s in c19.members(pm)}
    ctx.check(len(ts) == 1, "members-disagree", f"log temperatures {ts}")
    t = log_temp(c19.members(pm)[0].calib_params)
    ctx.key((method, kind, round(t, 5)))
    got = np.asarray(pm.predictive.sample_calibrated_outputs(ld.to_inputs_loader(), n_output_samples=3, rng=k, distribute=False))
    ctx.close(got, np.asarray(scaled(kind, jnp.asarray(raw), t)), "outputs-scaled", "calibrated outputs are the raw ones, rescaled", rtol=1e-4, atol=1e-5)
    if method == "map":
        mode = np.asarray(pm.predictive.mode(ld.to_inputs_loader(), n_posterior_samples=2, rng=k, distribute=False))
        ctx.equal(mode, raw[0].argmax(-1) if kind == "cls" else raw[0][:, :dim], "prediction-changed", "mode after calibration")

    # replay: which members the ensemble of cached outputs is made of follows from the first loss
    mm = pm.likelihood.model_manager
    if method in ("map", "ensemble", "sghmc", "cyclical"):
        ms = c19.members(pm)
        outs = [np.asarray(mm.apply(params=s.params, inputs=cx, mutable=s.mutable)) for s in ms]
        vouts = None if val is None else [np.asarray(mm.apply(params=s.params, inputs=val[0], mutable=s.mutable)) for s in ms]
        counts = [(n_post,)] if len(ms) == 1 else [(c, n_post - c) for c in range(n_post + 1)]
        batches = [slice(i, i + bs) for i in range(0, n, bs)]

        def make(w, os, ys, size):
            w = jnp.asarray(w, jnp.float32)

            def loss(t, b):
                ll = jnp.stack([loglik(kind, scaled(kind, jnp.take(o, b, 0), t), jnp.take(ys, b, 0)).sum() * size / len(b) for o in os])
                return -(jax.scipy.special.logsumexp(ll, b=w) - jnp.log(w.sum()))

            return loss

        idx = [(jnp.arange(n)[b],) for b in batches]
        best = None
        with np.errstate(all="ignore"):
            for w in counts:
                rt, rl = replay(make(w, outs, jnp.asarray(cy), float(n)), opt, epochs, batches=idx)
                err = np.max(np.abs(np.asarray(rl) - np.asarray(status["loss"])) / (1 + np.abs(rl)))
                if not np.isnan(err) and (best is None or err < best[0]):
                    best = (err, w, rt, rl)
        # two devices: each averages its own half, so only the temperature's direction is comparable
        if not two or len(ms) == 1:
            ctx.event("identified-members")
            ctx.check(best[0] < 2e-3, "loss-trajectory", f"losses {np.asarray(status['loss'])} match no composition of the ensemble; nearest {best[1]}: {best[3]}")
            ctx.close(t, best[2][-1], "temperature-trajectory", f"log temperature ({best[1]} of the members)", rtol=2e-3, atol=5e-4)
        if val is not None and len(ms) == 1:
            f = make((n_post,), vouts, jnp.asarray(val[1]), 8.0)
            want = [np.mean([float(f(jnp.full((1,), u), jnp.arange(8)[s:s + 4])) for s in (0, 4)]) for u in best[2]]
            ctx.close(status["val_loss"], want, "validation-loss", "validation losses", rtol=2e-3, atol=1e-3)
    elif bs == n:
        first = float(status["loss"][0])
        ctx.check(np.isfinite(first) and np.all(np.isfinite(status["loss"])), "loss-finite", str(status["loss"]))

    # calibrating again starts from where calibration ended
    if method == "map" and not two:
        st2 = pm.calibrate(calib, calib_config=CalibConfig(optimizer=CalibOptimizer(method=optax.sgd(1e-3), n_epochs=2), monitor=CalibMonitor(verbose=False),
                                                           processor=CalibProcessor(devices=0, n_posterior_samples=2)))
        rt, rl = replay(make((2,), outs, jnp.asarray(cy), float(n)), optax.sgd(1e-3), 2, t0=t, batches=idx)
        ctx.close(st2["loss"], rl, "second-calibration", "losses of a second calibration", rtol=2e-3, atol=1e-3)
        ctx.check({p: 0 for p in everything(pm, cx, kind, seed)} == {p: 0 for p in before}, "structure-changed", "second calibration")


@suite.scenario(quick=4, thorough=30)
def cached_equals_data(ctx):
    """calibrating a classifier from its cached outputs gives the temperature that calibrating the model gives"""
    x, y = T.data(ctx, "cls", 2, 8)
    pm = c19.build("map", "cls", ctx.integers(0, 1000))
    pm.train(T.loader((x, y), 4), fit_config=T.config(optax.adam(0.1), 3))
    cx, cy = T.data(ctx, "cls", 2, 8)
    ld = T.loader((cx, cy), 8)
    raw = np.asarray(pm.predictive.sample_calibrated_outputs(ld.to_inputs_loader(), n_output_samples=1, distribute=False))[0]
    epochs = ctx.choice([3, 10])
    status = pm.calibrate(ld, calib_config=CalibConfig(optimizer=CalibOptimizer(method=optax.adam(0.1), n_epochs=epochs), monitor=CalibMonitor(verbose=False),
                                                       processor=CalibProcessor(devices=0, n_posterior_samples=ctx.choice([1, 4]))))
    m = OutputCalibClassifier()
    s2 = m.calibrate(raw, cy, loss_fn=lambda o, t: -loglik("cls", o, jnp.asarray(t)).sum(), config=OConfig(
        optimizer=OOptimizer(method=optax.adam(0.1), n_epochs=epochs), monitor=OMonitor(verbose=False), processor=OProcessor(devices=0)))
    ctx.close(status["loss"], s2["loss"], "cached-vs-data", "losses", rtol=1e-3, atol=1e-3)
    a, b = log_temp(pm.posterior.state.get().calib_params), log_temp(m.predictive.state.get().params)
    ctx.close(a, b, "cached-vs-data", "log temperature", rtol=1e-3, atol=1e-3)
    ctx.key(round(a, 5))
    ctx.close(pm.predictive.mean(ld.to_inputs_loader(), n_posterior_samples=1, distribute=False), m.predictive.mean(raw), "cached-vs-data", "probabilities", rtol=1e-3, atol=1e-4)


@suite.scenario(quick=8, thorough=40)
def refused_loaders(ctx):
    """shuffled loaders cannot be aligned with cached outputs; an uncalibrated or untrained model cannot be calibrated"""
    kind = ["cls", "reg"][ctx.i % 2]
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    pm = c19.build("map", kind, 3)
    good = T.loader((x, y), 4)
    ctx.raises(ValueError, lambda: pm.calibrate(good, calib_config=c19.calib_config()), "untrained-calibrated", "calibrate before train")
    pm.train(good, fit_config=T.config(n_epochs=1))
    def batches():
        p = np.random.permutation(8)
        yield x[p], y[p]

    bad = DataLoader.from_callable_iterable(batches)
    t = log_temp(pm.posterior.state.get().calib_params)
    ctx.raises(ValueError, lambda: pm.calibrate(bad, calib_config=c19.calib_config()), "shuffled-accepted", "calibration loader")
    ctx.raises(ValueError, lambda: pm.calibrate(good, val_data_loader=bad, calib_config=c19.calib_config()), "shuffled-accepted", "validation loader")
    ctx.close(log_temp(pm.posterior.state.get().calib_params), t, "refused-changed-state", "temperature")
    ctx.event("refused")
    ctx.key((kind, ctx.i))


@suite.scenario(quick=3, thorough=20)
def mutable_models(ctx):
    """a calibrator with mutable variables: updated once per step, kept through saving, loading and resuming"""
    x, y = T.data(ctx, "cls", 2, 8)
    ld = T.loader((x, y), 4)

    def build(seed):
        pm = ProbClassifier(model=MLP(2, widths=(3,), activations=(nn.tanh,)), output_calibrator=Counting(),
                            posterior_approximator=c19.METHODS[ctx_method](), seed=seed)
        pm.train(ld, fit_config=T.config(n_epochs=1))
        return pm

    ctx_method = ctx.choice(["map", "ensemble"])
    epochs = ctx.choice([1, 3])
    pm = build(0)
    ctx.event("mutable")
    with R.scratch() as root:
        p = os.path.join(root, "a")
        pm.calibrate(ld, calib_config=c19.calib_config(epochs, save_checkpoint_dir=p))
        count = lambda m: [float(T.flat_dict(s.calib_mutable)[("output_calibrator", "stats", "count")]) for s in c19.members(m)]
        ctx.close(count(pm), [2.0 * epochs] * len(c19.members(pm)), "mutable-updates", "training calls counted by the calibrator")
        want = log_temp(c19.members(pm)[0].calib_params)
        ctx.key((ctx_method, round(want, 5)))
        s = os.path.join(root, "s")
        pm.save_state(s)
        two = build(1)
        two.load_state(s)
        ctx.close(count(two), count(pm), "mutable-restored", "after loading")
        ctx.close(log_temp(c19.members(two)[0].calib_params), want, "mutable-restored", "temperature after loading")
        three = build(2)
        three.calibrate(ld, calib_config=c19.calib_config(2, restore_checkpoint_path=p))
        ctx.close(count(three)[0], 2.0 * (epochs + 2), "mutable-resumed", "after resuming")
    k = jax.random.PRNGKey(0)
    a = np.asarray(pm.predictive.sample_calibrated_outputs(ld.to_inputs_loader(), n_output_samples=2, rng=k, distribute=False))
    ctx.check(np.all(np.isfinite(a)), "mutable-predictions", "")


@suite.scenario(quick=8, thorough=60)
def calibration_taken_over(ctx):
    """another model that restores a calibration starts from it, whether the folder holds the calibrator's checkpoints or the dumped state"""
    kind = ["cls", "reg"][ctx.i // 2 % 2]
    method = ["map", "ensemble", "laplace", "advi", "swag", "sghmc"][(ctx.i // 2 + 3 * (ctx.i // 12)) % 6]
    dump, mutable = ctx.i % 2 == 0, kind == "cls" and method == "map" and ctx.i % 4 < 2
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    ld = T.loader((x, y), 4)
    ctx.note(kind=kind, method=method, dump=dump, mutable=mutable)

    def build(seed):
        pm = (ProbClassifier(model=MLP(2, widths=(3,), activations=(nn.tanh,)), output_calibrator=Counting(), posterior_approximator=c19.METHODS[method](), seed=seed)
              if mutable else c19.build(method, kind, seed))
        pm.train(ld, fit_config=T.config(n_epochs=4), **(dict(map_fit_config=T.config(n_epochs=1)) if method in ("laplace", "swag") else {}))
        return pm

    calib = lambda s: {(f,) + k: v for f in ("calib_params", "calib_mutable") if getattr(s, f) is not None for k, v in T.flat_dict(getattr(s, f)).items()}
    with R.scratch() as root:
        p = os.path.join(root, "a")
        pm = build(0)
        pm.calibrate(ld, calib_config=c19.calib_config(ctx.choice([1, 3, 6]), save_checkpoint_dir=p, dump_state=dump, save_every_n_steps=ctx.choice([None, 1])))
        want = calib(c19.members(pm)[0])
        q = build(1)
        raw = T.flat_dict(c19.members(q)[0].params)
        still = CalibConfig(optimizer=CalibOptimizer(method=optax.sgd(0.0), n_epochs=1), monitor=CalibMonitor(verbose=False), processor=CalibProcessor(devices=0),
                            checkpointer=CalibCheckpointer(restore_checkpoint_path=p))
        q.calibrate(ld, calib_config=still)
        for s in c19.members(q):
            got = calib(s)
            ctx.check(set(got) == set(want), "taken-over", f"{method} dump={dump}: {sorted(set(got) ^ set(want))}")
            for k in want:
                ctx.close(got[k], np.asarray(want[k]) + (2 if "count" in k else 0), "taken-over", f"{method} dump={dump} {k}", rtol=1e-6, atol=1e-7)
        if dump:  # the folder also holds the calibrated posterior
            third = (ProbClassifier(model=MLP(2, widths=(3,), activations=(nn.tanh,)), output_calibrator=Counting(), posterior_approximator=c19.METHODS[method](), seed=2)
                     if mutable else c19.build(method, kind, 2))
            third.load_state(p)
            for s, t in zip(c19.members(third), c19.members(pm)):
                for f in ("params", "calib_params"):
                    a, b = T.flat_dict(getattr(s, f)), T.flat_dict(getattr(t, f))
                    ctx.check(set(a) == set(b), "dumped", f"{method} {f}")
                    for k in b:
                        ctx.close(a[k], b[k], "dumped", f"{method} {k}", rtol=1e-6, atol=1e-7)
        for k, v in T.flat_dict(c19.members(q)[0].params).items():
            ctx.close(v, raw[k], "taken-over-parameters", f"{method} dump={dump} {k}", rtol=0, atol=0)
        ctx.key(method, kind, dump, *[np.asarray(v).tobytes() for v in want.values()])
    ctx.event("taken-over-dump" if dump else "taken-over")


@suite.scenario(quick=6, thorough=60)
def shared_folder(ctx):
    """one folder for the posterior state and for the calibration: the result is that of a calibration without folders, in memory and on disk"""
    kind = ["cls", "reg"][ctx.i % 2]
    method = ["map", "ensemble", "laplace", "advi", "swag", "sghmc"][(ctx.i + ctx.i // 6) % 6]
    loaded, dump, epochs, every = ctx.i % 3 == 0, ctx.i // 3 % 2 == 0, ctx.choice([1, 3, 8]), ctx.choice([None, 1])
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    ld = T.loader((x, y), 4)
    ctx.note(kind=kind, method=method, loaded=loaded, dump=dump, epochs=epochs, every=every)

    def fitted(**ck):
        pm = c19.build(method, kind, 0)
        pm.train(ld, fit_config=T.config(n_epochs=4, **ck), **(dict(map_fit_config=T.config(n_epochs=1)) if method in ("laplace", "swag") else {}))
        return pm

    flat = lambda m: [{(f,) + k: np.asarray(v) for f in ("params", "calib_params") for k, v in T.flat_dict(getattr(s, f)).items()} for s in c19.members(m)]
    conf = lambda **ck: c19.calib_config(epochs, **ck)
    plain = fitted()
    raw = flat(plain)
    plain.calibrate(ld, calib_config=conf())
    want = flat(plain)
    ctx.check(any(not np.array_equal(want[0][k], raw[0][k]) for k in raw[0]), "calibration-moves", method)
    with R.scratch() as root:
        d = os.path.join(root, "d")
        pm = fitted(**(dict() if loaded else dict(save_checkpoint_dir=d, dump_state=True)))
        if loaded:
            pm.save_state(d)
            pm.load_state(d)
        pm.calibrate(ld, calib_config=conf(save_checkpoint_dir=os.path.join(root, ".", "d"), dump_state=dump, save_every_n_steps=every))
        other = c19.build(method, kind, 7)
        other.load_state(d)
        for where, m in (("in use", pm), ("on disk", other)):
            got = flat(m)
            ctx.check(len(got) == len(want), "shared-folder", f"{method} {where}: {len(got)} states")
            for i, (g, w) in enumerate(zip(got, want)):
                ctx.check(set(g) == set(w), "shared-folder", f"{method} {where} state {i}: {sorted(set(g) ^ set(w))}")
                for k in w:
                    ctx.close(g[k], w[k], "shared-folder", f"{method} {where} state {i} {k}", rtol=1e-5, atol=1e-6)
        ctx.key(method, *[v.tobytes() for v in want[0].values()])
    ctx.event("shared-folder")


@suite.scenario(quick=4, thorough=60)
def cached_outputs_again(ctx):
    """calibrating from cached outputs a second time gives what a new calibrator gives"""
    kind = ["cls", "reg"][ctx.i % 2]
    dim, n = ctx.integers(2, 3), ctx.choice([6, 12])
    M = OutputCalibClassifier if kind == "cls" else OutputCalibRegressor
    data = []
    for _ in range(2):
        o = ctx.rng.normal(size=(n, dim if kind == "cls" else 2)).astype("float32") * ctx.choice([0.5, 3.0])
        data.append((o, ctx.rng.permutation(np.arange(n) % dim) if kind == "cls" else ctx.rng.normal(size=(n, 1)).astype("float32")))
    cfg = lambda e: OConfig(optimizer=OOptimizer(method=optax.adam(0.1), n_epochs=e), monitor=OMonitor(verbose=False))
    used, new = M(), M()
    used.calibrate(*data[0], config=cfg(3))
    st = [m.calibrate(*data[1], config=cfg(5)) for m in (used, new)]
    u, w = (T.flat_dict(m.predictive.state.get().params) for m in (used, new))
    for k in w:
        ctx.close(u[k], w[k], "cached-again", str(k), rtol=1e-6, atol=1e-7)
    ctx.close(st[0]["loss"], st[1]["loss"], "cached-again", "losses", rtol=1e-6, atol=1e-7)
    ctx.event("cached-again")
    ctx.key(kind, *[np.asarray(v).tobytes() for v in w.values()])
