"""Data-parallel training: what it leaves and reports equals what training on one device does."""
from vf.props import trainrig as T  # before jax

import importlib
import os
import tempfile

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax

from fortuna.calib_model import CalibClassifier, CalibRegressor
from fortuna.calib_model import Checkpointer as CCheckpointer, Config as CConfig, Hyperparameters as CHyperparameters, Monitor as CMonitor, Optimizer as COptimizer, Processor as CProcessor
from fortuna.output_calib_model import OutputCalibClassifier, OutputCalibRegressor
from fortuna.output_calib_model import Checkpointer as OCheckpointer, Config as OConfig, Monitor as OMonitor, Optimizer as OOptimizer, Processor as OProcessor
from fortuna.prob_model import (ADVIPosteriorApproximator, CyclicalSGLDPosteriorApproximator, DeepEnsemblePosteriorApproximator,
                                LaplacePosteriorApproximator, MAPPosteriorApproximator, ProbClassifier, ProbRegressor, SGHMCPosteriorApproximator,
                                SNGPPosteriorApproximator, SWAGPosteriorApproximator)
from fortuna.prob_model import CalibCheckpointer, CalibConfig, CalibMonitor, CalibOptimizer, CalibProcessor
from fortuna.model.mlp import MLP, MLPDeepFeatureExtractorSubNet
from fortuna.model.utils.spectral_norm import WithSpectralNorm
from fortuna.utils.device import select_trainer_given_devices
from vf.core import Suite

suite = Suite(
    "C46",
    rule="case = (approximation or calibrator, data, frozen parameters, metrics, validation, checkpoints, continuing) run on one and on two devices; distinct = final states",
    assumptions=["two emulated CPU devices", "metrics are means over examples", "networks without batch statistics or dropout, which depend on how batches are split",
                 "the variational spread is tiny so that samples do not depend on per-device random keys"],
    required={"map": 4, "advi": 4, "ensemble": 2, "swag": 4, "chain": 4, "laplace": 2, "frozen": 6, "metrics": 8, "validated": 8, "checkpointed": 6, "continued": 6, "stopped-early": 1,
              "calibrator": 10, "calibrator-two": 4, "metric-checked": 20, "calibrated-checkpoint": 10, "statistics": 4, "sngp": 3, "tuned": 4},
)

APPROX = {
    "map": lambda: MAPPosteriorApproximator(),
    "advi": lambda: ADVIPosteriorApproximator(log_std_base=-16.0, std_init_params=0.5, n_loss_samples=2),
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "laplace": lambda: LaplacePosteriorApproximator(),
    "swag": lambda: SWAGPosteriorApproximator(rank=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2, step_schedule=lambda s: 1e-4),
    "sgld": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-4),
}
class Extractor(WithSpectralNorm, MLPDeepFeatureExtractorSubNet):
    pass


WHERE = ["prob_model.posterior.map.map_posterior", "prob_model.posterior.swag.swag_posterior", "prob_model.posterior.normalizing_flow.advi.advi_posterior",
         "prob_model.posterior.deep_ensemble.deep_ensemble_posterior", "prob_model.posterior.sgmcmc.sghmc.sghmc_posterior",
         "prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_posterior", "prob_model.base", "output_calib_model.base", "calib_model.base"]


def use(n):
    f = (lambda multi_device_trainer_cls, **kw: multi_device_trainer_cls) if n == 2 else select_trainer_given_devices
    for w in WHERE:
        importlib.import_module("fortuna." + w).select_trainer_given_devices = f


def hits(p, t):
    return (p == t).mean()


def error(p, t):
    return ((p - t) ** 2).mean()


def outputs_only(path, value):
    return "trainable" if "output_subnet" in path else "frozen"


def states(pm, name):
    return [pm.posterior.state.get(i) for i in range(2)] if name in ("ensemble", "sghmc", "sgld") else [pm.posterior.state.get()]


def summary(s):
    """everything in a state that a user can see"""
    out = {("step",): np.asarray(s.step)}
    for a in ("params", "mutable", "calib_params", "calib_mutable", "mean", "std", "dev", "frozen_params"):
        if getattr(s, a, None) is not None:
            for k, v in T.flat_dict(T.host(getattr(s, a)), (a,)).items():
                out[k] = v
    return out


def compare(ctx, got, want, mech, msg="", rtol=2e-3, atol=2e-4):
    ctx.check(got.keys() == want.keys(), mech + "-structure", f"{msg} {sorted(map(str, got.keys() ^ want.keys()))[:6]}")
    for k in want:
        ctx.close(got[k], want[k], mech, msg=f"{msg} {k}", rtol=rtol, atol=atol)


@suite.scenario(quick=32, thorough=400)
def approximations(ctx):
    """the same run on one device and on two"""
    name = ["map", "advi", "swag", "sghmc", "ensemble", "advi", "swag", "laplace", "sgld"][ctx.i % 9]
    kind = ctx.choice(["cls", "cls", "reg"])
    frozen = ctx.rng.random() < 0.4
    metrics = ctx.choice([None, (hits,) if kind == "cls" else (error,)])
    val = ctx.rng.random() < 0.6
    every = ctx.choice([1, 2])
    store = ctx.rng.random() < 0.5
    steps = ctx.choice([None, 2])
    again = ctx.rng.random() < 0.5
    clip = ctx.choice([None, 0.5])
    accum = ctx.choice([None, None, 2]) if name in ("map", "ensemble") else None
    method = ctx.choice([optax.sgd(1e-3), optax.adam(1e-2, eps=0.1)])
    seed = ctx.integers(0, 50)
    patience = 1 if val and every == 1 and ctx.rng.random() < 0.3 else 0
    xy, v = T.data(ctx, kind, 2 if kind == "cls" else 1, 16), T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    n_epochs = {"swag": 4, "sghmc": 4, "sgld": 8}.get(name, 3)
    ctx.note(name=name, kind=kind, frozen=frozen, metrics=metrics is not None, val=val, every=every, store=store, steps=steps, again=again, clip=clip, accumulation=accum, patience=patience)

    def run(n, d):
        pm = T.make(kind, 2 if kind == "cls" else 1, approx=APPROX[name](), seed=seed)
        use(n)
        out = {}
        try:
            mon = dict(metrics=metrics, eval_every_n_epochs=every)
            if patience:
                mon.update(early_stopping_patience=patience, early_stopping_min_delta=1e6)
            ck = dict(save_checkpoint_dir=d, keep_top_n_checkpoints=20, save_every_n_steps=steps, dump_state=True) if store else {}
            kw = {}
            if name in ("swag", "laplace") or frozen and name != "map":
                kw["map_fit_config"] = T.config(method, 2, devices=-1)
            fc = dict(method=method, n_epochs=n_epochs, freeze_fun=outputs_only if frozen else None, max_grad_norm=clip, accumulation=accum, devices=-1)
            val_l = dict(val_data_loader=T.loader(v, 4)) if val else {}
            out["status"] = pm.train(T.loader(xy, 4), fit_config=T.config(monitor=mon, **fc, **ck), **val_l, **kw)["fit_status"]
            out["states"] = [summary(s) for s in states(pm, name)]
            if again and name != "laplace":
                out["status2"] = pm.train(T.loader(xy, 8), fit_config=T.config(monitor=mon, **fc, start_from_current_state=True), **val_l)["fit_status"]
                out["states2"] = [summary(s) for s in states(pm, name)]
        finally:
            use(1)
        if store:
            out["files"] = sorted(os.path.relpath(os.path.join(r, f), d) for r, ds, fs in os.walk(d) for f in ds + fs if f.startswith("checkpoint"))
            q = T.make(kind, 2 if kind == "cls" else 1, approx=APPROX[name](), seed=seed)
            q.load_state(d)
            out["loaded"] = [summary(s) for s in states(q, name)]
        x = xy[0]
        s = pm.posterior.sample(rng=jax.random.PRNGKey(3), inputs=x[:4])
        out["sample"] = T.flat_dict(T.host(s.params))
        out["mean"] = np.asarray(pm.predictive.mean(T.loader((x, xy[1]), 8).to_inputs_loader(), n_posterior_samples=4, rng=jax.random.PRNGKey(5)))
        return out

    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        one, two = run(1, a + "/m"), run(2, b + "/m")
    for st in ("status", "status2"):
        if st not in one:
            continue
        s1, s2 = ([x[st]] if isinstance(x[st], dict) else x[st] for x in (one, two))
        s1, s2 = ({(i,) + k: w for i, d in enumerate(s) if d for k, w in T.flat_dict(d).items()} for s in (s1, s2))
        compare(ctx, s2, s1, "status", name, rtol=5e-3, atol=1e-3)
        if val and name != "laplace":
            ctx.check(any("val_loss" in k for k in s1), "validated", str(sorted(s1)))
            ctx.event("validated")
        if metrics and name != "laplace":
            ctx.check(any(metrics[0].__name__ in k for k in s1), "metrics", str(sorted(s1)))
            ctx.event("metrics")
        if patience and name not in ("laplace", "sghmc", "sgld"):
            ctx.event("stopped-early")
    for st in ("states", "states2", "loaded"):
        if st in one:
            for i, (x, y) in enumerate(zip(one[st], two[st])):
                compare(ctx, y, x, st, f"{name} {i}")
    if store:
        ctx.equal(two["files"], one["files"], "files")
        ctx.event("checkpointed")
    compare(ctx, two["sample"], one["sample"], "sample", name)
    ctx.close(two["mean"], one["mean"], "prediction", rtol=5e-3, atol=1e-3)
    if frozen:
        ctx.event("frozen")
    if "states2" in one:
        ctx.event("continued")
    ctx.key(name, *[w.tobytes() for w in one["states"][0].values()])
    ctx.event("chain" if name in ("sghmc", "sgld") else name)


class Watch:
    """a metric that keeps what it is called with"""
    def __init__(self):
        self.calls, self.__name__ = [], "watch"

    def __call__(self, preds, uncertainties, targets):
        self.calls.append(tuple(np.asarray(a) for a in (preds, uncertainties, targets)))
        return (self.calls[-1][0] == self.calls[-1][2]).mean() if self.calls[-1][0].shape == self.calls[-1][2].shape else np.float32(np.nan)


def checkpoint_steps(d):
    return sorted(int(f.split("_")[1]) for f in os.listdir(d)) if os.path.isdir(d) else []


@suite.scenario(quick=16, thorough=250)
def calibrators(ctx):
    """calibration: what metrics are given, which checkpoints are left, on one and two devices"""
    whole = ctx.i % 2 == 0  # the outputs of a model are calibrated by hand, or the model itself
    kind = ctx.choice(["cls", "cls", "reg"])
    dim = ctx.choice([2, 3]) if kind == "cls" else 1
    two = (ctx.i // 2) % 2 == 1
    epochs, every = ctx.choice([2, 4, 5]), ctx.choice([None, 1, 2, 3])
    val = ctx.rng.random() < 0.7
    eval_every = ctx.choice([1, 1, 2])
    off = ctx.rng.random() < 0.2
    own = ctx.rng.random() < 0.4
    verbose = ctx.rng.random() < 0.4
    jit = two or ctx.rng.random() < 0.7
    n, bs, m, vbs = 12, ctx.choice([12, 4]) if not whole else 12, 8, ctx.choice([8, 4]) if not whole else 8
    xy, v = T.data(ctx, kind, dim, n), T.data(ctx, kind, dim, m)
    ctx.note(whole=whole, kind=kind, dim=dim, two=two, epochs=epochs, every=every, val=val, eval_every=eval_every, off=off, own_uncertainty=own, verbose=verbose, jit=jit, batch=bs)
    watch = Watch()
    unc = (lambda o: o[..., 0] * 2.0) if own else None
    opt = optax.adam(0.1)
    if whole:
        o, vo = ((ctx.rng.normal(size=(k, dim if kind == "cls" else 2)) * 2).astype("float32") for k in (n, m))
        pm = (OutputCalibClassifier if kind == "cls" else OutputCalibRegressor)(seed=ctx.integers(0, 50))
        mon = OMonitor(metrics=(watch,), uncertainty_fn=unc, eval_every_n_epochs=eval_every, disable_calibration_metrics_computation=off, verbose=verbose)
    else:
        pm = T.make(kind, dim, seed=ctx.integers(0, 50))
        pm.train(T.loader(xy, 4), fit_config=T.config(n_epochs=1))
        s = pm.posterior.state.get()
        mm = pm.likelihood.model_manager
        o, vo = (np.asarray(mm.apply(params=s.params, inputs=z, mutable=s.mutable)) for z in (xy[0], v[0]))
        mon = CalibMonitor(metrics=(watch,), uncertainty_fn=unc, eval_every_n_epochs=eval_every, disable_calibration_metrics_computation=off, verbose=verbose)
    with tempfile.TemporaryDirectory() as d:
        use(2 if two else 1)
        try:
            if whole:
                cfg = OConfig(optimizer=OOptimizer(method=opt, n_epochs=epochs), monitor=mon, processor=OProcessor(devices=-1 if jit else 0, disable_jit=not jit),
                              checkpointer=OCheckpointer(save_checkpoint_dir=d + "/c", save_every_n_steps=every, keep_top_n_checkpoints=100))
                status = pm.calibrate(o, xy[1], config=cfg, **(dict(val_outputs=vo, val_targets=v[1]) if val else {}))
            else:
                cfg = CalibConfig(optimizer=CalibOptimizer(method=opt, n_epochs=epochs), monitor=mon,
                                  processor=CalibProcessor(devices=-1 if jit else 0, disable_jit=not jit, n_posterior_samples=2),
                                  checkpointer=CalibCheckpointer(save_checkpoint_dir=d + "/c", save_every_n_steps=every, keep_top_n_checkpoints=100))
                status = pm.calibrate(T.loader(xy, bs), val_data_loader=T.loader(v, vbs) if val else None, calib_config=cfg)
        finally:
            use(1)
        per = n // bs
        total = epochs * per
        want = {total} | ({s for s in range(1, total + 1) if s % every == 0} if every else set())
        ctx.check(checkpoint_steps(d + "/c") == sorted(want), "checkpoints", f"{checkpoint_steps(d + '/c')} instead of {sorted(want)}")
        q = OutputCalibClassifier() if whole else pm.posterior
        temps = {s: float(np.ravel(T.flat_dict(q.restore_checkpoint(f"{d}/c/checkpoint_{s}").params)[("output_calibrator", "params", "log_temp")])[0]) for s in want}
    ctx.event("calibrated-checkpoint")
    # the schedule of metric calls: all batches of an epoch, then those of the validation data
    sched = []
    for e in range(epochs):
        sched += [("train", e * per + b, slice(b * bs, (b + 1) * bs)) for b in range(per) if not off]
        if val and e % eval_every == 0:
            sched += [("val", (e + 1) * per, slice(b * vbs, (b + 1) * vbs)) for b in range(m // vbs)]
    ctx.equal(len(watch.calls), len(sched), "metric-calls")
    known = dict(temps)
    known[0] = 0.0
    scores = {}
    for (phase, step, sl), (p, u, t) in zip(sched, watch.calls):
        raw, ys = (o, xy[1]) if phase == "train" else (vo, v[1])
        raw, ys = raw[sl], np.asarray(ys[sl])
        ctx.check(t.shape == ys.shape and np.array_equal(t, ys), "metric-targets", f"{phase} step {step}: shapes {t.shape} {ys.shape}")
        if kind == "cls":
            ctx.check(p.shape == ys.shape and np.array_equal(p, raw.argmax(1)), "metric-predictions", f"{phase} step {step}: shapes {p.shape} {ys.shape}")
        else:
            ctx.close(p, raw[:, :dim], "metric-predictions", rtol=1e-4, atol=1e-5)
        if step in known:
            k = np.exp(-known[step]) if kind == "cls" else None
            if kind == "cls":
                sc = raw * k
                ctx.close(u, 2 * sc[:, 0] if own else np.exp(sc - np.logaddexp.reduce(sc, axis=1, keepdims=True)), "metric-uncertainties", msg=f"{phase} {step}", rtol=1e-3, atol=1e-4)
            else:
                ctx.close(u, 2 * raw[:, 0] if own else np.exp(raw[:, dim:] + known[step]), "metric-uncertainties", msg=f"{phase} {step}", rtol=1e-3, atol=1e-4)
            ctx.event("metric-checked")
        scores.setdefault(("val_" if phase == "val" else "") + "watch", {}).setdefault(step if phase == "val" else step // per, []).append(float((p == t).mean()))
    names = {"loss"} | ({"watch"} if not off else set()) | ({"val_loss", "val_watch"} if val else set())
    ctx.check(set(status) == names, "status", str(sorted(status)))
    for k, w in scores.items():
        ctx.close(np.asarray(status[k]), np.array([np.mean(x) for x in w.values()], "float32"), "status-value", msg=k, rtol=1e-4, atol=1e-5)
    ctx.event("calibrator")
    if two:
        ctx.event("calibrator-two")
    ctx.key(whole, kind, np.asarray(status["loss"]).tobytes())


@suite.scenario(quick=4, thorough=60)
def running_statistics(ctx):
    """batch statistics of the devices are averaged, in memory as in checkpoints"""
    name = ["map", "ensemble", "swag", "map"][ctx.i % 4]
    kind = "cls"
    xy, v = T.data(ctx, kind, 2, 16), T.data(ctx, kind, 2, 8)
    val = ctx.rng.random() < 0.5
    n_epochs = 3
    ctx.note(name=name, val=val)
    with tempfile.TemporaryDirectory() as d:
        pm = T.make(kind, 2, approx=APPROX[name](), seed=ctx.integers(0, 50), model=T.Net(2))
        use(2)
        try:
            kw = dict(map_fit_config=T.config(optax.sgd(0.0), 1, devices=-1)) if name == "swag" else {}
            pm.train(T.loader(xy, 8), val_data_loader=T.loader(v, 4) if val else None,
                     fit_config=T.config(optax.sgd(0.0), n_epochs, devices=-1, save_checkpoint_dir=d + "/m"), **kw)
        finally:
            use(1)
        for i, s in enumerate(states(pm, name)):
            p, m = T.flat_dict(T.host(s.params)), T.flat_dict(T.host(s.mutable))
            act = xy[0] @ p["model", "params", "Dense_0", "kernel"] + p["model", "params", "Dense_0", "bias"]
            mean, var = np.zeros((2, 4)), np.ones((2, 4))
            for _ in range(n_epochs + (name == "swag")):
                for b in (0, 8):
                    for j in (0, 1):
                        a = act[b + 4 * j:b + 4 * j + 4]
                        mean[j], var[j] = 0.9 * mean[j] + 0.1 * a.mean(0), 0.9 * var[j] + 0.1 * a.var(0)
            for k, w in m.items():
                ctx.close(w, (mean if "mean" in k else var).mean(0), "running-statistics", msg=f"{name} {k}", rtol=1e-4, atol=1e-5)
            q = pm.posterior.restore_checkpoint(d + "/m" + (f"/{i}" if name == "ensemble" else ""))
            m2 = T.flat_dict(T.host(q.mutable))
            for k in m:
                ctx.close(m2[k], m[k], "stored-statistics", msg=f"{name} {k}", rtol=1e-5, atol=1e-6)
    ctx.key(name, *[w.tobytes() for w in m.values()])
    ctx.event("statistics")


@suite.scenario(quick=3, thorough=40)
def gaussian_process_heads(ctx):
    """SNGP: every device adds its share of the data to the covariance, and predictions are those of one device"""
    momentum = [None, 0.9, None][ctx.i % 3]
    ridge, val, store = ctx.choice([0.5, 1.0]), ctx.rng.random() < 0.5, ctx.i % 2 == 0
    seed, bs = ctx.integers(0, 50), ctx.choice([4, 8])
    xy, v = T.data(ctx, "cls", 2, 16), T.data(ctx, "cls", 2, 8)
    ctx.note(momentum=momentum, ridge=ridge, val=val, batch=bs, store=store)
    make = lambda: T.make("cls", 2, seed=seed, model=Extractor(dense=nn.Dense, widths=(4,), activations=(nn.tanh,)), approx=SNGPPosteriorApproximator(
        output_dim=2, gp_hidden_features=8, ridge_penalty=ridge, momentum=momentum))

    def run(n, d):
        pm = make()
        use(n)
        try:
            st = pm.train(T.loader(xy, bs), val_data_loader=T.loader(v, 4) if val else None, fit_config=T.config(
                optax.sgd(1e-3), 3, devices=-1, monitor=dict(metrics=(hits,)), **(dict(save_checkpoint_dir=d, dump_state=True) if store else {})))["fit_status"]
        finally:
            use(1)
        out = dict(status={(k,): np.asarray(w) for k, w in st.items()}, state=summary(pm.posterior.state.get()))
        if store:
            q = make()
            q.load_state(d)
            out["loaded"] = summary(q.posterior.state.get())
        out["mean"] = np.asarray(pm.predictive.mean(T.loader(xy, 8).to_inputs_loader(), n_posterior_samples=2))
        return out

    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        one, two = run(1, a + "/m"), run(2, b + "/m")
    for k in ("state", "loaded", "status"):
        if k in one:
            compare(ctx, two[k], one[k], "gp-" + k, rtol=5e-3, atol=1e-3)
    ctx.close(two["mean"], one["mean"], "gp-prediction", rtol=3e-3, atol=1e-3)
    ctx.event("sngp")
    ctx.key(one["mean"])


def hits3(p, u, t):
    return (p == t).mean()


def error3(p, u, t):
    return ((p - t) ** 2).mean()


@suite.scenario(quick=4, thorough=60)
def calibration_models(ctx):
    """models fine-tuned for calibration, on one device and on two"""
    kind = ["cls", "reg"][ctx.i % 2]
    d, bs = 2 if kind == "cls" else 1, ctx.choice([4, 8])
    frozen, val, clip, accum = ctx.rng.random() < 0.4, ctx.rng.random() < 0.7, ctx.choice([None, 0.3]), ctx.choice([None, None, 2])
    every, again, seed = ctx.choice([None, 2]), ctx.i % 4 >= 2, ctx.integers(0, 50)
    xy, v = T.data(ctx, kind, d, 16), T.data(ctx, kind, d, 8)
    method = ctx.choice([optax.sgd(0.05), optax.adam(1e-2, eps=0.1)])
    ctx.note(kind=kind, frozen=frozen, val=val, clip=clip, accumulation=accum, every=every, again=again, batch=bs)
    net = lambda: MLP(d, widths=(3,), activations=(nn.tanh,))

    def run(n, folder):
        m = CalibClassifier(model=net(), seed=seed) if kind == "cls" else CalibRegressor(model=net(), likelihood_log_variance_model=net(), seed=seed)
        use(n)
        out = dict(status={}, state={})
        try:
            for r in range(1 + again):
                st = m.calibrate(T.loader(xy, bs), val_data_loader=T.loader(v, 4) if val else None, config=CConfig(
                    optimizer=COptimizer(method=method, n_epochs=3, freeze_fun=outputs_only if frozen else None),
                    monitor=CMonitor(verbose=False, metrics=(hits3 if kind == "cls" else error3,)), processor=CProcessor(devices=-1),
                    checkpointer=CCheckpointer(save_checkpoint_dir=f"{folder}/{r}", save_every_n_steps=every, keep_top_n_checkpoints=50, start_from_current_state=r > 0),
                    hyperparameters=CHyperparameters(max_grad_norm=clip, gradient_accumulation_steps=accum)))
                out["status"].update({(r, k): np.asarray(w) for k, w in st.items()})
                out["state"].update({(r,) + k: w for k, w in summary(m.predictive.state.get()).items()})
        finally:
            use(1)
        out["files"] = [(r, checkpoint_steps(f"{folder}/{r}")) for r in range(1 + again)]
        out["mean"] = np.asarray(m.predictive.mean(T.loader(xy, 8).to_inputs_loader()))
        return out

    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        one, two = run(1, a), run(2, b)
    names = {"loss", "hits3" if kind == "cls" else "error3"}
    ctx.check({k for _, k in one["status"]} == names | ({"val_" + k for k in names} if val else set()), "status", str(sorted(one["status"])))
    for k in ("state", "status"):
        compare(ctx, two[k], one[k], "tuned-" + k, rtol=3e-3, atol=2e-4)
    ctx.check(one["files"] == two["files"] and all(f for _, f in one["files"]), "tuned-files", f"{one['files']} {two['files']}")
    ctx.close(two["mean"], one["mean"], "tuned-prediction", rtol=2e-3, atol=2e-4)
    ctx.event("tuned")
    ctx.key(one["mean"])
