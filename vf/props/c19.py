import os

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax

from fortuna.calib_model import CalibClassifier, CalibRegressor
from fortuna.calib_model import Checkpointer as CCheckpointer, Config as CConfig, Monitor as CMonitor, Optimizer as COptimizer, Processor as CProcessor
from fortuna.model.mlp import MLP, MLPDeepFeatureExtractorSubNet
from fortuna.model.utils.spectral_norm import WithSpectralNorm
from fortuna.output_calib_model import (OutputCalibClassifier, OutputCalibRegressor)
from fortuna.output_calib_model import Checkpointer as OCheckpointer, Config as OConfig, Monitor as OMonitor, Optimizer as OOptimizer, Processor as OProcessor
from fortuna.prob_model import (ADVIPosteriorApproximator, CalibConfig, CyclicalSGLDPosteriorApproximator, DeepEnsemblePosteriorApproximator,
                                LaplacePosteriorApproximator, MAPPosteriorApproximator, SGHMCPosteriorApproximator, SNGPPosteriorApproximator,
                                SWAGPosteriorApproximator)
from fortuna.prob_model import CalibCheckpointer, CalibMonitor, CalibOptimizer, CalibProcessor
from vf.core import Suite
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C19",
    rule="case = (posterior approximation, model kind, frozen subset, way of saving) trained, saved and loaded into a fresh model; distinct = distinct predictions",
    assumptions=["the fresh model has the same architecture and approximation settings, another seed"],
    required={**{"kind:" + k: 1 for k in ("map", "advi", "laplace", "swag", "ensemble", "sghmc", "cyclical", "sngp")},
              "frozen": 3, "calibrated": 3, "way:save": 4, "way:dump": 4, "calib-model": 3, "missing": 4, "saved-twice": 3, "in-memory": 6},
)
METHODS = {
    "map": MAPPosteriorApproximator,
    "advi": ADVIPosteriorApproximator,
    "laplace": lambda: LaplacePosteriorApproximator(tune_prior_log_variance=False),
    "swag": lambda: SWAGPosteriorApproximator(rank=2),
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2, step_schedule=1e-3),
    "cyclical": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-3, exploration_ratio=0.25),
    "sngp": lambda: SNGPPosteriorApproximator(output_dim=2, gp_hidden_features=8),
}


class Extractor(WithSpectralNorm, MLPDeepFeatureExtractorSubNet):
    pass


def build(method, kind, seed, net=None):
    if method == "sngp":
        net = Extractor(dense=nn.Dense, widths=(4, 3), activations=(nn.tanh, nn.tanh))
    return T.make(kind, 2 if kind == "cls" else 1, METHODS[method](), seed=seed, model=net)


def calib_config(n=2, **ck):
    return CalibConfig(optimizer=CalibOptimizer(method=optax.adam(0.1), n_epochs=n), monitor=CalibMonitor(verbose=False),
                       processor=CalibProcessor(devices=0), checkpointer=CalibCheckpointer(**ck))


def arrays(state):
    """every array of a state that determines predictions"""
    out = {}
    for f in ("params", "mutable", "calib_params", "calib_mutable"):
        v = getattr(state, f, None)
        out.update({(f,) + k: a for k, a in T.flat_dict(v).items()} if v is not None else {})
    for f in ("mean", "std", "dev", "prior_log_var"):
        if getattr(state, f, None) is not None:
            out[(f,)] = np.asarray(getattr(state, f))
    return out


def members(pm):
    s = pm.posterior.state
    return [s.get(i) for i in range(s.size)] if hasattr(s, "size") else [s.get()]


def predictions(pm, x, kind, seed):
    k = jax.random.PRNGKey(seed)
    ld = T.loader((x, np.zeros(len(x), int)), 5).to_inputs_loader()
    out = {"mean": pm.predictive.mean(ld, n_posterior_samples=4, rng=k, distribute=False)}
    draws = [arrays(pm.posterior.sample(rng=jax.random.PRNGKey(seed + i), inputs=x)) for i in range(3)]
    for i, d in enumerate(draws):
        out.update({("draw", i) + p: a for p, a in d.items()})
    return {p: np.asarray(a) for p, a in out.items()}


def same(ctx, a, b, mech):
    ctx.check(set(a) == set(b), mech + ":structure", str(set(a) ^ set(b)))
    bad = [p for p in a if p in b and not (np.shape(a[p]) == np.shape(b[p]) and np.allclose(a[p], b[p], rtol=1e-5, atol=1e-6))]
    ctx.check(not bad, mech, str(bad[:4]))


@suite.scenario(quick=18, thorough=160)
def load_gives_the_same_posterior(ctx):
    order = list(METHODS)
    method = order[ctx.i % len(order)]
    kind = "cls" if method == "sngp" else ctx.choice(["cls", "reg"])
    name, fz, test = R.freeze(ctx) if method != "sngp" else ("none", None, None)
    way = ctx.choice(["save", "dump"])
    seed = ctx.integers(0, 1000)
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 12)
    train = T.loader((x, y), 4)
    n_epochs = 3
    pm = build(method, kind, seed)
    ctx.note(method=method, kind=kind, freeze=name, way=way)
    ctx.event("kind:" + method)
    ctx.event("way:" + way)
    if fz:
        ctx.event("frozen")
    with R.scratch() as root:
        path = os.path.join(root, "state")
        ck = dict(save_checkpoint_dir=path, dump_state=True, keep_top_n_checkpoints=ctx.choice([1, 3])) if way == "dump" else {}
        needs_map = method in ("laplace", "swag") or (fz is not None and method in ("advi", "sghmc", "cyclical", "ensemble"))
        kw = dict(map_fit_config=T.config(n_epochs=1)) if needs_map else {}
        pm.train(train, fit_config=T.config(optax.adam(1e-2) if method not in ("sghmc", "cyclical") else None, n_epochs, freeze_fun=fz, **ck), **kw)
        if way == "save":
            pm.save_state(path)
        want = predictions(pm, x, kind, seed)
        mine = [arrays(s) for s in members(pm)]

        other = build(method, kind, seed + 1)
        other.load_state(path)
        got = [arrays(s) for s in members(other)]
        ctx.check(len(got) == len(mine), "every-member-restored")
        for a, b in zip(mine, got):
            same(ctx, a, b, "state-restored")
        same(ctx, want, predictions(other, x, kind, seed), "predictions-restored")
        same(ctx, want, predictions(pm, x, kind, seed), "saving-changes-nothing")
        ctx.key(want["mean"])

        if ctx.rng.random() < 0.5:
            ctx.event("saved-twice")
            # saving again from the loaded model, and loading that, changes nothing
            p3 = os.path.join(root, "third")
            other.save_state(p3)
            other.save_state(p3)
            four = build(method, kind, seed + 4)
            four.load_state(p3)
            same(ctx, want, predictions(four, x, kind, seed), "saved-again-restored")

        # calibrate the loaded model, save elsewhere, load again; a loaded model stays
        # backed by its directory, which follows its calibration
        if ctx.rng.random() < 0.6:
            ctx.event("calibrated")
            two = build(method, kind, seed + 2)
            two.load_state(path)
            two.calibrate(train, calib_config=calib_config())
            w2 = predictions(two, x, kind, seed)
            p2 = os.path.join(root, "second")
            two.save_state(p2)
            three = build(method, kind, seed + 3)
            three.load_state(p2)
            same(ctx, w2, predictions(three, x, kind, seed), "calibrated-state-restored")
            ctx.check(not np.allclose(np.concatenate([a.reshape(-1) for p, a in w2.items() if "calib_params" in p]),
                                      np.concatenate([a.reshape(-1) for p, a in want.items() if "calib_params" in p])), "calibration-moved-something")


@suite.scenario(quick=2, thorough=20)
def mutable_models(ctx):
    """batch statistics travel with the state"""
    seed = ctx.integers(0, 1000)
    method = ["map", "ensemble"][ctx.i % 2]
    net = T.Net(2)
    x, y = T.data(ctx, "cls", 2, 12)
    pm = build(method, "cls", seed, net)
    pm.train(T.loader((x, y), 6), fit_config=T.config(n_epochs=2))
    want = predictions(pm, x, "cls", seed)
    ctx.check(any("mutable" in p for p in want), "has-mutable")
    with R.scratch() as root:
        pm.save_state(root)
        other = build(method, "cls", seed + 1, net)
        other.load_state(root)
        same(ctx, want, predictions(other, x, "cls", seed), "predictions-restored")
    ctx.key(want["mean"])


@suite.scenario(quick=8, thorough=40)
def missing_checkpoints(ctx):
    method = list(METHODS)[ctx.i % 8]
    ctx.note(method=method)
    ctx.event("missing")
    with R.scratch() as root:
        pm = build(method, "cls", 0)
        ctx.raises(ValueError, lambda: pm.load_state(os.path.join(root, "nothing")), "missing-checkpoint-rejected")
        if ctx.rng.random() < 0.5:
            os.makedirs(os.path.join(root, "empty"))
            ctx.raises(ValueError, lambda: pm.load_state(os.path.join(root, "empty")), "empty-directory-rejected")
    ctx.key(method, ctx.rng.integers(1 << 30))


@suite.scenario(quick=6, thorough=60)
def calibration_models(ctx):
    which = ["calib-cls", "calib-reg", "output-cls", "output-reg"][ctx.i % 4]
    kind = which[-3:]
    way = ctx.choice(["save", "dump"])
    seed, dim, n = ctx.integers(0, 1000), (2 if kind == "cls" else 1), 12
    x, y = T.data(ctx, kind, dim, n)
    ctx.note(which=which, way=way)
    ctx.event("calib-model")
    outputs = (ctx.rng.normal(size=(n, dim if kind == "cls" else 2 * dim))).astype(np.float32)
    ld = T.loader((x, y), 5)

    def make(s):
        net = MLP(dim, widths=(3,), activations=(nn.tanh,))
        return {"calib-cls": lambda: CalibClassifier(model=net, seed=s),
                "calib-reg": lambda: CalibRegressor(model=net, likelihood_log_variance_model=MLP(dim, widths=(2,), activations=(nn.tanh,)), seed=s),
                "output-cls": lambda: OutputCalibClassifier(seed=s),
                "output-reg": lambda: OutputCalibRegressor(seed=s)}[which]()

    def cfg(**ck):
        if which.startswith("calib"):
            return CConfig(optimizer=COptimizer(method=optax.adam(0.05), n_epochs=3), monitor=CMonitor(verbose=False), processor=CProcessor(devices=0),
                           checkpointer=CCheckpointer(**ck))
        return OConfig(optimizer=OOptimizer(method=optax.adam(0.05), n_epochs=3), monitor=OMonitor(verbose=False), processor=OProcessor(devices=0),
                       checkpointer=OCheckpointer(**ck))

    def predict(m):
        if which.startswith("calib"):
            return np.asarray(m.predictive.mean(ld.to_inputs_loader()))
        return np.asarray(m.predictive.mean(outputs, calibrated=True)), np.asarray(m.predictive.log_prob(outputs, y))

    with R.scratch() as root:
        path = os.path.join(root, "s")
        m = make(seed)
        ck = dict(save_checkpoint_dir=path, dump_state=True) if way == "dump" else {}
        if which.startswith("calib"):
            m.calibrate(ld, config=cfg(**ck))
        else:
            m.calibrate(calib_outputs=outputs, calib_targets=y, config=cfg(**ck))
        if way == "save":
            m.save_state(path)
        want = predict(m)
        o = make(seed + 1)
        o.load_state(path)
        got = predict(o)
        for a, b in zip(want if isinstance(want, tuple) else (want,), got if isinstance(got, tuple) else (got,)):
            ctx.close(b, a, "predictions-restored:" + which, rtol=1e-5, atol=1e-6)
        ctx.raises(ValueError, lambda: make(0).load_state(os.path.join(root, "nothing")), "missing-checkpoint-rejected:" + which)
        ctx.key(*(want if isinstance(want, tuple) else (want,)))


@suite.scenario(quick=6, thorough=60)
def memory_or_folder(ctx):
    """a state that was not dumped lives in memory: what later happens to the folder of checkpoints does not reach it; a dumped state lives in the folder"""
    method = ["map", "advi", "swag", "ensemble", "sngp"][ctx.i % 5]  # the others always live in the folder
    name, fz, _ = R.freeze(ctx) if method != "sngp" and ctx.i // 5 % 2 else ("none", None, None)
    x, y = T.data(ctx, "cls", 2, 8)
    kw = dict(map_fit_config=T.config(n_epochs=1)) if method == "swag" or (fz is not None and method in ("advi", "ensemble")) else {}
    ctx.note(method=method, freeze=name)
    with R.scratch() as root:
        for dump in (False, True):
            p = os.path.join(root, str(dump))
            pm = build(method, "cls", 3)
            pm.train(T.loader((x, y), 4), fit_config=T.config(optax.adam(1e-2), 3, freeze_fun=fz, save_checkpoint_dir=p, save_every_n_steps=ctx.choice([None, 1]), dump_state=dump), **kw)
            want = predictions(pm, x, "cls", 5)
            os.rename(p, p + "-away")
            if dump:
                ctx.raises(ValueError, lambda: pm.posterior.sample(inputs=x), "dumped-state-in-folder")
            else:
                same(ctx, want, predictions(pm, x, "cls", 5), "state-in-memory")
            os.rename(p + "-away", p)
            same(ctx, want, predictions(pm, x, "cls", 5), "state-after-moving-back")
        ctx.key(method, want["mean"])
    ctx.event("in-memory")
