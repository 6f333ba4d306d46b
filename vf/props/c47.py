"""Model editors: outputs, losses and everything learned are those of the edited model, for every kind of model and approximation."""
from vf.props import trainrig as T  # first: it asks for two devices
from vf.props import c41 as H
from vf.props import postrig as R
from vf.props.c35 import jac
from vf.core import Suite

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import unfreeze

from fortuna.calib_model import CalibClassifier, CalibRegressor
from fortuna.calib_model import Config as CConfig, Monitor as CMonitor, Optimizer as COptimizer
from fortuna.model.mlp import MLP, MLPDeepFeatureExtractorSubNet
from fortuna.model.utils.spectral_norm import WithSpectralNorm
from fortuna.model_editor.base import ModelEditor
from fortuna.model_editor.probit import ProbitModelEditor
from fortuna.prob_model import (ADVIPosteriorApproximator, CyclicalSGLDPosteriorApproximator, DeepEnsemblePosteriorApproximator,
                                LaplacePosteriorApproximator, MAPPosteriorApproximator, ProbClassifier, ProbRegressor, SGHMCPosteriorApproximator,
                                SNGPPosteriorApproximator, SWAGPosteriorApproximator)

suite = Suite(
    "C47",
    rule="case = (kind of model, approximation, running statistics, editor, frozen part, data) trained with an editor; distinct = distinct edited outputs",
    assumptions=["editors are an elementwise affine map with learned coefficients and the probit editor", "float32 arithmetic", "small networks"],
    required={"draw": 14, "served": 6, "statistics": 4, "reloaded": 10, "step": 20, "frozen:editor": 1, "frozen:model": 1, "probit": 4, "probit-statistics": 2,
              "sngp": 3, "hf": 3, "hf-step": 6, "calibrated": 4, "calibration-step": 8},
)


class Affine(ModelEditor):
    """outputs are scaled and shifted by learned coefficients"""
    scale: float = 0.6

    @nn.compact
    def __call__(self, apply_fn, model_params, x, has_aux):
        o = apply_fn(model_params, x)
        o, aux = o if has_aux else (o, None)
        s = self.param("s", nn.initializers.constant(self.scale), (1,))
        t = self.param("t", lambda k, n: 0.3 * jnp.arange(1.0, n + 1), o.shape[-1])
        o = o * s + t
        return (o, aux) if has_aux else o


def affine(p, o):
    e = p["model_editor"]["params"]
    return o * e["s"] + e["t"]


APPROX = {
    "map": lambda: MAPPosteriorApproximator(),
    "advi": lambda: ADVIPosteriorApproximator(log_std_base=-3.0),
    "laplace": lambda: LaplacePosteriorApproximator(tune_prior_log_variance=False),
    "swag": lambda: SWAGPosteriorApproximator(rank=2),
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2, step_schedule=1e-3),
    "cyclical": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-3, exploration_ratio=0.25),
}


def build(kind, editor, approx=None, bn=False, seed=0):
    d = 2 if kind == "cls" else 1
    net = T.Net(d) if bn else MLP(d, widths=(3,), activations=(nn.tanh,))
    kw = dict(model=net, posterior_approximator=approx or MAPPosteriorApproximator(), model_editor=editor, seed=seed)
    if kind == "cls":
        return ProbClassifier(**kw)
    return ProbRegressor(likelihood_log_variance_model=T.Net(d) if bn else MLP(d, widths=(2,), activations=(nn.tanh,)), **kw)


def part(mm, name):
    return mm.model if name == "model" else mm.likelihood_log_variance_model


def raw(mm, kind, params, mutable, x, train=False):
    """(outputs of the networks themselves, updated running statistics)"""
    outs, new = [], {}
    for name in ("model",) if kind == "cls" else ("model", "lik_log_var"):
        m = (mutable or {}).get(name) or {}
        v = {**params[name], **m}
        if train and m:
            o, new[name] = part(mm, name).apply(v, x, train=True, mutable=list(m))
        else:
            o = part(mm, name).apply(v, x, train=train)
        outs.append(o)
    return jnp.concatenate(outs, -1), new


def log_lik(kind, o, y):
    if kind == "cls":
        return jnp.take_along_axis(jax.nn.log_softmax(o, -1), y[:, None], 1)[:, 0]
    m, lv = jnp.split(o, 2, -1)
    return -0.5 * (jnp.log(2 * jnp.pi) + lv + (y - m) ** 2 * jnp.exp(-lv)).sum(-1)


class Rec(T.Recorder):
    """logs (event, all parameters, running statistics)"""

    def __init__(self, log):
        super().__init__()
        self.into = log

    def _add(self, e, s):
        p = T.host(unfreeze(s.params))
        if s.frozen_params is not None:
            p = {**T.host(unfreeze(s.frozen_params)), **p}  # whole networks or editors are frozen here
        self.into.append((e, p, T.host(unfreeze(s.mutable)) if s.mutable is not None else None))
        return s


def thaw(s):
    return unfreeze(s.params), (unfreeze(s.mutable) if s.mutable is not None else None)


@suite.scenario(quick=14, thorough=140)
def every_approximation(ctx):
    """draws of every approximation, served and reloaded, are edited"""
    name = list(APPROX)[ctx.i % 7]
    kind = ["cls", "reg"][(ctx.i // 7 + ctx.i) % 2]
    bn = bool(ctx.i // 2 % 2) and name != "sghmc"
    seed = ctx.integers(0, 1000)
    pm = build(kind, Affine(), APPROX[name](), bn, seed)
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 12)
    ctx.note(method=name, kind=kind, statistics=bn)
    if bn:
        ctx.event("statistics")
    kw = dict(map_fit_config=T.config(n_epochs=1)) if name in ("laplace", "swag") else {}
    pm.train(T.loader((x, y), 4), fit_config=T.config(n_epochs=4), **kw)
    mm = pm.likelihood.model_manager
    outs = []
    for i in range(3):
        s = pm.posterior.sample(rng=jax.random.PRNGKey(i), inputs=x)
        p, m = thaw(s)
        if bn:
            ctx.check(m is not None and len(T.leaves(m.get("model", {}))) > 0, "running-statistics-lost")
        want = np.asarray(affine(p, raw(mm, kind, p, m, x)[0]))
        ctx.event("draw")
        ctx.close(np.asarray(mm.apply(s.params, x, s.mutable)), want, "draw-is-edited", rtol=1e-4, atol=1e-5)
        # the likelihood of a draw is that of the edited outputs
        got = np.asarray(pm.likelihood.log_prob(s.params, T.loader((x, y), 6), mutable=s.mutable, calib_params=s.calib_params, calib_mutable=s.calib_mutable))
        ctx.close(got, np.asarray(log_lik(kind, jnp.asarray(want), y)), "likelihood-of-the-edited-outputs", rtol=1e-3, atol=1e-4)
        outs.append(want)
    if name in ("map", "ensemble", "sghmc", "cyclical"):
        # draws are members: the served mean is the mean over some of them
        st = pm.posterior.state
        members = [st.get(i) for i in range(st.size)] if hasattr(st, "size") else [st.get()]
        ws = []
        for s in members:
            p, m = thaw(s)
            o = affine(p, raw(mm, kind, p, m, x)[0])
            ws.append(np.asarray(jax.nn.softmax(o, -1) if kind == "cls" else jnp.split(o, 2, -1)[0]))
        got = np.asarray(pm.predictive.mean(T.loader((x, y), 6).to_inputs_loader(), n_posterior_samples=4, rng=jax.random.PRNGKey(3)))
        k = len(ws)
        want = [sum(c * w for c, w in zip(cs, ws)) / 4 for cs in ([(4,)] if k == 1 else [(a, 4 - a) for a in range(5)] if k == 2 else [])]
        ctx.check(any(np.allclose(got, w, rtol=1e-3, atol=1e-4) for w in want), "served-mean-is-edited", f"{got[:2]}")
        ctx.event("served")
    with R.scratch() as d:
        pm.save_state(d + "/s")
        other = build(kind, Affine(), APPROX[name](), bn, seed + 1)
        other.load_state(d + "/s")
        ctx.event("reloaded")
        for i in range(3):
            s = other.posterior.sample(rng=jax.random.PRNGKey(i), inputs=x)
            ctx.close(np.asarray(other.likelihood.model_manager.apply(s.params, x, s.mutable)), outs[i], "reloaded-draw-is-edited", rtol=1e-4, atol=1e-5)
    ctx.key(np.stack(outs))


@suite.scenario(quick=8, thorough=120)
def training_steps(ctx):
    """each step descends the objective of the edited outputs, running statistics follow the network, frozen parts stay"""
    kind = ["cls", "reg"][ctx.i % 2]
    bn = bool(ctx.i // 2 % 2)
    frozen = [None, "model", "editor"][ctx.i % 3]
    seed, n, bs, lr = ctx.integers(0, 1000), 12, ctx.choice([4, 6]), 2e-3
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, n)
    fz = None
    if frozen:
        ctx.event("frozen:" + frozen)
        # the "model" is both networks
        fz = lambda path, v: "frozen" if ("model_editor" in path) == (frozen == "editor") else "trainable"
    ctx.note(kind=kind, statistics=bn, frozen=frozen, batch_size=bs)
    pm = build(kind, Affine(), None, bn, seed)
    mm = pm.likelihood.model_manager
    log = []
    pm.train(T.loader((x, y), bs), fit_config=T.config(optax.sgd(lr), 2, freeze_fun=fz, callbacks=[Rec(log)]))

    def loss(p, m, xb, yb):
        o, new = raw(mm, kind, p, m, xb, train=True)
        ll = log_lik(kind, affine(p, o), yb)
        v = jnp.concatenate([q.reshape(-1) for q in T.leaves(p)])
        return -(n / xb.shape[0] * ll.sum() - 0.5 * (v ** 2 + np.log(2 * np.pi)).sum()), new

    grad = jax.jit(jax.grad(loss, has_aux=True))
    p, m = log[0][1], log[0][2]
    steps = [r for r in log if r[0] == "step"]
    ctx.check(len(steps) == 2 * (n // bs), "one-step-per-batch", str(len(steps)), fatal=True)
    for t, (_, gp, gm) in enumerate(steps):
        b = t % (n // bs)
        g, new = grad(p, m, x[b * bs:(b + 1) * bs], y[b * bs:(b + 1) * bs])
        ctx.event("step")
        a, w, old = T.flat_dict(gp), T.flat_dict(T.host(jax.tree_util.tree_map(lambda v, d: v - lr * d, p, g))), T.flat_dict(p)
        for k in w:
            if fz is not None and fz(k, None) == "frozen":
                ok = ctx.check(np.array_equal(a[k], old[k]), "frozen-moves", str(k))
            else:
                ok = ctx.close(a[k], w[k], "update", rtol=2e-3, atol=3e-5, msg=f"step {t} {k}")
            if not ok:
                return
        if new:
            a, w = T.flat_dict(gm), T.flat_dict(T.host(unfreeze(new)))
            ctx.check(set(a) == set(w), "statistics-structure", str(set(a) ^ set(w)))
            for k in w:
                ctx.close(a[k], w[k], "running-statistics", rtol=1e-3, atol=1e-5, msg=f"step {t} {k}")
        p, m = gp, gm
    ctx.key(np.concatenate([v.reshape(-1) for v in T.flat_dict(p).values()]))


@suite.scenario(quick=6, thorough=60)
def probit(ctx):
    """the probit editor propagates the uncertainty of exactly the parameters, not of running statistics"""
    kind = ["cls", "reg"][ctx.i % 2]
    bn = bool(ctx.i // 2 % 2) or ctx.i % 3 == 0
    sel = [None, "Dense_1", "Dense_0"][ctx.i % 3] if bn else None
    fz = None if sel is None else (lambda path, v: sel in path)
    init = float(ctx.choice([-1.0, 0.5]))
    pm = build(kind, ProbitModelEditor(freeze_fun=fz, init_log_var=init), None, bn, ctx.integers(0, 1000))
    mm = pm.likelihood.model_manager
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    ctx.note(kind=kind, statistics=bn, selected=sel, init=init)
    ctx.event("probit")
    if bn:
        ctx.event("probit-statistics")
    pm.train(T.loader((x, y), 8), fit_config=T.config(optax.sgd(1e-3), 2))
    s = pm.posterior.state.get()
    p, m = thaw(s)
    lv = float(np.asarray(p["model_editor"]["params"]["log_var"])[0])
    ctx.check(np.isfinite(lv) and lv != init, "log-variance-is-trained", f"{lv}")
    x4 = x[:4]
    q = {k: v for k, v in p.items() if k != "model_editor"}
    paths = {k for k in T.flat_dict(q) if sel is None or sel in k}
    var = np.stack([(jac(lambda z: raw(mm, kind, z, m, x4[i:i + 1])[0][0], q, paths) ** 2).sum(1) for i in range(4)])
    o = np.asarray(raw(mm, kind, p, m, x4)[0], float)
    got = np.asarray(mm.apply(s.params, x4, s.mutable))
    ctx.close(got, o / (1 + np.pi / 8 * np.exp(lv) * var), "variance-of-the-parameters", rtol=3e-3, atol=1e-4)
    ctx.key(got)


class Extractor(WithSpectralNorm, MLPDeepFeatureExtractorSubNet):
    pass


@suite.scenario(quick=3, thorough=40)
def sngp(ctx):
    """in spectral-normalised Gaussian processes the features are edited, once"""
    kd, nf, ridge, factor = 2, 8, ctx.choice([0.5, 1.0]), ctx.choice([0.0, 1.0])
    ed = [Affine(), ProbitModelEditor(init_log_var=0.0), Affine(scale=1.7)][ctx.i % 3]
    mk = lambda seed: ProbClassifier(model=Extractor(dense=nn.Dense, widths=(4,), activations=(nn.tanh,)), model_editor=ed, seed=seed,
                                     posterior_approximator=SNGPPosteriorApproximator(output_dim=kd, gp_hidden_features=nf, ridge_penalty=ridge, mean_field_factor=factor))
    pm = mk(ctx.integers(0, 1000))
    x, y = T.data(ctx, "cls", kd, 12)
    ctx.note(editor=type(ed).__name__, ridge=ridge, factor=factor)
    ctx.event("sngp")
    pm.train(T.loader((x, y), 4), fit_config=T.config(optax.sgd(1e-3), 3))
    s = pm.posterior.state.get()
    p, m = thaw(s)
    mm = pm.likelihood.model_manager
    stats = {k: v for k, v in m["model"].items() if not k.startswith("sngp")}
    net = lambda q, z: mm.model.apply({"params": q["params"], **stats}, z, train=False)
    own = {"params": p["model"]["params"]}
    h = np.asarray(net(own, x), float)
    if isinstance(ed, Affine):
        h = np.asarray(affine(p, h), float)
    else:
        lv = float(np.asarray(p["model_editor"]["params"]["log_var"])[0])
        paths = set(T.flat_dict(own))
        var = np.stack([(jac(lambda z: net(z, x[i:i + 1])[0], own, paths) ** 2).sum(1) for i in range(len(x))])
        h = h / (1 + np.pi / 8 * np.exp(lv) * var)
    r = m["model"]["sngp_random_features"]["sngp_random_features_layer"]
    phi = np.cos(h @ np.asarray(r["kernel"], float) / float(np.asarray(p["model"]["params"]["sngp_random_features_layer"]["rf_kernel_scale"])[0])
                 + np.asarray(r["bias"], float))
    prec = np.asarray(m["model"]["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"], float)
    var = np.diag(ridge * phi @ np.linalg.solve(prec, phi.T))
    ker, b = (np.asarray(p["model"]["params"]["sngp_dense_layer"][c], float) for c in ("kernel", "bias"))
    o = (phi @ ker + b) / np.sqrt(1 + factor * var)[:, None]
    got = np.asarray(pm.predictive.mean(T.loader((x, y), 6).to_inputs_loader(), n_posterior_samples=2))
    ctx.close(got, H.softmax(o), "features-are-edited-once", rtol=5e-3, atol=2e-3)
    with R.scratch() as d:
        pm.save_state(d + "/s")
        other = mk(7)
        other.load_state(d + "/s")
        ctx.event("reloaded")
        ctx.close(np.asarray(other.predictive.mean(T.loader((x, y), 12).to_inputs_loader(), n_posterior_samples=2)), got, "reloaded-mean", rtol=1e-3, atol=1e-4)
    ctx.key(got)


@suite.scenario(quick=3, thorough=30)
def transformers(ctx):
    """pre-trained transformers with an editor: each step and every prediction"""
    fam = list(H.FAMILIES)[ctx.i % 3]
    model = H.load(fam, 0.0, 3)
    probit = ctx.i % 3 == 1
    x, y = H.text(ctx, 8, 5)
    ed = ProbitModelEditor(freeze_fun=lambda path, v: "classifier" in path, init_log_var=-2.0) if probit else Affine()
    ctx.note(family=fam, probit=probit)
    ctx.event("hf")
    pm = edited_classifier(model, ed, ctx.integers(0, 100))
    rec = T.Recorder()
    lr, bs, n = 1e-3, 4, 8
    pm.train(H.loader(x, y, bs), fit_config=T.config(optax.sgd(lr), 1, callbacks=[rec]))

    def edited(p, xb):
        o = model(**xb, params=p["model"]["params"], train=False).logits
        if not probit:
            return affine(p, o)
        head = p["model"]["params"]["classifier"]
        f = lambda h: model(**xb, params={**p["model"]["params"], "classifier": h}, train=False).logits
        J = jax.jacrev(f)(head)
        var = sum((v.reshape(o.shape + (-1,)) ** 2).sum(-1) for v in T.leaves(J))
        return o / (1 + np.pi / 8 * jnp.exp(p["model_editor"]["params"]["log_var"]) * var)

    def loss(p, xb, yb):
        ll = jnp.take_along_axis(jax.nn.log_softmax(edited(p, xb), -1), yb[:, None], 1)[:, 0]
        v = jnp.concatenate([q.reshape(-1) for q in T.leaves(p)])
        return -(n / bs * ll.sum() - 0.5 * (v ** 2 + np.log(2 * np.pi)).sum())

    grad = jax.jit(jax.grad(loss))
    q = T.host(unfreeze(rec.log[0][2]))
    for t, g in enumerate([p for e, _, p in rec.log if e == "step"]):
        sl = slice(t * bs, (t + 1) * bs)
        w = T.flat_dict(T.host(jax.tree_util.tree_map(lambda v, d: v - lr * d, q, grad(q, {c: v[sl] for c, v in x.items()}, y[sl]))))
        a = T.flat_dict(g)
        ctx.event("hf-step")
        for k in w:
            if not ctx.close(a[k], w[k], "transformer-update", rtol=3e-3, atol=5e-4, msg=f"step {t} {k}"):
                return
        q = T.host(unfreeze(g))
    want = H.softmax(np.asarray(edited(unfreeze(pm.posterior.state.get().params), x), float))
    got = np.asarray(pm.predictive.mean(H.inputs(x, ctx.choice([2, 8])), n_posterior_samples=2))
    ctx.close(got, want, "transformer-predictions", rtol=2e-3, atol=5e-4)
    ctx.key(got)


def edited_classifier(model, ed, seed):
    return ProbClassifier(model=model, posterior_approximator=MAPPosteriorApproximator(), model_editor=ed, seed=seed)


@suite.scenario(quick=4, thorough=60)
def calibration_models(ctx):
    """models fine-tuned for calibration train, and serve, the edited outputs"""
    kind = ["cls", "reg"][ctx.i % 2]
    bn = bool(ctx.i // 2 % 2)
    d = 2 if kind == "cls" else 1
    x, y = T.data(ctx, kind, d, 12)
    net = lambda: T.Net(d) if bn else MLP(d, widths=(3,), activations=(nn.tanh,))
    kw = {} if kind == "cls" else dict(likelihood_log_variance_model=net())
    m = (CalibClassifier if kind == "cls" else CalibRegressor)(model=net(), model_editor=Affine(), seed=ctx.integers(0, 100), **kw)
    mm = m.likelihood.model_manager
    ctx.note(kind=kind, statistics=bn)
    ctx.event("calibrated")
    lr, bs, loss_kind = 0.05, 6, ctx.i % 4 < 2
    loss_fn = None if loss_kind else (lambda o, t: (o ** 2).sum(-1).mean() + 0.1 * (o[:, 0] * t.reshape(len(t), -1)[:, 0]).mean())

    def loss(p, mu, xb, yb):
        o, new = raw(mm, kind, p, mu, xb, train=True)
        o = affine(p, o)
        if loss_fn is not None:
            return loss_fn(o, yb), new
        if kind == "cls":
            lp = log_lik(kind, o, yb)
            return -jnp.mean((1 - jnp.exp(lp)) ** 2 * lp), new
        a, lv = jnp.split(o, 2, -1)
        return jnp.mean((jnp.exp(-lv) * (yb - a) ** 2 + lv).sum(-1)), new

    log = []
    more = {} if loss_fn is None else dict(loss_fn=loss_fn)
    m.calibrate(T.loader((x, y), bs), config=CConfig(optimizer=COptimizer(method=optax.sgd(lr), n_epochs=2), monitor=CMonitor(verbose=False), callbacks=[Rec(log)]), **more)
    grad = jax.jit(jax.grad(loss, has_aux=True))
    p, mu = log[0][1:]
    for t, (_, gp, gm) in enumerate([r for r in log if r[0] == "step"]):
        b = t % (len(x) // bs)
        g, new = grad(p, mu, x[b * bs:(b + 1) * bs], y[b * bs:(b + 1) * bs])
        ctx.event("calibration-step")
        a, w = T.flat_dict(gp), T.flat_dict(T.host(jax.tree_util.tree_map(lambda v, d: v - lr * d, p, g)))
        for k in w:
            if not ctx.close(a[k], w[k], "calibration-update", rtol=2e-3, atol=3e-5, msg=f"step {t} {k}"):
                return
        if new:
            a, w = T.flat_dict(gm), T.flat_dict(T.host(unfreeze(new)))
            for k in w:
                ctx.close(a[k], w[k], "calibration-statistics", rtol=1e-3, atol=1e-5, msg=f"step {t} {k}")
        p, mu = gp, gm
    o = affine(p, raw(mm, kind, p, mu, x)[0])
    want = np.asarray(jax.nn.softmax(o, -1) if kind == "cls" else jnp.split(o, 2, -1)[0])
    ctx.close(np.asarray(m.predictive.mean(T.loader((x, y), 6).to_inputs_loader())), want, "calibrated-mean", rtol=1e-3, atol=1e-4)
    got = np.asarray(m.predictive.log_prob(T.loader((x, y), 6)))
    ctx.close(got, np.asarray(log_lik(kind, o, y)), "calibrated-log-prob", rtol=1e-3, atol=1e-3)
    ctx.key(want)
