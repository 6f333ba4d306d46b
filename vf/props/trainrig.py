"""Small real training runs whose every step is recorded by a callback, and an independent reference of the loss."""
import logging
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2 " + os.environ.get("XLA_FLAGS", "")

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.data.loader import DataLoader
from fortuna.model.mlp import MLP
from fortuna.prob_model import (MAPPosteriorApproximator, ProbClassifier, ProbRegressor)
from fortuna.prob_model import FitCheckpointer, FitConfig, FitMonitor, FitOptimizer, FitProcessor
from fortuna.prob_model.fit_config.hyperparameters import FitHyperparameters
from fortuna.prob_model.fit_config.callback import FitCallback
from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior

from fortuna.utils.device import select_trainer_given_devices

import tqdm as _tqdm  # noqa: E402
import fortuna.training.trainer as _trainer  # noqa: E402

_trainer.trange = lambda n, **kw: _tqdm.trange(n, disable=True)
logging.getLogger().setLevel(logging.ERROR)


def host(t):
    return jax.tree_util.tree_map(lambda v: np.array(v), t)


def leaves(t):
    return jax.tree_util.tree_leaves(t)


def same_tree(a, b):
    a, b = flat_dict(a), flat_dict(b)
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)


def flat_dict(t, prefix=()):
    """path -> array, whatever the mapping type"""
    out = {}
    if hasattr(t, "items"):
        for k, v in t.items():
            out.update(flat_dict(v, prefix + (k,)))
    elif t is not None:
        out[prefix] = np.asarray(t)
    return out


def use_devices(n):
    """n = 2: the data-parallel trainer, which fortuna only picks by itself when there is a GPU"""
    from fortuna.prob_model.posterior.map import map_posterior as m
    m.select_trainer_given_devices = (
        (lambda multi_device_trainer_cls, **kw: multi_device_trainer_cls) if n == 2 else select_trainer_given_devices)


class Recorder(FitCallback):
    def __init__(self, replicated=False):
        self.log = []  # (event, step, params)
        self.replicated = replicated

    def _add(self, e, s):
        p = host(s.params)
        if self.replicated:
            assert all(np.array_equal(v[0], v[1]) for v in leaves(p)), "the replicas have diverged"
            p = jax.tree_util.tree_map(lambda v: v[0], p)
        self.log.append((e, int(np.asarray(s.step).reshape(-1)[0]), p))
        return s

    def training_epoch_start(self, state):
        return self._add("start", state)

    def training_epoch_end(self, state):
        return self._add("end", state)

    def training_step_end(self, state):
        return self._add("step", state)


class Net(nn.Module):
    """an MLP with batch statistics and dropout"""
    output_dim: int
    rate: float = 0.0

    @nn.compact
    def __call__(self, x, train=False, **kwargs):
        x = nn.Dense(4)(x)
        x = nn.BatchNorm(use_running_average=not train, momentum=0.9)(x)
        x = nn.tanh(x)
        x = nn.Dropout(self.rate, deterministic=not train)(x)
        return nn.Dense(self.output_dim)(x)


def make(kind="cls", dim=2, approx=None, seed=0, prior=None, model=None, widths=(3,)):
    m = model or MLP(dim, widths=widths, activations=(nn.tanh,) * len(widths))
    approx = approx or MAPPosteriorApproximator()
    kw = dict(model=m, posterior_approximator=approx, seed=seed)
    if prior is not None:
        kw["prior"] = prior
    if kind == "cls":
        return ProbClassifier(**kw)
    return ProbRegressor(likelihood_log_variance_model=MLP(dim, widths=(2,), activations=(nn.tanh,)), **kw)


_shared = {}


def shared(kind, dim):
    if (kind, dim) not in _shared:
        _shared[kind, dim] = make(kind, dim)
    return _shared[kind, dim]


def data(ctx, kind, dim, n, d=2):
    x = ctx.rng.normal(size=(n, d)).astype("float32")
    if kind == "cls":
        y = ctx.rng.permutation(np.concatenate([np.arange(dim), ctx.rng.integers(0, dim, size=max(n - dim, 0))]))
    else:
        y = (x[:, :1] * 0.7 + 0.2 * ctx.rng.normal(size=(n, dim))).astype("float32")
    return x, y


def loader(xy, bs, **kw):
    return DataLoader.from_array_data(xy, batch_size=bs, **kw)


def config(method=None, n_epochs=3, freeze_fun=None, max_grad_norm=None, accumulation=None, callbacks=None, monitor=None,
           disable_jit=False, devices=0, **ck):
    monitor = dict(dict(verbose=False), **(monitor or {}))
    return FitConfig(
        optimizer=FitOptimizer(method=method or optax.adam(1e-2), n_epochs=n_epochs, freeze_fun=freeze_fun),
        monitor=FitMonitor(**monitor),
        processor=FitProcessor(devices=devices, disable_jit=disable_jit),
        checkpointer=FitCheckpointer(**ck),
        hyperparameters=FitHyperparameters(max_grad_norm=max_grad_norm, gradient_accumulation_steps=accumulation),
        callbacks=callbacks)


_loss_cache = {}


def reference_loss(pm, kind, log_var=0.0):
    """minus the log joint of one batch, from the network's outputs only (log_var: scalar prior log-variance)"""
    mm = pm.joint.likelihood.model_manager

    def loss(params, x, y, n_data):
        o = mm.model.apply(params["model"], x)
        if kind == "cls":
            ll = jnp.take_along_axis(o - jax.scipy.special.logsumexp(o, -1, keepdims=True), y[:, None], 1)[:, 0]
        else:
            lv = mm.likelihood_log_variance_model.apply(params["lik_log_var"], x)
            ll = -0.5 * (jnp.log(2 * jnp.pi) + lv + (y - o) ** 2 * jnp.exp(-lv)).sum(-1)
        v = jnp.concatenate([p.reshape(-1) for p in leaves(params)])
        lp = -0.5 * (v ** 2 * np.exp(-log_var) + log_var + np.log(2 * np.pi)).sum()
        return -(n_data / x.shape[0] * ll.sum() + lp)

    return jax.jit(jax.value_and_grad(loss))
