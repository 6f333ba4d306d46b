"""Fits posteriors with a known maximum-a-posteriori start and collects many samples by path."""
import shutil
import tempfile
from contextlib import contextmanager

import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats

from fortuna.prob_model import MAPPosteriorApproximator
from vf.props import trainrig as T


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def freeze(ctx, regression=False):
    """(name, freeze_fun, is_trainable(path))"""
    k = ctx.choice(["none", "none", "head", "bias", "body"])
    test = {"none": lambda p: True, "head": lambda p: "output_subnet" in p, "bias": lambda p: p[-1] == "bias",
            "body": lambda p: "dfe_subnet" in p}[k]
    return k, (None if k == "none" else (lambda path, v: "trainable" if test(tuple(path)) else "frozen")), test


def map_start(pm_kw, train, dir_, n_epochs=3, **cfg):
    """a MAP fit saved under dir_; returns its parameters by path"""
    pm = T.make(approx=MAPPosteriorApproximator(), **pm_kw)
    pm.train(train, fit_config=T.config(n_epochs=n_epochs, save_checkpoint_dir=dir_, dump_state=True, **cfg))
    return pm, T.flat_dict(T.host(pm.posterior.state.get().params))


def draws(pm, n, seed, **kw):
    """path -> (n, ...) array of posterior samples, one key each, through the public `sample`"""
    keys = jax.random.split(jax.random.PRNGKey(seed), n)
    out = jax.jit(jax.vmap(lambda k: pm.posterior.sample(rng=k, **kw).params))(keys)
    return keys, T.flat_dict(T.host(out))


def ravel(d, paths):
    return np.concatenate([np.asarray(d[p], float).reshape(-1) for p in paths])


def stack(d, paths):
    n = next(iter(d.values())).shape[0]
    return np.concatenate([np.asarray(d[p], float).reshape(n, -1) for p in paths], 1)


def standard_normal(ctx, z, mech):
    """z (n, d): rows are draws of a standard normal vector"""
    n, d = z.shape
    slack = 4.0 + 0.3 * np.log(max(d, 1))
    ctx.check(np.all(np.isfinite(z)), mech + ":finite")
    ctx.check(np.all(np.abs(z.mean(0)) < slack / np.sqrt(n)), mech + ":mean", f"worst {np.abs(z.mean(0)).max() * np.sqrt(n):.1f} sigma")
    c = z.T @ z / n - np.eye(d)
    s = np.where(np.eye(d) > 0, np.sqrt(2 / n), np.sqrt(1 / n))
    ctx.check(np.all(np.abs(c) < (slack + 1) * s), mech + ":covariance", f"worst {np.abs(c / s).max():.1f} sigma")
    ctx.check(stats.kstest(z.reshape(-1), "norm").pvalue > 1e-7, mech + ":shape")
