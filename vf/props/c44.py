"""Half precision: training with a dynamic loss scale never lets an overflow into the parameters."""
from vf.props import trainrig as T  # before jax: two devices

import tempfile
from typing import Any

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.training.dynamic_scale import DynamicScale

from fortuna.prob_model import (ADVIPosteriorApproximator, CyclicalSGLDPosteriorApproximator, DeepEnsemblePosteriorApproximator,
                                LaplacePosteriorApproximator, MAPPosteriorApproximator, SGHMCPosteriorApproximator,
                                SNGPPosteriorApproximator, SWAGPosteriorApproximator)
from fortuna.prob_model.fit_config.callback import FitCallback
from vf.core import Suite

suite = Suite(
    "C44",
    rule="case = (likelihood, optimizer, number of devices, initial scale, data with or without overflowing batches, way of resuming); distinct = recorded trajectories",
    assumptions=["the reference gradient is taken in single precision; half-precision steps agree with it up to 4% of its norm",
                 "an overflowing batch holds an infinite input or a target whose squared error is infinite: its gradient is not finite in any precision and at any scale"],
    required={"step": 60, "skipped": 10, "applied": 40, "grown": 3, "poison": 5, "two-devices": 4, "accumulated": 3, "accumulated-poison": 2, "resumed": 3, "posterior": 6,
              "bfloat16": 1, "float32": 1, "clipped": 2},
)


class Half(nn.Module):
    output_dim: int
    dtype: Any = jnp.float16

    @nn.compact
    def __call__(self, x, train=False, **kwargs):
        x = x.astype(self.dtype)
        x = nn.tanh(nn.Dense(4, dtype=self.dtype, name="a")(x))
        return nn.Dense(self.output_dim, dtype=self.dtype, name="b")(x)


class Rec(FitCallback):
    """what the state holds after every step"""
    def __init__(self, ctx, replicated):
        self.ctx, self.replicated, self.log = ctx, replicated, []

    def _get(self, t, what):
        t = T.host(t)
        if self.replicated and t is not None:
            self.ctx.check(all(np.array_equal(v[0], v[1], equal_nan=True) for v in T.leaves(t)), "replicas-diverge", what)
            t = jax.tree_util.tree_map(lambda v: v[0], t)
        return t

    def _add(self, s):
        ds = s.dynamic_scale
        self.log.append(dict(
            step=int(np.ravel(s.step)[0]), params=self._get(s.params, "parameters"), opt=self._get(s.opt_state, "optimizer"),
            scale=None if ds is None else float(np.ravel(self._get(ds.scale, "scale"))[0]),
            fin=None if ds is None else int(np.ravel(self._get(ds.fin_steps, "finite steps"))[0]), acc=T.host(s.grad_accumulated)))
        return s

    def training_epoch_start(self, s):
        return s if self.log else self._add(s)

    def training_step_end(self, s):
        return self._add(s)


def finite(t):
    return all(np.all(np.isfinite(v)) for v in T.leaves(t))


def train(ctx, pm, xy, bs, devices=1, callbacks=(), **kw):
    T.use_devices(devices)
    rec = Rec(ctx, devices == 2)
    try:
        pm.train(T.loader(xy, bs), fit_config=T.config(callbacks=[rec] + list(callbacks), **kw))
    finally:
        T.use_devices(1)
    return rec.log


def start_from(pm, xy, bs, scale, fin_steps=0, n_epochs=1):
    """a first state whose scale is the given one: some steps at a zero learning rate, then the scale is written into the state"""
    pm.train(T.loader(xy, bs), fit_config=T.config(method=optax.sgd(0.0), n_epochs=n_epochs))
    s = pm.posterior.state.get()
    pm.posterior.state.put(s.replace(dynamic_scale=DynamicScale(scale=jnp.float32(scale), fin_steps=jnp.int32(fin_steps))))


_ref = {}


def reference(kind, dim):
    """single-precision loss and gradient of the same architecture"""
    if (kind, dim) not in _ref:
        _ref[kind, dim] = T.reference_loss(T.make(kind, dim, model=Half(dim, dtype=jnp.float32)), kind)
    return _ref[kind, dim]


def norm(t):
    return float(np.sqrt(sum((np.asarray(v, np.float64) ** 2).sum() for v in T.leaves(t))))


def sub(a, b):
    return jax.tree_util.tree_map(lambda u, v: np.asarray(u, np.float64) - np.asarray(v, np.float64), a, b)


def batches(xy, bs):
    n = len(xy[0])
    return [(xy[0][i:i + bs], xy[1][i:i + bs]) for i in range(0, n, bs)]


def follow(ctx, log, kind, dim, xy, bs, tx, max_norm=None, poisoned=(), growth=2000, expect_applied=()):
    """every transition of the recorded trajectory is a skipped step or the optimizer's update with the unscaled gradient"""
    f = reference(kind, dim)
    bts = batches(xy, bs)
    opt = tx.init(log[0]["params"])
    n_skip = n_app = 0
    for t, (a, b) in enumerate(zip(log, log[1:])):
        ctx.event("step")
        bx, by = bts[t % len(bts)]
        where = f"step {t + 1}, scale {a['scale']} -> {b['scale']}"
        ctx.check(b["step"] == a["step"] + 1, "step-counter", where)
        ctx.check(finite(b["params"]) and finite(b["opt"]), "parameters-not-finite", where, fatal=True)
        ctx.check(all(v.dtype == np.float32 for v in T.leaves(b["params"])), "master-parameters-not-float32", where)
        ctx.check(b["scale"] > 0 and np.isfinite(b["scale"]), "scale-not-positive", where)
        changed = not T.same_tree(a["params"], b["params"])
        if b["scale"] < a["scale"]:  # an overflow was found
            n_skip += 1
            ctx.event("skipped")
            ctx.check(b["scale"] == a["scale"] / 2 and b["fin"] == 0, "scale-not-halved", where)
            ctx.check(not changed, "overflowing-step-applied", where)
            ctx.check(all(np.array_equal(u, v) for u, v in zip(T.leaves(a["opt"]), T.leaves(b["opt"]))), "overflowing-step-in-optimizer", where)
            ctx.check(t % len(bts) not in expect_applied, "finite-step-skipped", where)
        else:
            n_app += 1
            ctx.event("applied")
            ctx.check(t % len(bts) not in poisoned, "overflow-unnoticed", where)
            if a["fin"] == growth:
                ctx.check(b["scale"] == 2 * a["scale"] and b["fin"] == 0, "scale-not-grown", where + f", {a['fin']} finite steps")
                ctx.event("grown")
            else:
                ctx.check(b["scale"] == a["scale"] and b["fin"] == a["fin"] + 1, "scale-bookkeeping", where + f", finite steps {a['fin']} -> {b['fin']}")
            _, g = f(a["params"], bx, by, len(xy[0]))
            g = T.host(g)
            if max_norm:
                c = norm(g)
                if c > max_norm:
                    ctx.event("clipped")
                g = jax.tree_util.tree_map(lambda v: v * min(1.0, max_norm / (c + 1e-6)), g)
            u, new_opt = tx.update(g, opt, a["params"])
            u = T.host(u)
            got = sub(b["params"], a["params"])
            err = norm(sub(got, u))
            ctx.check(err <= 0.04 * norm(u) + 1e-6, "update", f"{where}: error {err:.3g} of {norm(u):.3g}")
            opt = new_opt
    ctx.key(tuple((l["step"], l["scale"]) for l in log), T.leaves(log[-1]["params"])[0].tobytes())
    return n_skip, n_app


SGD = {"sgd": lambda: optax.sgd(1e-3), "momentum": lambda: optax.sgd(1e-3, momentum=0.9)}


@suite.scenario(quick=12, thorough=150)
def every_step(ctx):
    """from the default scale (which overflows at first) or a moderate one, on one or two devices"""
    kind = ctx.choice(["cls", "reg"])
    devices = 1 + ctx.i % 2
    dim = 2 if kind == "cls" else 1
    n, bs = 16, 8
    xy = T.data(ctx, kind, dim, n)
    clip = ctx.i % 6 in (2, 5)
    name = "sgd" if clip else ctx.choice(sorted(SGD))
    tx = SGD[name]()
    max_norm = ctx.choice([0.5, 2.0]) if clip else None
    mode = ["default", "moderate", "about to grow"][(ctx.i // 2) % 3]
    ctx.note(kind=kind, devices=devices, opt=name, mode=mode, max_norm=max_norm)
    pm = T.make(kind, dim, model=Half(dim), seed=ctx.integers(0, 100))
    kw = {}
    if mode != "default":
        start_from(pm, xy, bs, 16.0, 0 if mode == "moderate" else 1998 + ctx.integers(0, 2))
        # the stored optimizer state is that of sgd(0.0): same structure as sgd
        tx = SGD["sgd"]()
        kw["start_from_current_state"] = True
    log = train(ctx, pm, xy, bs, devices=devices, method=tx, n_epochs=4, max_grad_norm=max_norm, **kw)
    ctx.check(len(log) == 9, "steps", str(len(log)))
    if mode == "default":
        ctx.check(log[0]["scale"] == 65536.0 and log[0]["fin"] == 0, "initial-scale", str(log[0]["scale"]))
        follow(ctx, log, kind, dim, xy, bs, tx, max_norm)
    else:
        ctx.check(log[0]["scale"] == 16.0, "stored-scale-lost", str(log[0]["scale"]))
        # started from the state of an optimizer with a zero learning rate: that method is the one restored or replaced
        follow(ctx, log, kind, dim, xy, bs, tx, max_norm, expect_applied=(0, 1))
    if devices == 2:
        ctx.event("two-devices")


@suite.scenario(quick=6, thorough=80)
def overflowing_batch(ctx):
    """one batch's gradient is not finite: its steps are skipped, the others applied"""
    kind = ctx.choice(["cls", "reg"])
    devices = 1 + ctx.i % 2
    dim = 2 if kind == "cls" else 1
    xy = T.data(ctx, kind, dim, 24)
    bad = ctx.integers(0, 2)
    row = 8 * bad + ctx.integers(0, 7)  # one row only: on one of the two devices
    if kind == "reg" and ctx.integers(0, 1):
        xy[1][row] = 1e30  # the loss overflows
    else:
        xy[0][row] = ctx.choice([np.inf, -np.inf, np.nan])
    ctx.note(kind=kind, devices=devices, row=row)
    pm = T.make(kind, dim, model=Half(dim), seed=ctx.integers(0, 100))
    tx = optax.sgd(1e-3)
    log = train(ctx, pm, xy, 8, devices=devices, method=tx, n_epochs=6)
    sk, ap = follow(ctx, log, kind, dim, xy, 8, tx, poisoned=(bad,))
    ctx.check(sk >= 6, "overflow-unnoticed", f"{sk} skipped steps")
    ctx.check(finite(pm.posterior.state.get().params), "stored-parameters-not-finite")
    ctx.event("poison")


@suite.scenario(quick=6, thorough=80)
def accumulation(ctx):
    """accumulated gradients: the update is the mean of the gradients that did not overflow"""
    devices = 1 + ctx.i % 2
    kind, dim, k = "cls", 2, ctx.choice([2, 3])
    n_b = 3
    poison = ctx.i % 3 != 0
    xy = T.data(ctx, kind, dim, 8 * n_b)
    bad = ctx.integers(0, n_b - 1) if poison else None
    pm = T.make(kind, dim, model=Half(dim), seed=ctx.integers(0, 100))
    start_from(pm, xy, 8, 16.0, n_epochs=2)  # six steps: a whole number of cycles
    if poison:
        xy[0][8 * bad + ctx.integers(0, 7)] = np.inf
    ctx.note(k=k, bad=bad, devices=devices)
    tx = optax.sgd(1e-3)
    log = train(ctx, pm, xy, 8, devices=devices, method=tx, n_epochs=4, accumulation=k, start_from_current_state=True)
    f, bts = reference(kind, dim), batches(xy, 8)
    s0 = log[0]["step"]
    ctx.check(s0 == 6 and len(log) == 1 + 4 * n_b // k, "cycles", f"{len(log) - 1} cycles from step {s0}")
    for c, (a, b) in enumerate(zip(log, log[1:])):
        used = [t % n_b for t in range(c * k, c * k + k)]
        where = f"cycle {c} of {k} batches {used}, overflowing {bad}, scale {a['scale']} -> {b['scale']}"
        ctx.check(b["step"] == a["step"] + k, "step-counter", where)
        ctx.check(finite(b["params"]), "parameters-not-finite", where, fatal=True)
        ctx.check(finite(b["acc"]), "accumulated-gradient-not-finite", where, fatal=True)
        n_over = used.count(bad)
        ctx.check(b["scale"] == a["scale"] / 2 ** n_over, "overflows-" + ("unnoticed" if b["scale"] == a["scale"] else "imagined"), where)
        if used[-1] == bad:
            ctx.check(T.same_tree(a["params"], b["params"]), "overflowing-step-applied", where)
            continue
        g = [T.host(f(a["params"], *bts[t], len(xy[0]))[1]) for t in used if t != bad]
        u = jax.tree_util.tree_map(lambda *g: -1e-3 * sum(g) / k, *g)
        err = norm(sub(sub(b["params"], a["params"]), u))
        ctx.check(err <= 0.04 * norm(u) + 1e-6, "accumulated-update", f"{where}: error {err:.3g} of {norm(u):.3g}")
        ctx.event("accumulated")
        if n_over:
            ctx.event("accumulated-poison")
    ctx.key(s0, k, bad, T.leaves(log[-1]["params"])[0].tobytes())


@suite.scenario(quick=6, thorough=60)
def resumed(ctx):
    """a run in two parts, through a checkpoint, the current state or a saved state, is the uninterrupted run"""
    way = ["checkpoint", "current", "saved"][ctx.i % 3]
    devices = 1 + (ctx.i // 3) % 2
    xy = T.data(ctx, "cls", 2, 16)
    seed = ctx.integers(0, 100)
    tx = lambda: optax.sgd(1e-3)  # stateless: a restored run restarts its optimizer
    ctx.note(way=way, devices=devices)
    whole = train(ctx, T.make(model=Half(2), seed=seed), xy, 8, devices=devices, method=tx(), n_epochs=6)
    with tempfile.TemporaryDirectory() as d:
        pm = T.make(model=Half(2), seed=seed)
        first = train(ctx, pm, xy, 8, devices=devices, method=tx(), n_epochs=3, **(dict(save_checkpoint_dir=d + "/a", dump_state=ctx.choice([True, False])) if way == "checkpoint" else {}))
        kw = dict(start_from_current_state=True)
        if way == "checkpoint":
            pm, kw = T.make(model=Half(2), seed=seed + 1), dict(restore_checkpoint_path=d + "/a")
        elif way == "saved":
            pm.save_state(d + "/b")
            pm = T.make(model=Half(2), seed=seed + 1)
            pm.load_state(d + "/b")
        second = train(ctx, pm, xy, 8, devices=devices, method=tx(), n_epochs=3, **kw)
    ctx.check(second[0]["scale"] == first[-1]["scale"] and second[0]["fin"] == first[-1]["fin"], "scale-lost",
              f"{first[-1]['scale']} after {first[-1]['fin']} finite steps -> {second[0]['scale']} after {second[0]['fin']}")
    ctx.check(T.same_tree(second[0]["params"], first[-1]["params"]), "parameters-lost")
    joined = first + second[1:]
    ctx.check([l["scale"] for l in joined] == [l["scale"] for l in whole], "scales-differ", str(([l["scale"] for l in joined], [l["scale"] for l in whole])))
    for l, w in zip(joined, whole):
        for (p, u), v in zip(T.flat_dict(l["params"]).items(), T.flat_dict(w["params"]).values()):
            ctx.close(u, v, "trajectory-differs", f"{p} after step {l['step']}", rtol=1e-3, atol=1e-4)
    ctx.key(way, devices, T.leaves(second[-1]["params"])[0].tobytes())
    ctx.event("resumed")


APPROX = {
    "map": lambda: MAPPosteriorApproximator(),
    "advi": lambda: ADVIPosteriorApproximator(),
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "laplace": lambda: LaplacePosteriorApproximator(),
    "swag": lambda: SWAGPosteriorApproximator(rank=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2),
    "sgld": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-5),
}


@suite.scenario(quick=7, thorough=42)
def posteriors(ctx):
    """every approximation trains a half-precision network: finite states and predictions"""
    name = sorted(APPROX)[ctx.i % len(APPROX)]
    kind = "cls"
    xy = T.data(ctx, kind, 2, 16)
    pm = T.make(kind, 2, model=Half(2), approx=APPROX[name](), seed=ctx.integers(0, 100))
    ctx.note(name=name)
    kw = dict(map_fit_config=T.config(method=optax.sgd(1e-3), n_epochs=5)) if name in ("laplace", "swag") else {}
    st = pm.train(T.loader(xy, 8), fit_config=T.config(method=optax.adam(1e-3) if name in ("map", "advi", "ensemble", "laplace", "swag") else None, n_epochs=6), **kw)
    inp = T.loader(xy, 8).to_inputs_loader()
    p = np.asarray(pm.predictive.mean(inp, n_posterior_samples=3), np.float64)
    ctx.check(p.shape == (16, 2) and np.all(np.isfinite(p)), "predictions", str(p[:2]), fatal=True)
    ctx.close(p.sum(1), np.ones(16), "not-a-distribution", rtol=0, atol=5e-3)
    # the same parameters evaluated in single precision
    s = pm.posterior.sample(inputs=xy[0][:1])
    o16 = pm.joint.likelihood.model_manager.model.apply(s.params["model"], xy[0])
    o32 = Half(2, dtype=jnp.float32).apply(s.params["model"], xy[0])
    ctx.check(o16.dtype == jnp.float16, "network-not-in-half-precision", str(o16.dtype))
    ctx.close(np.asarray(o16, np.float32), o32, "half-precision-outputs", rtol=2e-2, atol=2e-2)
    lp = np.asarray(pm.predictive.log_prob(T.loader(xy, 8), n_posterior_samples=2))
    ctx.check(np.all(np.isfinite(lp)), "log-probability", str(lp[:3]))
    ctx.key(name, p.tobytes())
    ctx.event("posterior")


@suite.scenario(quick=4, thorough=12)
def other_types(ctx):
    """bfloat16 has a dynamic scale too, a single-precision network has none"""
    dtype, name = [(jnp.bfloat16, "bfloat16"), (jnp.float32, "float32")][ctx.i % 2]
    devices = 1 + (ctx.i // 2) % 2
    xy = T.data(ctx, "cls", 2, 16)
    pm = T.make(model=Half(2, dtype=dtype), seed=ctx.integers(0, 100))
    log = train(ctx, pm, xy, 8, devices=devices, method=optax.sgd(1e-3), n_epochs=3)
    ctx.check(all((l["scale"] is None) == (name == "float32") for l in log), "dynamic-scale", str([l["scale"] for l in log]))
    f, bts = reference("cls", 2), batches(xy, 8)
    for t, (a, b) in enumerate(zip(log, log[1:])):
        ctx.check(finite(b["params"]), "parameters-not-finite", fatal=True)
        u = jax.tree_util.tree_map(lambda g: -1e-3 * g, T.host(f(a["params"], *bts[t % 2], 16)[1]))
        err = norm(sub(sub(b["params"], a["params"]), u))
        ctx.check(err <= (0.15 if name == "bfloat16" else 1e-3) * norm(u) + 1e-6, "update:" + name, f"step {t + 1}: error {err:.3g} of {norm(u):.3g}")
    ctx.key(name, devices, T.leaves(log[-1]["params"])[0].tobytes())
    ctx.event(name)
