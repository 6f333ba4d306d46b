import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2 " + os.environ.get("XLA_FLAGS", "")

import flax.linen as nn  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from flax.core import FrozenDict  # noqa: E402
from scipy import special, stats  # noqa: E402

from fortuna.data.loader import DataLoader, InputsLoader  # noqa: E402
from fortuna.likelihood.classification import ClassificationLikelihood  # noqa: E402
from fortuna.likelihood.regression import RegressionLikelihood  # noqa: E402
from fortuna.model.mlp import MLP  # noqa: E402
from fortuna.model.model_manager.classification import ClassificationModelManager  # noqa: E402
from fortuna.model.model_manager.regression import RegressionModelManager  # noqa: E402
from fortuna.model.model_manager.state import ModelManagerState  # noqa: E402
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler  # noqa: E402
from fortuna.output_calibrator.output_calib_manager.base import OutputCalibManager  # noqa: E402
from fortuna.output_calibrator.regression import RegressionTemperatureScaler  # noqa: E402
from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer  # noqa: E402
from fortuna.prob_output_layer.regression import RegressionProbOutputLayer  # noqa: E402
from fortuna.utils.random import RandomNumberGenerator  # noqa: E402
from vf.core import Suite  # noqa: E402

suite = Suite(
    "C14",
    rule="case = (model, parameters, data, batch size, devices); distinct = distinct output arrays",
    assumptions=["runs with two emulated host devices, so distributed execution really shards",
                 "the flax model itself is trusted: it is evaluated directly, one example at a time"],
    required={"distributed": 20, "ragged": 10, "batch-norm": 10, "calibrated": 10},
)


class BN(nn.Module):
    output_dim: int

    @nn.compact
    def __call__(self, x, train=False, **kw):
        x = nn.Dense(3)(x.reshape(x.shape[0], -1))
        x = nn.BatchNorm(use_running_average=not train, momentum=0.8)(x)
        return nn.Dense(self.output_dim)(nn.tanh(x))


_cache = {}


def world(kind, bn, dim, calib):
    """one likelihood per configuration; parameters are drawn per case"""
    k = (kind, bn, dim, calib)
    if k in _cache:
        return _cache[k]
    model = BN(dim) if "m" in bn else MLP(dim, widths=(4,), activations=(nn.tanh,))
    rng = RandomNumberGenerator(0)
    if kind == "cls":
        mm = ClassificationModelManager(model)
        layer = ClassificationProbOutputLayer()
        cal = OutputCalibManager(ClassificationTemperatureScaler() if calib else None)
        lik = ClassificationLikelihood(mm, layer, cal)
    else:
        var = BN(dim) if "v" in bn else MLP(dim, widths=(3,), activations=(nn.tanh,))
        mm = RegressionModelManager(model, var)
        layer = RegressionProbOutputLayer()
        cal = OutputCalibManager(RegressionTemperatureScaler() if calib else None)
        lik = RegressionLikelihood(mm, layer, cal)
    for o in (mm, layer, cal, lik):
        o.rng = rng
    st = ModelManagerState.init_from_dict(mm.init((3,)))
    _cache[k] = (lik, mm, st)
    return _cache[k]


def case(ctx, kind=None):
    kind = kind or ctx.choice(["cls", "reg"])
    bn = ctx.choice(["", "", "m"]) if kind == "cls" else ctx.choice(["", "", "m", "v", "mv"])
    dim = ctx.choice([2, 3]) if kind == "cls" else ctx.choice([1, 2])
    calib = bool(ctx.rng.random() < 0.5)
    lik, mm, st = world(kind, bn, dim, calib)
    draw = lambda v: jnp.asarray(ctx.rng.normal(size=v.shape) * 0.7, v.dtype)
    params = jax.tree_util.tree_map(draw, st.params)
    mutable = None
    if st.mutable is not None:
        mutable = jax.tree_util.tree_map(lambda v: jnp.abs(draw(v)) + 0.2, st.mutable)
        ctx.event("batch-norm")
    cp = None
    temp = 0.0
    if calib:
        temp = float(np.float32(ctx.rng.normal()))
        cp = FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(log_temp=jnp.array([temp], jnp.float32))))
        ctx.event("calibrated")
    n, bs = ctx.choice([1, 2, 6, 7, 12]), ctx.choice([1, 2, 4, 5, 12])
    x = ctx.rng.normal(size=(n, 3)).astype("float32")
    y = ctx.rng.integers(0, dim, size=n) if kind == "cls" else ctx.rng.normal(size=(n, dim)).astype("float32")
    sizes = [min(bs, n - i) for i in range(0, n, bs)]
    even = all(s % 2 == 0 for s in sizes)
    if n % bs and n > bs:
        ctx.event("ragged")
    ctx.note(kind=kind, batch_norm=bn, dim=dim, log_temp=temp if calib else None, n=n, batch_size=bs)

    def sub(name, mod):
        v = {**params[name], **(mutable[name] if mutable is not None else {})}
        return np.concatenate([np.asarray(mod.apply(v, x[i:i + 1]), float) for i in range(n)])

    raw = sub("model", mm.model)
    if kind == "reg":
        raw = np.concatenate([raw, sub("lik_log_var", mm.likelihood_log_variance_model)], -1)
    out = raw.copy()
    if kind == "cls":
        out = raw * np.exp(-temp)
    else:
        out[:, dim:] = raw[:, dim:] + temp
    args = dict(params=params, mutable=mutable, calib_params=cp, calib_mutable=None)
    if cp is not None and ctx.rng.random() < 0.5:
        args["calib_mutable"] = FrozenDict(output_calibrator=None)
    return lik, mm, kind, dim, params, args, x, y, raw, out, bs, even


def logp(kind, dim, out, y):
    if kind == "cls":
        return special.log_softmax(out, -1)[np.arange(len(y)), y]
    return stats.norm.logpdf(y, out[:, :dim], np.exp(out[:, dim:] / 2)).sum(-1)


@suite.scenario(quick=70, thorough=1500)
def statistics(ctx):
    lik, mm, kind, dim, params, a, x, y, raw, out, bs, even = case(ctx)
    n = len(x)
    assert jax.local_device_count() == 2
    dist = bool(even and ctx.rng.random() < 0.8)
    dl = DataLoader.from_array_data((x, y), batch_size=bs)
    il = InputsLoader.from_array_inputs(x, batch_size=bs)
    if dist:
        ctx.event("distributed")
    kw = dict(distribute=dist)
    tol = dict(rtol=2e-4, atol=5e-5)
    o = lik.get_outputs(a["params"], il, a["mutable"], **kw)
    ctx.close(o, raw, "outputs", **tol)
    ctx.key(np.asarray(o))
    ctx.close(lik.get_calibrated_outputs(inputs_loader=il, **a, **kw), out, "calibrated-outputs", **tol)
    ctx.close(lik.log_prob(data_loader=dl, **a, **kw), logp(kind, dim, out, y), "log-prob", **tol)
    if kind == "cls":
        p = special.softmax(out, -1)
        mean, var, mode = p, p * (1 - p), out.argmax(-1)
        ent = -(p * np.log(np.maximum(p, 1e-300))).sum(-1)
    else:
        mean, var, mode = out[:, :dim], np.exp(out[:, dim:]), out[:, :dim]
        ent = None
    il2 = ctx.choice([il, dl.to_inputs_loader()])
    ctx.close(lik.mean(inputs_loader=il2, **a, **kw), mean, "mean", **tol)
    ctx.close(lik.variance(inputs_loader=il, **a, **kw), var, "variance", **tol)
    ctx.close(lik.std(inputs_loader=il, **a, **kw), np.sqrt(var), "std", rtol=2e-4, atol=1e-3)
    ctx.close(lik.std(inputs_loader=il, variance=jnp.asarray(var), **a, **kw), np.sqrt(var), "std", rtol=2e-4, atol=1e-4)
    m = np.asarray(lik.mode(inputs_loader=il, **a, **kw))
    if kind == "cls":
        srt = np.sort(out, -1)
        sure = srt[:, -1] - srt[:, -2] > 1e-3
        ctx.check(m.shape == mode.shape and np.array_equal(m[sure], mode[sure]), "mode")
        ctx.close(lik.entropy(inputs_loader=il, **a, **kw), ent, "entropy", **tol)
    else:
        ctx.close(m, mode, "mode", **tol)
    # samples: same key, same draw whatever the batching; the draw is the layer's on these outputs
    key = jax.random.PRNGKey(ctx.integers(0, 10 ** 6))
    s, aux = lik.sample(5, inputs_loader=il, rng=key, return_aux=["outputs"], **a, **kw)
    ctx.close(aux["outputs"], out, "sample-outputs", **tol)
    s2 = lik.sample(5, inputs_loader=InputsLoader.from_array_inputs(x, batch_size=n), rng=key, distribute=False, **a)
    if kind == "cls":
        ctx.check(np.mean(np.asarray(s) != np.asarray(s2)) < 0.1, "sample-batching")
        ctx.check(np.asarray(s).shape == (5, n) and set(np.unique(s)) <= set(range(dim)), "sample-support")
    else:
        ctx.close(s, s2, "sample-batching", rtol=1e-3, atol=1e-3)
        e1 = lik.entropy(inputs_loader=il, rng=key, n_target_samples=400, **a, **kw)
        want = stats.norm.entropy(out[:, :dim], np.exp(out[:, dim:] / 2)).sum(-1)
        ctx.check(np.asarray(e1).shape == (n,) and np.all(np.abs(e1 - want) < 6 * np.sqrt(dim / 2 / 400) + 1e-3), "entropy")
        q = lik.quantile(jnp.array([0.1, 0.9]), inputs_loader=il, n_target_samples=50, rng=key, **a, **kw)
        s50 = np.asarray(lik.sample(50, inputs_loader=il, rng=key, **a, **kw), float)
        ctx.close(q, np.quantile(s50, [0.1, 0.9], axis=0), "quantile", rtol=1e-3, atol=1e-3)
        ctx.close(lik.quantile(0.5, target_samples=jnp.asarray(s50)), np.quantile(s50, 0.5, axis=0), "quantile",
                  rtol=1e-3, atol=1e-3)


@suite.scenario(quick=30, thorough=600)
def batched_joint(ctx):
    lik, mm, kind, dim, params, a, x, y, raw, out, bs, even = case(ctx)
    n, total = len(x), ctx.choice([1, 10, 1000])
    lp = logp(kind, dim, out, y).sum() * total / n
    tol = dict(rtol=3e-4, atol=1e-3)
    f = lambda **kw: lik._batched_log_joint_prob(a["params"], (x, y), total, mutable=a["mutable"],
                                                 calib_params=a["calib_params"], calib_mutable=a["calib_mutable"], **kw)
    ctx.close(f(), lp, "rescaled-joint", **tol)
    v, aux = f(return_aux=["outputs"])
    ctx.close(v, lp, "rescaled-joint", **tol)
    ctx.close(aux["outputs"], out, "joint-outputs", rtol=2e-4, atol=5e-5)
    ctx.check(set(aux) == {"outputs"}, "joint-aux", set(aux))
    v, aux = f(return_aux=["outputs"], outputs=jnp.asarray(raw, jnp.float32))
    ctx.close(v, lp, "joint-from-outputs", **tol)
    ctx.close(aux["outputs"], out, "joint-from-outputs", rtol=2e-4, atol=5e-5)
    v, aux = f(return_aux=["outputs", "calib_mutable"])
    ctx.check("calib_mutable" in aux and dict(aux["calib_mutable"]) == dict(output_calibrator=None), "joint-calib-mutable")
    ctx.key(np.asarray(v))
    # unknown or contradictory requests are refused
    bad = ctx.choice(["params", "foo", "logits"])
    ctx.raises(AttributeError, lambda: f(return_aux=["outputs", bad]), "unknown-aux", bad)
    ctx.raises(ValueError, lambda: f(train=True, outputs=jnp.asarray(raw)), "train-with-outputs")
    ctx.raises(ValueError, lambda: f(return_aux=["mutable"]), "mutable-in-evaluation")
    if a["mutable"] is None:
        ctx.raises(ValueError, lambda: f(train=True, return_aux=["mutable"]), "missing-mutable")
    else:
        ctx.raises(ValueError, lambda: f(train=True), "mutable-not-returned")
    ctx.raises(Exception, lambda: lik.sample(2, a["params"], InputsLoader.from_array_inputs(x, batch_size=bs),
                                             return_aux=[bad], distribute=False), "unknown-aux", bad)


@suite.scenario(quick=30, thorough=600)
def mutable_variables(ctx):
    """training mode updates exactly the running statistics of the part that owns them"""
    lik, mm, kind, dim, params, a, x, y, raw, out, bs, even = case(ctx)
    if a["mutable"] is None or len(x) < 2:
        ctx.check(True, "no-mutable")
        return
    (res, aux) = mm.apply(a["params"], x, mutable=a["mutable"], train=True)
    new = aux["mutable"]
    outs = []
    for name, mod in [("model", mm.model)] + ([("lik_log_var", mm.likelihood_log_variance_model)] if kind == "reg" else []):
        mine = a["mutable"].get(name)
        if mine:
            o, upd = mod.apply({**a["params"][name], **mine}, x, train=True, mutable=list(mine.keys()))
            got = jax.tree_util.tree_leaves(new[name])
            want = jax.tree_util.tree_leaves(upd)
            ctx.check(len(got) == len(want) and all(np.allclose(u, v, rtol=1e-4, atol=1e-5) for u, v in zip(got, want)),
                      "running-statistics", name)
            before = jax.tree_util.tree_leaves(mine)
            ctx.check(any(not np.allclose(u, v) for u, v in zip(got, before)), "running-statistics-move", name)
        else:
            o = mod.apply(a["params"][name], x, train=True)
        outs.append(np.asarray(o))
    ctx.close(res, np.concatenate(outs, -1), "training-outputs", rtol=2e-4, atol=5e-5)
    v, aux2 = lik._batched_log_joint_prob(a["params"], (x, y), 100, mutable=a["mutable"], calib_params=a["calib_params"],
                                          return_aux=["outputs", "mutable"], train=True)
    same = jax.tree_util.tree_leaves(aux2["mutable"])
    ctx.check(all(np.allclose(u, w, rtol=1e-4, atol=1e-5) for u, w in zip(same, jax.tree_util.tree_leaves(new))), "joint-mutable")
    # evaluation leaves them alone and is not affected by the rest of the batch
    again = mm.apply(a["params"], x, mutable=a["mutable"])
    ctx.close(again, raw, "evaluation-outputs", rtol=2e-4, atol=5e-5)
    ctx.key(np.asarray(res))


@suite.scenario(quick=10, thorough=60)
def uneven(ctx):
    lik, mm, kind, dim, params, a, x, y, raw, out, bs, even = case(ctx)
    il = InputsLoader.from_array_inputs(np.concatenate([x, x, x])[:3], batch_size=3)
    if len(x) * 3 >= 3:
        ctx.raises(ValueError, lambda: lik.mean(inputs_loader=il, **a), "uneven-batch-refused")
