from functools import lru_cache

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict, unfreeze

from fortuna.model.cnn import CNN
from fortuna.model.constant import ConstantModel
from fortuna.model.hyper import HyperparameterModel
from fortuna.model.lenet import LeNet5, LeNet5DeepFeatureExtractorSubNet
from fortuna.model.linear import LinearModel
from fortuna.model.mlp import (DeepResidualFeatureExtractorSubNet, DeepResidualNet, MLP, MLPDeepFeatureExtractorSubNet)
from fortuna.model.model_manager.classification import ClassificationModelManager
from fortuna.model.model_manager.regression import RegressionModelManager
from fortuna.model import resnet as RN
from fortuna.model.scalar_constant import ScalarConstantModel
from fortuna.model.scalar_hyper import ScalarHyperparameterModel
from fortuna.model import wideresnet as WN
from vf.core import Suite
from vf.props import trainrig as T

suite = Suite(
    "C39",
    rule="case = (architecture, configuration, parameters and running statistics, inputs, training or evaluation mode); distinct = distinct outputs",
    assumptions=["residual networks are run with few blocks and filters: the blocks, stages and heads are those of the full-size presets",
                 "running statistics are compared with the momentum 0.9 that both residual families fix"],
    required={"eval": 24, "composed": 12, "stats-updated": 4, "stats-formula": 4, "dropout": 6, "dropout-rate": 3, "formula": 8, "constant": 8, "manager": 10,
              "manager-mutable": 3, "regression": 4, "mismatch": 1, "presets": 2, "spectral": 1, "activation": 2},
)

IMG = (12, 12, 2)
ARCH = {
    "mlp": (lambda r: MLP(3, widths=(6, 5), activations=(nn.tanh, nn.relu), dropout_rate=r), (4,), True),
    "mlp-images": (lambda r: MLP(2, widths=(6,), activations=(nn.elu,), dropout_rate=r), (3, 3, 2), True),
    "deep-residual": (lambda r: DeepResidualNet(2, widths=(5, 5, 5), activations=(nn.tanh, nn.relu, nn.elu), dropout_rate=r), (4,), True),
    "linear": (lambda r: LinearModel(3), (4,), False),
    "lenet": (lambda r: LeNet5(4), (20, 20, 1), False),
    "cnn": (lambda r: CNN(3, dropout_rate=r), (7, 7, 2), True),
    "resnet": (lambda r: RN.ResNet(stage_sizes=[1, 2], block_cls=RN.ResNetBlock, output_dim=3, num_filters=4), IMG, False),
    "bottleneck": (lambda r: RN.ResNet(stage_sizes=[1, 1], block_cls=RN.BottleneckResNetBlock, output_dim=2, num_filters=3, activation=nn.tanh), IMG, False),
    "wide": (lambda r: WN.WideResNet(output_dim=2, depth=10, widen_factor=1, dropout_rate=r), (32, 32, 1), True),
    "resnet-sn": (lambda r: RN.ResNetDeepFeatureExtractorSubNetWithSN(stage_sizes=[1, 1], block_cls=RN.ResNetBlock, num_filters=4), IMG, False),
    "wide-sn": (lambda r: WN.WideResNetDeepFeatureExtractorSubNetWithSN(depth=10, widen_factor=1, dropout_rate=r), (32, 32, 1), True),
}
HEADLESS = ("resnet-sn", "wide-sn")
CHEAP = ["mlp", "mlp-images", "deep-residual", "linear", "lenet", "cnn"]
OUT = {"mlp": 3, "mlp-images": 2, "deep-residual": 2, "linear": 3, "lenet": 4, "cnn": 3, "resnet": 3, "bottleneck": 2, "wide": 2, "resnet-sn": 8, "wide-sn": 64}
SUB = {"cnn": ("hidden_layers", "last_layer")}


@lru_cache(None)
def fns(arch, rate):
    m = ARCH[arch][0](rate)
    init = jax.jit(lambda k, x: m.init({"params": k, "dropout": k}, x, train=False))
    ev = jax.jit(lambda v, x: m.apply(v, x, train=False))
    tr = jax.jit(lambda v, x, k: m.apply(v, x, train=True, mutable=["batch_stats", "spectral_stats"], rngs={"dropout": k}))
    return m, init, ev, tr


def jitter(ctx, v):
    """parameters and statistics away from their initial values (variances stay positive)"""
    def f(path, a):
        a = np.asarray(a)
        e = ctx.rng.normal(size=a.shape)
        if path[-1] == "var":
            return jnp.asarray(a * np.exp(0.3 * e), a.dtype)
        return jnp.asarray(a + 0.2 * e, a.dtype)
    flat = T.flat_dict(v)
    out = {}
    for p, a in flat.items():
        d = out
        for q in p[:-1]:
            d = d.setdefault(q, {})
        d[p[-1]] = f(p, a)
    return out


def start(ctx, arch, rate, n):
    m, init, ev, tr = fns(arch, rate)
    x = ctx.rng.normal(size=(n,) + ARCH[arch][1]).astype(np.float32)
    v = jitter(ctx, init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x[:1]))
    return m, ev, tr, v, x


def pick(ctx):
    """all the architectures in turn, the expensive ones less often"""
    order = CHEAP + ["resnet", "mlp", "deep-residual", "cnn", "bottleneck"] + CHEAP[:3] + ["wide", "lenet", "resnet-sn", "mlp", "deep-residual", "wide-sn"]
    return order[ctx.i % len(order)]


@suite.scenario(quick=40, thorough=600)
def each_row_alone(ctx):
    """evaluation mode: every row equals its output alone, whatever the other rows, the order, the key and the call"""
    arch = pick(ctx)
    rate = ctx.choice([0.0, 0.5]) if ARCH[arch][2] else 0.0
    n = 4
    m, ev, tr, v, x = start(ctx, arch, rate, n)
    ctx.note(arch=arch, rate=rate)
    o = np.asarray(ev(v, x))
    ctx.check(o.shape == (n, OUT[arch]), "output-shape", str(o.shape))
    s = max(np.abs(o).max(), 1e-3)
    tol = dict(rtol=2e-4, atol=2e-4 * s)
    ctx.check(np.all(np.isfinite(o)), "finite")
    ctx.equal(np.asarray(ev(v, x)), o, "deterministic")
    perm = ctx.rng.permutation(n)
    ctx.close(ev(v, x[perm]), o[perm], "order", **tol)
    other = (x * (1 + 3 * np.abs(ctx.rng.normal(size=(n,) + (1,) * (x.ndim - 1)))) + 2).astype(np.float32)
    keep = ctx.integers(0, n - 1)
    other[keep] = x[keep]
    got = np.asarray(ev(v, other))
    ctx.close(got[keep], o[keep], "depends-on-other-rows", **tol)
    ctx.check(np.abs(got - o).max() > 1e-6 * s, "depends-on-inputs")
    ctx.close(ev(v, np.repeat(x[keep:keep + 1], n, 0)), np.repeat(o[keep:keep + 1], n, 0), "duplicates", **tol)
    # without jit, alone, with a dropout key and with every collection mutable: the same, and nothing changes
    o1, new = m.apply(v, x[:1], train=False, mutable=["batch_stats", "spectral_stats"], rngs={"dropout": jax.random.PRNGKey(ctx.i)})
    ctx.close(o1, o[:1], "alone", **tol)
    for c, st in new.items():
        ctx.check(T.same_tree(st, v[c]), "evaluation-changes:" + c)
    ctx.event("eval")
    if arch in HEADLESS:
        ctx.event("spectral")
    if arch not in HEADLESS + ("linear",):
        a, b = SUB.get(arch, ("dfe_subnet", "output_subnet"))
        body, head = (getattr(m.bind(v), q) for q in (a, b))
        h = body(x, False) if arch != "lenet" else body(x)
        ctx.check(h.shape[0] == n and h.ndim == 2, "feature-shape", str(h.shape))
        ctx.close(head(h), o, "head-of-features", **tol)
        # the extractor as a model of its own, as SNGP and the feature-based scores use it
        cls = type(m.bind(v).dfe_subnet) if arch != "cnn" else None
        if cls is not None:
            fields = {f: getattr(body, f) for f in body.__dataclass_fields__ if f not in ("parent", "name")}
            hv = {c: t["dfe_subnet"] for c, t in v.items() if "dfe_subnet" in t}
            h2 = cls(**fields).apply(hv, x) if arch == "lenet" else cls(**fields).apply(hv, x, train=False)
            ctx.close(h2, h, "extractor-alone", **tol)
        ctx.event("composed")
    ctx.key(o.tobytes())


@suite.scenario(quick=20, thorough=300)
def training_mode(ctx):
    """dropout and running statistics in training mode"""
    arch = ["mlp", "resnet", "cnn", "deep-residual", "bottleneck", "wide", "mlp-images", "resnet-sn", "lenet", "mlp"][ctx.i % 10]
    drops = ARCH[arch][2]
    rate = [0.0, 0.5][(ctx.i // 10 + ctx.i) % 2] if drops else 0.0
    n = 4
    m, ev, tr, v, x = start(ctx, arch, rate, n)
    ctx.note(arch=arch, rate=rate)
    k = jax.random.split(jax.random.PRNGKey(ctx.integers(0, 10**6)), 2)
    before = T.host(v)
    o, new = tr(v, x, k[0])
    o = np.asarray(o)
    ctx.check(np.all(np.isfinite(o)), "training:finite")
    again, new2 = tr(v, x, k[0])
    ctx.equal(np.asarray(again), o, "training:reproducible")
    other, _ = tr(v, x, k[1])
    if rate > 0:
        ctx.check(np.abs(np.asarray(other) - o).max() > 1e-6, "dropout-acts-in-training")
        ctx.event("dropout")
    else:
        ctx.equal(np.asarray(other), o, "no-randomness-without-dropout")
        if not set(v) - {"params"}:
            ctx.close(o, ev(v, x), "training-equals-evaluation-without-dropout", rtol=1e-4, atol=1e-4)
    ctx.check(T.same_tree(before, v), "variables-left-alone")
    ctx.check(set(new) == set(v) - {"params"}, "collections", f"{set(new)} {set(v)}")
    for c in new:
        a, b = T.flat_dict(v[c]), T.flat_dict(new[c])
        ctx.check(a.keys() == b.keys(), "collections:" + c)
        still = [p for p in a if np.array_equal(a[p], b[p])]
        ctx.check(not still, "updated-in-training:" + c, str(still[:3]))
        ctx.event("stats-updated")
    if arch in ("resnet", "bottleneck"):
        # the first normalisation sees the first convolution
        conv, bn = v["params"]["dfe_subnet"]["conv_init"]["kernel"], v["batch_stats"]["dfe_subnet"]["bn_init"]
        h = jax.lax.conv_general_dilated(x, conv, (2, 2), [(3, 3), (3, 3)], dimension_numbers=("NHWC", "HWIO", "NHWC"))
        nb = new["batch_stats"]["dfe_subnet"]["bn_init"]
        h = np.asarray(h, float)
        ctx.close(nb["mean"], 0.9 * np.asarray(bn["mean"]) + 0.1 * h.mean((0, 1, 2)), "running-mean", rtol=1e-3, atol=1e-4)
        ctx.close(nb["var"], 0.9 * np.asarray(bn["var"]) + 0.1 * h.var((0, 1, 2)), "running-variance", rtol=1e-3, atol=1e-4)
        ctx.event("stats-formula")
    if v.get("batch_stats") and rate == 0 and arch != "resnet-sn":
        # normalised by the batch: constant statistics do not matter in training
        w = dict(v, batch_stats=jax.tree_util.tree_map(lambda a: a * 2 + 1, v["batch_stats"]))
        ctx.close(tr(w, x, k[0])[0], o, "training-normalises-by-the-batch", rtol=1e-3, atol=1e-3)
        ctx.check(np.abs(np.asarray(ev(w, x)) - np.asarray(ev(v, x))).max() > 1e-5, "evaluation-uses-the-statistics")
    ctx.key(o.tobytes())


@suite.scenario(quick=6, thorough=80)
def dropout_rate(ctx):
    """zeroed features in training: the configured fraction, the others scaled up"""
    rate = [0.2, 0.5, 0.8][ctx.i % 3]
    kind = ctx.choice(["mlp", "residual"])
    width = 400
    cls = MLPDeepFeatureExtractorSubNet if kind == "mlp" else DeepResidualFeatureExtractorSubNet
    layers = 1 if kind == "mlp" else 2
    m = cls(widths=(width,) * layers, activations=(jnp.cosh,) * layers, dropout_rate=rate)
    x = ctx.rng.normal(size=(5, 3)).astype(np.float32)
    v = m.init(jax.random.PRNGKey(ctx.i), x)
    o = np.asarray(m.apply(v, x, train=False))
    t = np.asarray(m.apply(v, x, train=True, rngs={"dropout": jax.random.PRNGKey(ctx.integers(0, 10**6))}))
    if kind == "residual":
        p = v["params"]
        h = x @ np.asarray(p["hidden1"]["kernel"]) + np.asarray(p["hidden1"]["bias"])
        o, t = o - h, t - h
    zero = np.abs(t) < 1e-5
    ctx.close(t[~zero], (o / (1 - rate))[~zero], "survivors-scaled", rtol=1e-3, atol=1e-4)
    ctx.check(abs(zero.mean() - rate) < 6 * np.sqrt(rate * (1 - rate) / zero.size), "dropout-rate", f"{zero.mean()} {rate}")
    ctx.check(zero.any(1).all() and not np.array_equal(zero[0], zero[1]), "rows-dropped-independently")
    ctx.note(kind=kind, rate=rate)
    ctx.event("dropout-rate")
    ctx.key(t.tobytes())


ACT = {"tanh": (nn.tanh, np.tanh), "relu": (nn.relu, lambda a: np.maximum(a, 0)), "square": (jnp.square, np.square), "softplus": (nn.softplus, lambda a: np.logaddexp(a, 0))}


@suite.scenario(quick=16, thorough=300)
def dense_formulas(ctx):
    """networks of dense layers against numpy"""
    kind = ["mlp", "residual", "linear", "mlp"][ctx.i % 4]
    out, d = ctx.choice([1, 3]), ctx.choice([2, 5])
    x = ctx.rng.normal(size=(4, d)).astype(np.float32)
    L = ctx.choice([1, 2, 3])
    acts = [ctx.choice(list(ACT)) for _ in range(L)]
    widths = tuple(ctx.choice([2, 4]) for _ in range(L)) if kind == "mlp" else (3,) * L
    if kind == "linear":
        m = LinearModel(out)
    else:
        m = (MLP if kind == "mlp" else DeepResidualNet)(out, widths=widths, activations=tuple(ACT[a][0] for a in acts))
    v = jitter(ctx, m.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x))
    p = v["params"]
    D = lambda q, h: h @ np.asarray(q["kernel"], float) + np.asarray(q["bias"], float)
    f = [ACT[a][1] for a in acts]
    h = x.astype(float)
    if kind == "mlp":
        for i in range(L):
            h = f[i](D(p["dfe_subnet"][f"hidden{i + 1}"], h))
    elif kind == "residual":
        h = D(p["dfe_subnet"]["hidden1"], h)
        for i in range(1, L):
            y = D(p["dfe_subnet"][f"hidden{i + 1}"], h)
            h = h + (f[i](y) if i < L - 1 else y)
        h = f[-1](h)
    want = D(p["last"] if kind == "linear" else p["output_subnet"]["last"], h)
    ctx.close(m.apply(v, x), want, "formula:" + kind, rtol=1e-3, atol=1e-3 * max(1, np.abs(want).max()))
    if kind == "mlp" and ctx.i % 8 == 0:
        ctx.raises(Exception, lambda: MLP(out, widths=(2, 3), activations=(nn.relu,)).init(jax.random.PRNGKey(0), x), "widths-and-activations")
    ctx.event("formula")
    ctx.note(kind=kind, widths=widths, acts=acts)
    ctx.key(want.tobytes())


@suite.scenario(quick=10, thorough=150)
def constants(ctx):
    n, out = ctx.choice([1, 4]), ctx.choice([1, 3])
    shape = (n,) + ctx.choice([(2,), (3, 3, 1)])
    x = ctx.rng.normal(size=shape).astype(np.float32)
    val = float(ctx.rng.normal())
    init = nn.initializers.constant(val)
    vec = ctx.rng.normal(size=out).astype(np.float32)
    for name, m, want in [("constant", ConstantModel(out, initializer_fun=init), np.full(out, val)), ("scalar", ScalarConstantModel(out, initializer_fun=init), np.full(out, val)),
                          ("hyper", HyperparameterModel(jnp.asarray(vec)), vec), ("scalar-hyper", ScalarHyperparameterModel(out, val), np.full(out, val))]:
        v = m.init(jax.random.PRNGKey(0), x)
        for kw in (dict(), dict(train=True), dict(train=False)):
            o = m.apply(v, x, **kw)
            ctx.close(o, np.broadcast_to(want, (n, out)), "broadcast:" + name, rtol=1e-6, atol=1e-6)
        size = sum(a.size for a in T.flat_dict(v.get("params", {})).values())
        ctx.check(size == {"constant": out, "scalar": 1, "hyper": 0, "scalar-hyper": 0}[name], "number-of-parameters:" + name, str(size))
        if name == "constant":
            v = {"params": {"constant": jnp.asarray(vec)}}
            ctx.close(m.apply(v, x), np.broadcast_to(vec, (n, out)), "broadcast:parameter", rtol=1e-6, atol=1e-6)
        if name == "scalar":
            v = jax.tree_util.tree_map(lambda a: a + 1.5, v)
            ctx.close(m.apply(v, x), np.full((n, out), val + 1.5), "broadcast:parameter", rtol=1e-5, atol=1e-5)
        ctx.event("constant")
    ctx.raises(ValueError, lambda: HyperparameterModel(jnp.ones((2, 2))).init(jax.random.PRNGKey(0), x), "hyper-dimension")
    ctx.raises(ValueError, lambda: ScalarHyperparameterModel(out, jnp.ones(1)).init(jax.random.PRNGKey(0), x), "scalar-hyper-type")
    ctx.key((n, out, val))


@suite.scenario(quick=12, thorough=200)
def classification_manager(ctx):
    """the model manager gives the outputs and the new statistics of the model"""
    arch = ["mlp", "net", "cnn", "resnet", "deep-residual", "net"][ctx.i % 6]
    if arch == "net":
        m, shape = T.Net(2, 0.5), (3,)
    else:
        m, shape = fns(arch, 0.5 if ARCH[arch][2] else 0.0)[0], ARCH[arch][1]
    mm = ClassificationModelManager(m)
    key = jax.random.PRNGKey(ctx.integers(0, 10**6))
    d = mm.init(shape, rng=key, train=False)
    ctx.check(T.same_tree(d["model"], mm.init(shape, rng=key, train=False)["model"]), "init:reproducible")
    ctx.check(not T.same_tree(d["model"], mm.init(shape, rng=jax.random.PRNGKey(1234567), train=False)["model"]), "init:depends-on-key")
    v = jitter(ctx, d["model"])
    params = FrozenDict(model=FrozenDict(params=v["params"]))
    rest = {c: t for c, t in v.items() if c != "params"}
    mutable = FrozenDict(model=FrozenDict(rest)) if rest else None
    x = ctx.rng.normal(size=(4,) + shape).astype(np.float32)
    before = T.host(v)
    ev = m.apply(v, x, train=False)
    for k in (None, jax.random.PRNGKey(3)):
        o = mm.apply(params, x, mutable, train=False, rng=k)
        ctx.close(o, ev, "manager:evaluation", rtol=1e-5, atol=1e-5)
    rng = jax.random.PRNGKey(ctx.integers(0, 10**6))
    out = mm.apply(params, x, mutable, train=True, rng=rng)
    dk = jax.random.split(rng, 2)[1]
    if rest:
        o, aux = out
        want, new = m.apply(v, x, train=True, mutable=list(rest), rngs={"dropout": dk})
        got = aux["mutable"]["model"]
        a, b = T.flat_dict(got), T.flat_dict(new)
        ctx.check(a.keys() == b.keys() and all(np.allclose(a[p], b[p], atol=1e-5) for p in a), "manager:new-statistics")
        ctx.event("manager-mutable")
    else:
        o, want = out, m.apply(v, x, train=True, rngs={"dropout": dk})
    ctx.check(np.shape(o) == np.shape(want), "manager:training-shape")
    if arch != "net" and not ARCH[arch][2]:
        ctx.close(o, want, "manager:training", rtol=1e-4, atol=1e-4)
    else:
        o2 = mm.apply(params, x, mutable, train=True, rng=rng)
        ctx.equal(np.asarray(o2[0] if rest else o2), np.asarray(o), "manager:training-reproducible")
        o3 = mm.apply(params, x, mutable, train=True, rng=jax.random.PRNGKey(77))
        ctx.check(not np.array_equal(np.asarray(o3[0] if rest else o3), np.asarray(o)), "manager:key-reaches-dropout")
    ctx.check(T.same_tree(before, v), "manager:variables-left-alone")
    ctx.event("manager")
    ctx.note(arch=arch)
    ctx.key(np.asarray(o).tobytes())


@suite.scenario(quick=10, thorough=150)
def regression_manager(ctx):
    """means and log-variances side by side, each from its own model with its own statistics"""
    out = ctx.choice([1, 2])
    kinds = [("mlp", "net"), ("net", "constant"), ("net", "net"), ("mlp", "mlp"), ("mlp", "hyper")][ctx.i % 5]
    mk = {"mlp": lambda: MLP(out, widths=(4,), activations=(nn.tanh,)), "net": lambda: T.Net(out), "constant": lambda: ConstantModel(out),
          "hyper": lambda: HyperparameterModel(jnp.arange(out) * 1.0)}
    a, b = (mk[k]() for k in kinds)
    mm = RegressionModelManager(a, b)
    d = mm.init((3,), rng=jax.random.PRNGKey(ctx.integers(0, 10**6)))
    v = {k: jitter(ctx, t) for k, t in d.items()}
    x = ctx.rng.normal(size=(4, 3)).astype(np.float32)
    params = FrozenDict({k: FrozenDict(params=t["params"]) for k, t in v.items()})
    rest = {k: FrozenDict({c: s for c, s in t.items() if c != "params"}) for k, t in v.items()}
    has = any(len(t) for t in rest.values())
    mutable = FrozenDict(rest) if has else None
    want = np.concatenate([a.apply(v["model"], x, train=False), b.apply(v["lik_log_var"], x, train=False)], -1)
    ctx.close(mm.apply(params, x, mutable, train=False), want, "regression:evaluation", rtol=1e-5, atol=1e-5)
    out_ = mm.apply(params, x, mutable, train=True, rng=jax.random.PRNGKey(1))
    o = out_[0] if has else out_
    tr = [m.apply(v[k], x, train=True, mutable=list(rest[k]), rngs={"dropout": jax.random.PRNGKey(0)}) if len(rest[k]) else (m.apply(v[k], x, train=True), {})
          for k, m in (("model", a), ("lik_log_var", b))]
    ctx.close(o, np.concatenate([t[0] for t in tr], -1), "regression:training", rtol=1e-4, atol=1e-4)
    if has:
        got = out_[1]["mutable"]
        for (k, (_, new)) in zip(("model", "lik_log_var"), tr):
            f, g = T.flat_dict(got.get(k, {})), T.flat_dict(new)
            ctx.check(f.keys() == g.keys() and all(np.allclose(f[p], g[p], atol=1e-5) for p in f), "regression:new-statistics:" + k)
        ctx.event("manager-mutable")
    ctx.event("regression")
    if ctx.i % 3 == 0:
        bad = RegressionModelManager(a, MLP(out + 1, widths=(2,), activations=(nn.tanh,)))
        db = bad.init((3,), rng=jax.random.PRNGKey(0))
        pb = FrozenDict({k: FrozenDict(params=t["params"]) for k, t in db.items()})
        mb = FrozenDict({k: FrozenDict({c: s for c, s in t.items() if c != "params"}) for k, t in db.items()})
        ctx.raises(ValueError, lambda: bad.apply(pb, x, mb if any(len(t) for t in mb.values()) else None), "output-dimensions-differ")
        ctx.event("mismatch")
    ctx.note(kinds=kinds, out=out)
    ctx.key(np.asarray(o).tobytes())


def counting(fn, log):
    def act(a):
        log.append(a.shape)
        return fn(a)
    return act


@suite.scenario(quick=4, thorough=12)
def configured_activation(ctx):
    """residual networks apply the activation they are given, and no other, after every normalisation"""
    wide = ctx.i % 2 == 0
    block = [RN.ResNetBlock, RN.BottleneckResNetBlock][ctx.i // 2 % 2]
    x = jax.ShapeDtypeStruct((1, 32, 32, 2), jnp.float32)
    log = []
    act = counting(jnp.sin, log)
    make = (lambda a: WN.WideResNet(output_dim=2, depth=10, widen_factor=1, activation=a)) if wide else (
        lambda a: RN.ResNet(stage_sizes=[1, 2], block_cls=block, output_dim=2, num_filters=2, activation=a))
    v = jax.eval_shape(lambda k, x: make(jnp.sin).init(k, x, train=False), jax.random.PRNGKey(0), x)
    jax.eval_shape(lambda v, x: make(act).apply(v, x, train=False), v, x)
    norms = sum(1 for p, _ in _shapes(v["params"]) if p[-1] == "scale" and "norm_proj" not in p)
    ctx.check(len(log) == norms, "activation-after-every-normalisation", f"{len(log)} of {norms}")
    ctx.event("activation")
    ctx.key((wide, block.__name__))


PRESETS = [("ResNet18", (2, 2, 2, 2), RN.ResNetBlock), ("ResNet34", (3, 4, 6, 3), RN.ResNetBlock), ("ResNet50", (3, 4, 6, 3), RN.BottleneckResNetBlock),
           ("ResNet101", (3, 4, 23, 3), RN.BottleneckResNetBlock), ("ResNet152", (3, 8, 36, 3), RN.BottleneckResNetBlock), ("ResNet200", (3, 24, 36, 3), RN.BottleneckResNetBlock)]


@suite.scenario(quick=6, thorough=6)
def presets(ctx):
    """shapes only: the presets have the advertised number of layers and output dimension (nothing is computed)"""
    name, stages, block = PRESETS[ctx.i % len(PRESETS)]
    dim = ctx.choice([2, 10])
    m = getattr(RN, name)(output_dim=dim)
    x = jax.ShapeDtypeStruct((1, 32, 32, 3), jnp.float32)
    v = jax.eval_shape(lambda k, x: m.init(k, x, train=False), jax.random.PRNGKey(0), x)
    o = jax.eval_shape(lambda v, x: m.apply(v, x, train=False), v, x)
    ctx.check(o.shape == (1, dim), "preset:output-shape")
    kernels = [p for p in [q for q, _ in _shapes(v["params"])] if p[-1] == "kernel" and "conv_proj" not in p]
    per = 2 if block is RN.ResNetBlock else 3
    ctx.check(len(kernels) == per * sum(stages) + 2 == int(name[6:]), "preset:depth", f"{name} {len(kernels)}")
    ctx.event("presets")
    if ctx.i == 0:
        w = WN.WideResNet28_10(output_dim=dim)
        v = jax.eval_shape(lambda k, x: w.init(k, x, train=False), jax.random.PRNGKey(0), x)
        ctx.check(jax.eval_shape(lambda v, x: w.apply(v, x, train=False), v, x).shape == (1, dim), "preset:output-shape")
        ctx.check(dict(_shapes(v["params"]))[("output_subnet", "Dense_0", "kernel")] == (640, dim), "preset:width")
    ctx.key((name, dim))


def _shapes(t, p=()):
    for k, s in t.items():
        if hasattr(s, "items"):
            yield from _shapes(s, p + (k,))
        else:
            yield p + (k,), s.shape
