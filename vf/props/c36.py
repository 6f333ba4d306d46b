import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.model.mlp import DeepResidualFeatureExtractorSubNet, MLPDeepFeatureExtractorSubNet
from fortuna.model.resnet import ResNetBlock, ResNetDeepFeatureExtractorSubNetWithSN
from fortuna.model.model_manager.classification import SNGPClassificationModelManager
from fortuna.model.utils.random_features import (LaplaceRandomFeatureCovariance, RandomFeatureGaussianProcess, RandomFourierFeatures)
from fortuna.model.utils.spectral_norm import (SpectralNormalization, SpectralNormalizationConv2D, WithSpectralNorm)
from fortuna.prob_model import SNGPPosteriorApproximator
from fortuna.prob_model.fit_config.callback import FitCallback
from vf.core import Suite
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C36",
    rule="case = (layer, weight, bound, number of power iterations, update/evaluate history) or (features, momentum, ridge, batches); distinct = distinct applied weights or covariances",
    assumptions=["convergence within 1% is claimed for weights whose second singular value is at most 0.7 of the first, after 40 power iterations",
                 "the spectral norm of a convolution is that of its linear operator with SAME padding (the documented default)",
                 "SNGP precision over an epoch is compared with a learning rate of zero, so that all batches of an epoch see the same features"],
    required={"dense": 12, "conv": 5, "converged-above": 10, "left-alone": 6, "eval-keeps": 20, "rff": 10, "laplace": 15, "momentum": 5,
              "rank3": 4, "gp": 8, "mean-field": 6, "fit": 4, "fit-momentum": 1, "continued": 1},
)


def weight(ctx, m, n, top):
    """(m, n) matrix with largest singular value `top`, the others at most 0.7 of it (or all the same)"""
    k = min(m, n)
    u, _ = np.linalg.qr(ctx.rng.normal(size=(m, k)))
    v, _ = np.linalg.qr(ctx.rng.normal(size=(n, k)))
    s = np.concatenate([[1.0], np.sort(ctx.rng.uniform(0, 0.7, size=k - 1))[::-1]]) if ctx.rng.random() < 0.8 else np.ones(k)
    return (top * (u * s) @ v.T).astype(np.float32)


@suite.scenario(quick=24, thorough=500)
def dense_layers(ctx):
    """weights applied by a spectrally normalised dense layer over a history of updating and evaluating calls"""
    m, n = ctx.choice([1, 3, 6]), ctx.choice([1, 2, 5])
    bound = ctx.choice([0.5, 0.95, 1.0, 3.0])
    rel = ctx.choice([0.2, 0.9, 1.5, 20.0])
    iteration = ctx.choice([1, 3])
    w = weight(ctx, m, n, rel * bound)
    b = ctx.rng.normal(size=n).astype(np.float32)
    by_call = ctx.rng.random() < 0.5
    layer = lambda u: SpectralNormalization(layer=nn.Dense(n), iteration=iteration, norm_multiplier=bound,
                                            update_singular_value_estimate=None if by_call else u)
    ctx.note(shape=(m, n), bound=bound, rel=rel, iteration=iteration)
    x0 = jnp.zeros((1, m))
    kw = dict(update_singular_value_estimate=True) if by_call else {}
    v = layer(True).init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x0, **kw)
    (name,) = v["params"]
    ctx.check(set(v["params"][name]) == {"kernel", "bias"} and v["params"][name]["kernel"].shape == w.shape, "parameters")
    params = {name: dict(kernel=jnp.asarray(w), bias=jnp.asarray(b))}
    stats = v["spectral_stats"]

    def applied(stats, update):
        """the affine map the layer applies, read from its outputs"""
        x = jnp.concatenate([jnp.zeros((1, m)), jnp.eye(m)])
        mod = layer(update)
        kw = dict(update_singular_value_estimate=update) if by_call else {}
        if update:
            o, new = mod.apply(dict(params=params, spectral_stats=stats), x, mutable=["spectral_stats"], **kw)
            new = new["spectral_stats"]
        else:
            if ctx.rng.random() < 0.5:
                o, new = mod.apply(dict(params=params, spectral_stats=stats), x, mutable=["spectral_stats"], **kw)
                ctx.check(T.same_tree(new["spectral_stats"], stats), "update-not-asked-for")
            else:
                o = mod.apply(dict(params=params, spectral_stats=stats), x, **kw)
            new = stats
            ctx.event("eval-keeps")
        ctx.close(o[0], b, "bias", rtol=1e-4, atol=1e-4 * max(1, rel * bound))
        return np.asarray(o[1:] - o[0]), new

    top = np.linalg.svd(w.astype(float), compute_uv=False)[0]
    norms = []
    total = 0
    while total < 40:
        update = total == 0 or ctx.rng.random() < 0.8
        before = T.host(stats)
        a, stats = applied(stats, update)
        if update:
            total += iteration
            if m > 1 and n > 1 and total == iteration:
                ctx.check(not T.same_tree(before, stats), "update-moves-the-estimate")
        elif norms:
            ctx.close(a, last, "eval-applies-the-same", rtol=1e-4, atol=1e-5 * top)
        last = a
        scale = np.linalg.svd(a.astype(float), compute_uv=False)[0]
        ctx.close(a * top, scale * w, "only-rescaled", rtol=1e-3, atol=2e-4 * top * top)
        # the estimate never exceeds the true norm, so that the weight is never shrunk below the bound
        ctx.check(scale > min(bound, top) * (1 - 1e-3), "never-below-the-bound", f"{scale} {bound} {top}")
        ctx.check(scale < top * (1 + 1e-3), "never-amplified")
        if norms:
            ctx.check(scale <= norms[-1] * (1 + 1e-3), "monotone", f"{norms[-1]} -> {scale}")
        norms.append(scale)
    ctx.check(norms[-1] <= max(bound, 0) * 1.01 or norms[-1] <= top * 1.001 and top <= bound, "converges-to-the-bound", f"{norms[-1]} bound {bound} top {top}")
    ctx.event("dense")
    if rel < 1:
        ctx.close(last, w, "small-weights-left-alone", rtol=1e-3, atol=1e-4 * top)
        ctx.event("left-alone")
    else:
        ctx.close(last, w * bound / top, "rescaled-to-the-bound", rtol=2e-2, atol=1e-2 * bound)
        ctx.event("converged-above")
    ctx.key(np.round(last, 4).tobytes())


def operator(f, in_shape):
    e = np.eye(int(np.prod(in_shape)), dtype=np.float32).reshape((-1,) + in_shape)
    o = np.asarray(f(jnp.asarray(e)))
    return o.reshape(len(e), -1).astype(float)


@suite.scenario(quick=10, thorough=120)
def conv_layers(ctx):
    """the linear operator a spectrally normalised convolution applies"""
    size, cin, cout = ctx.choice([3, 5]), ctx.choice([1, 2]), ctx.choice([1, 3])
    strides, k = ctx.choice([(1, 1), (2, 2)]), ctx.choice([1, 3])
    bound, rel, use_bias = ctx.choice([0.6, 0.95, 2.0]), ctx.choice([0.3, 1.8, 10.0]), ctx.rng.random() < 0.5
    pad = "VALID" if strides == (1, 1) and k == 3 and ctx.rng.random() < 0.3 else "SAME"
    conv = nn.Conv(cout, (k, k), strides, padding=pad, use_bias=use_bias)
    same = nn.Conv(cout, (k, k), strides, padding="SAME", use_bias=False)
    layer = lambda u: SpectralNormalizationConv2D(layer=conv, iteration=4, norm_multiplier=bound, update_singular_value_estimate=u)
    shape = (size, size, cin)
    v = layer(True).init(jax.random.PRNGKey(ctx.integers(0, 10**6)), jnp.zeros((2,) + shape))
    (name,) = v["params"]
    w = ctx.rng.normal(size=(k, k, cin, cout)).astype(np.float32)
    raw = operator(lambda x: same.apply({"params": {"kernel": jnp.asarray(w)}}, x), shape)
    s = np.linalg.svd(raw, compute_uv=False)
    w = w * np.float32(rel * bound / s[0])
    own = operator(lambda x: nn.Conv(cout, (k, k), strides, padding=pad, use_bias=False).apply({"params": {"kernel": jnp.asarray(w)}}, x), shape)
    b = ctx.rng.normal(size=cout).astype(np.float32)
    params = {name: dict(kernel=jnp.asarray(w), **({"bias": jnp.asarray(b)} if use_bias else {}))}
    stats = v["spectral_stats"]
    ctx.note(shape=shape, out=cout, strides=strides, k=k, bound=bound, rel=rel, pad=pad)
    step = jax.jit(lambda s: layer(True).apply(dict(params=params, spectral_stats=s), jnp.zeros((2,) + shape), mutable=["spectral_stats"])[1]["spectral_stats"])
    for _ in range(25 if ctx.tier == "quick" else 100):
        stats = step(stats)
    frozen = T.host(stats)

    def f(x):
        o, new = layer(False).apply(dict(params=params, spectral_stats=stats), x, mutable=["spectral_stats"])
        ctx.check(T.same_tree(new["spectral_stats"], frozen), "update-not-asked-for")
        return o - (b if use_bias else 0)

    got = operator(f, shape)
    top = np.linalg.svd(got, compute_uv=False)[0]
    ctx.event("conv")
    ctx.event("eval-keeps")
    # close singular values make the iteration slow, but the estimate is then still close to the largest one
    ctx.check(top <= max(bound, 0) * 1.03 or rel < 1, "conv:converges-to-the-bound", f"{top} bound {bound}")
    if rel < 1:
        ctx.close(got, own, "conv:small-weights-left-alone", rtol=1e-3, atol=1e-4)
        ctx.event("left-alone")
    else:
        ctx.close(got, own / rel, "conv:rescaled-to-the-bound", rtol=4e-2, atol=1e-2)
        ctx.event("converged-above")
    ctx.key(np.round(got, 4).tobytes())


class SNExtractor(WithSpectralNorm, MLPDeepFeatureExtractorSubNet):
    pass


class SNResidual(WithSpectralNorm, DeepResidualFeatureExtractorSubNet):
    pass


@suite.scenario(quick=6, thorough=60)
def networks_with_spectral_norm(ctx):
    """feature extractors with spectral normalisation: statistics only move in training, every dense layer ends within the bound"""
    residual = ctx.rng.random() < 0.5
    widths = (4, 4, 4) if residual else (5, 3)
    bound = ctx.choice([0.6, 0.95])
    net = (SNResidual if residual else SNExtractor)(dense=nn.Dense, widths=widths, activations=(lambda x: x,) * (len(widths) - 1) + (lambda x: x,),
                                                    spectral_norm_bound=bound, spectral_norm_iteration=ctx.choice([1, 3]))
    ctx.note(residual=residual, widths=widths, bound=bound)
    x = ctx.rng.normal(size=(5, 4)).astype(np.float32)
    v = net.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x)
    params = jax.tree_util.tree_map(lambda p: p * 4.0, v["params"])
    stats = v["spectral_stats"]
    step = jax.jit(lambda s: net.apply(dict(params=params, spectral_stats=s), x, train=True, mutable=["spectral_stats"])[1]["spectral_stats"])
    for _ in range(200):
        stats = step(stats)
    o, new = net.apply(dict(params=params, spectral_stats=stats), x, train=False, mutable=["spectral_stats"])
    ctx.check(T.same_tree(new["spectral_stats"], stats), "update-not-asked-for")
    ctx.event("eval-keeps")
    ks = [(p, k) for p, k in T.flat_dict(params).items() if p[-1] == "kernel"]
    ctx.check(len(ks) == len(widths), "one-kernel-per-layer")
    # linear activations: the whole network is a known product of rescaled weights
    h = x.astype(float)
    for i, (p, k) in enumerate(ks):
        k = k.astype(float)
        a = k / max(np.linalg.svd(k, compute_uv=False)[0] / bound, 1.0)
        bias = np.asarray(T.flat_dict(params)[p[:-1] + ("bias",)], float)
        y = h @ a + bias
        h = h + y if residual and i > 0 else y
    ctx.close(o, h, "network-of-rescaled-weights", rtol=2e-2, atol=2e-2 * np.abs(h).max())
    ctx.key(np.asarray(o).tobytes())


@suite.scenario(quick=14, thorough=300)
def fourier_features(ctx):
    d, n = ctx.choice([1, 3]), ctx.choice([4, 16])
    ks, fs = ctx.choice([0.5, 1.0, 4.0]), ctx.choice([None, 1.0, 2.0])
    seed, coll = ctx.integers(0, 50), ctx.choice(["random_features", "my_features"])
    lead = ctx.choice([(5,), (2, 3)])
    layer = RandomFourierFeatures(features=n, kernel_scale=ks, feature_scale=fs, seed=seed, collection_name=coll)
    x = ctx.rng.normal(size=lead + (d,)).astype(np.float32)
    v = layer.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x)
    v2 = layer.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x[..., :d])
    ctx.check(T.same_tree(v[coll], v2[coll]), "features-fixed-by-their-seed")
    W, b = np.asarray(v[coll]["kernel"], float), np.asarray(v[coll]["bias"], float)
    ctx.check(W.shape == (d, n) and b.shape == (n,), "feature-shapes")
    ctx.check(np.all((b >= 0) & (b < 2 * np.pi + 1e-5)), "phases")
    o, new = layer.apply(v, x, mutable=[coll])
    ctx.check(T.same_tree(new[coll], v[coll]), "features-never-change")
    ctx.close(o, (np.sqrt(2 / n) if fs is None else fs) * np.cos(x.astype(float) @ W / ks + b), "random-features", rtol=1e-4, atol=1e-4)
    ctx.event("rff")
    if len(lead) == 2:
        ctx.event("rank3")
    ctx.key(np.asarray(o).tobytes())


def ref_precision(P, phi, momentum):
    g = phi.T @ phi
    return P + g if momentum is None else momentum * P + (1 - momentum) * g / len(phi)


def check_cov(ctx, diag, full, P, phi, ridge, mech):
    want = ridge * phi @ np.linalg.solve(P, phi.T)
    s = max(np.abs(want).max(), 1e-6)
    if full is not None:
        full = np.asarray(full, float)
        ctx.close(full, want, mech + ":covariance", rtol=2e-3, atol=1e-3 * s)
        ctx.close(full, full.T, mech + ":symmetric", rtol=1e-4, atol=1e-5 * s)
        ctx.check(np.linalg.eigvalsh((full + full.T) / 2).min() > -1e-3 * s, mech + ":positive-semidefinite")
    if diag is not None:
        ctx.close(diag, np.diag(want), mech + ":variances", rtol=2e-3, atol=1e-3 * s)
        ctx.check(np.all(np.asarray(diag) >= 0), mech + ":nonnegative")


@suite.scenario(quick=24, thorough=500)
def covariance_histories(ctx):
    """update and evaluation calls in any order against dense float64 linear algebra"""
    n = ctx.choice([3, 8])
    ridge, momentum = ctx.choice([0.1, 1.0, 5.0]), ctx.choice([None, None, 0.0, 0.6, 0.99])
    rank3 = ctx.rng.random() < 0.25
    layer = LaplaceRandomFeatureCovariance(hidden_features=n, ridge_penalty=ridge, momentum=momentum)
    coll = "laplace_covariance"
    x0 = ctx.rng.normal(size=(3, n)).astype(np.float32)
    v = layer.init(jax.random.PRNGKey(0), x0)
    P = ridge * np.eye(n)
    ctx.close(v[coll]["precision_matrix"], P, "initial-precision", rtol=1e-6, atol=1e-6)
    ctx.note(n=n, ridge=ridge, momentum=momentum, rank3=rank3)
    ops = []
    logits = ctx.rng.random() < 0.5
    for _ in range(ctx.integers(3, 8)):
        b = ctx.choice([1, 3, 6])
        shape = (b, 2, n) if rank3 else (b, n)
        phi = ctx.rng.normal(size=shape).astype(np.float32)
        lg = ctx.rng.normal(size=shape[:-1] + (2,)).astype(np.float32) if logits else None
        flat = phi.reshape(-1, n).astype(float)
        op = ctx.choice(["update", "update", "diag", "full"])
        ops.append(op)
        if op == "update":
            o, new = layer.apply(v, phi, lg, mutable=[coll])
            ctx.check(o is None, "no-covariance-in-training")
            P = ref_precision(P, flat, momentum)
            v = {coll: new[coll]}
            if momentum == 0.0 and np.linalg.cond(P) > 1e4:
                break
        else:
            if np.linalg.cond(P) > 1e4:
                break
            o = layer.apply(v, phi, lg, diagonal_only=op == "diag")
            check_cov(ctx, o if op == "diag" else None, o if op == "full" else None, P, flat, ridge, "layer")
        s = np.abs(P).max()
        ctx.close(v[coll]["precision_matrix"], P, "precision", rtol=1e-3, atol=1e-4 * s)
    ctx.event("laplace")
    if momentum is not None:
        ctx.event("momentum")
    if rank3:
        ctx.event("rank3")
    ctx.key((n, ridge, momentum, tuple(ops), round(float(P[0, 0]), 4)))


@suite.scenario(quick=2, thorough=6)
def momentum_range(ctx):
    for m in (-0.1, 1.5, -3.0, 1.0001):
        layer = LaplaceRandomFeatureCovariance(hidden_features=3, momentum=m)
        ctx.raises(ValueError, lambda: layer.init(jax.random.PRNGKey(0), jnp.ones((2, 3))), "momentum-range")
    for m in (0.0, 1.0, 0.5):
        LaplaceRandomFeatureCovariance(hidden_features=3, momentum=m).init(jax.random.PRNGKey(0), jnp.ones((2, 3)))
    ctx.key(ctx.i)


@suite.scenario(quick=10, thorough=200)
def gaussian_process_layer(ctx):
    n, d, k = ctx.choice([4, 12]), 3, ctx.choice([2, 3])
    norm, ridge, momentum = ctx.rng.random() < 0.5, ctx.choice([0.5, 2.0]), ctx.choice([None, 0.7])
    layer = RandomFeatureGaussianProcess(features=k, hidden_features=n, normalize_input=norm, covariance_kwargs=dict(ridge_penalty=ridge, momentum=momentum))
    x = (2 * ctx.rng.normal(size=(6, d)) + 1).astype(np.float32)
    v = layer.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x)
    rf, lc = "random_features", "laplace_covariance"
    rp = v[rf]["sngp_random_features_layer"]
    W, b = np.asarray(rp["kernel"], float), np.asarray(rp["bias"], float)
    ker, bia = (np.asarray(v["params"]["sngp_dense_layer"][q], float) for q in ("kernel", "bias"))

    def feats(x):
        x = x.astype(float)
        if norm:
            x = (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + 1e-6)
        return np.cos(x @ W + b)

    P = ridge * np.eye(n)
    for _ in range(ctx.integers(1, 3)):
        xb = (2 * ctx.rng.normal(size=(ctx.choice([2, 6]), d))).astype(np.float32)
        (lg, cov), new = layer.apply(v, xb, mutable=[lc])
        ctx.check(cov is None, "no-covariance-in-training")
        ctx.close(lg, feats(xb) @ ker + bia, "training-logits", rtol=1e-3, atol=1e-3)
        v = {**v, lc: new[lc]}
        P = ref_precision(P, feats(xb), momentum)
    if np.linalg.cond(P) < 1e4:
        lg, diag = layer.apply(v, x)
        _, full = layer.apply(v, x, return_full_covariance=True)
        ctx.close(lg, feats(x) @ ker + bia, "logits", rtol=1e-3, atol=1e-3)
        check_cov(ctx, diag, full, P, feats(x), ridge, "gp")
        one = np.concatenate([np.asarray(layer.apply(v, x[i:i + 1])[1]) for i in range(len(x))])
        ctx.close(one, diag, "variance-of-each-point-alone", rtol=1e-3, atol=1e-4)
    ctx.event("gp")
    ctx.note(n=n, k=k, norm=norm, ridge=ridge, momentum=momentum)
    ctx.key(np.asarray(lg).tobytes())


@suite.scenario(quick=8, thorough=150)
def sngp_manager(ctx):
    """outputs of the SNGP model manager: raw logits and new precision in training, mean-field logits otherwise"""
    n, k, factor, ridge = ctx.choice([4, 8]), 2, ctx.choice([0.0, 0.4, 3.0]), ctx.choice([0.5, 2.0])
    net = SNExtractor(dense=nn.Dense, widths=(4, 3), activations=(nn.tanh, nn.tanh))
    mm = SNGPClassificationModelManager(net, output_dim=k, gp_hidden_features=n, ridge_penalty=ridge, mean_field_factor=factor)
    v = mm.init((3,), rng=jax.random.PRNGKey(ctx.integers(0, 10**6)))["model"]
    params = FrozenDict(model=FrozenDict(params=v["params"]))
    mutable = FrozenDict(model=FrozenDict({c: s for c, s in v.items() if c != "params"}))
    x = ctx.rng.normal(size=(5, 3)).astype(np.float32)

    def feats(m, x, stats):
        h = net.apply(dict(params=v["params"], spectral_stats=stats), x)
        r = m["sngp_random_features"]["sngp_random_features_layer"]
        return np.cos(np.asarray(h, float) @ np.asarray(r["kernel"], float) + np.asarray(r["bias"], float))

    ker, bia = (np.asarray(v["params"]["sngp_dense_layer"][q], float) for q in ("kernel", "bias"))
    P = ridge * np.eye(n)
    n_steps = ctx.integers(0, 4)
    for _ in range(n_steps):
        xb = ctx.rng.normal(size=(4, 3)).astype(np.float32)
        o, aux = mm.apply(params, xb, mutable, train=True, rng=jax.random.PRNGKey(1))
        mutable = FrozenDict(aux["mutable"])
        phi = feats(mutable["model"], xb, mutable["model"]["spectral_stats"])  # the update comes before the scaling
        ctx.close(o, phi @ ker + bia, "manager:training-logits", rtol=2e-3, atol=2e-3)
        P = ref_precision(P, phi, None)
        ctx.close(mutable["model"]["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"], P, "manager:precision", rtol=1e-3, atol=1e-3)
    before = T.host(mutable.unfreeze())
    o = mm.apply(params, x, mutable, train=False)
    ctx.check(T.same_tree(before, mutable), "manager:evaluation-changes-state")
    phi = feats(mutable["model"], x, mutable["model"]["spectral_stats"])
    var = np.diag(ridge * phi @ np.linalg.solve(P, phi.T))
    ctx.close(o, (phi @ ker + bia) / np.sqrt(1 + factor * var)[:, None], "mean-field-logits", rtol=3e-3, atol=2e-3)
    ctx.event("mean-field")
    ctx.note(n=n, factor=factor, ridge=ridge, steps=n_steps)
    if ctx.i % 4 == 0:
        bad = SNGPClassificationModelManager(net, output_dim=k, gp_hidden_features=n, mean_field_factor=-0.1)
        ctx.raises(ValueError, lambda: bad.apply(params, x, mutable), "negative-mean-field-factor")
    ctx.key(np.asarray(o).tobytes())


class Watch(FitCallback):
    def __init__(self):
        self.log = []

    def _add(self, e, s):
        m = s.mutable["model"]["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"]
        self.log.append((e, np.array(m, float)))
        return s

    def training_epoch_start(self, state):
        return self._add("start", state)

    def training_epoch_end(self, state):
        return self._add("end", state)


@suite.scenario(quick=5, thorough=60)
def precision_of_the_last_epoch(ctx):
    """training SNGP with a zero learning rate: after each epoch the precision is that of the epoch's batches"""
    n, ridge, momentum = 6, ctx.choice([0.5, 1.0, 3.0]), [None, 0.8, None][ctx.i % 3]
    approx = SNGPPosteriorApproximator(output_dim=2, gp_hidden_features=n, ridge_penalty=ridge, momentum=momentum)
    # a loose bound keeps the weights as they are, whatever the spectral estimates
    net = SNExtractor(dense=nn.Dense, widths=(4, 3), activations=(nn.tanh, nn.tanh), spectral_norm_bound=50.0)
    pm = T.make("cls", 2, approx, seed=ctx.integers(0, 999), model=net)
    N, bs, epochs = ctx.choice([9, 12]), ctx.choice([4, 12]), ctx.choice([1, 3])
    x, y = T.data(ctx, "cls", 2, N, 3)
    val = T.loader(T.data(ctx, "cls", 2, 8, 3), 4) if ctx.rng.random() < 0.5 else None
    jit = ctx.rng.random() < 0.7
    w = Watch()
    ctx.note(ridge=ridge, momentum=momentum, N=N, bs=bs, epochs=epochs, val=val is not None, jit=jit)

    def expected():
        s = pm.posterior.state.get()
        m = s.mutable["model"]
        h = net.apply(dict(params=s.params["model"]["params"], spectral_stats=m["spectral_stats"]), x)
        r = m["sngp_random_features"]["sngp_random_features_layer"]
        phi = np.cos(np.asarray(h, float) @ np.asarray(r["kernel"], float) + np.asarray(r["bias"], float))
        P = ridge * np.eye(n)
        for i in range(0, N, bs):
            P = ref_precision(P, phi[i:i + bs], momentum)
        return P

    with R.scratch() as d:
        pm.train(T.loader((x, y), bs), val, fit_config=T.config(optax.sgd(0.0), epochs, callbacks=[w], disable_jit=not jit, save_checkpoint_dir=d + "/a"))
        P = expected()
        ends = [m for e, m in w.log if e == "end"]
        ctx.check(len(ends) == epochs, "epochs-observed")
        for e in range(epochs):
            ctx.close(ends[e], P, "precision-of-one-epoch", f"epoch {e}", rtol=2e-3, atol=2e-3)
        final = pm.posterior.state.get().mutable["model"]["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"]
        ctx.close(final, P, "final-precision", rtol=2e-3, atol=2e-3)
        ctx.event("fit")
        if momentum is not None:
            ctx.event("fit-momentum")
        if ctx.i % 2:  # training continued from the checkpoint: the old data does not count twice
            pm.train(T.loader((x, y), bs), fit_config=T.config(optax.sgd(0.0), 1, disable_jit=not jit, restore_checkpoint_path=d + "/a"))
            final = pm.posterior.state.get().mutable["model"]["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"]
            ctx.close(final, expected(), "continued-precision", rtol=2e-3, atol=2e-3)
            ctx.event("continued")
    ctx.key(np.round(P, 3).tobytes())
