"""Hugging Face Flax models inside Fortuna: predictions and training steps are those of the model itself."""
import atexit
import logging
import os
import shutil
import tempfile

from vf.props import trainrig as T  # first: it asks for two devices
from vf.props import postrig as R
from vf.core import Suite

import jax
import jax.numpy as jnp
import numpy as np
import optax
import transformers as tr
from flax.core import FrozenDict, unfreeze

from fortuna.calib_model import CalibClassifier
from fortuna.calib_model import Config as CConfig, Monitor as CMonitor, Optimizer as COptimizer
from fortuna.data.loader import InputsLoader
from fortuna.data.loader.huggingface_loaders import HuggingFaceDataLoader
from fortuna.model.model_manager.transformers.classification import HuggingFaceClassificationModelManager
from fortuna.prob_model import (LaplacePosteriorApproximator, MAPPosteriorApproximator, ProbClassifier, SNGPPosteriorApproximator, SWAGPosteriorApproximator)
from fortuna.prob_model.posterior.sngp.transformers.modeling_flax_auto import FlaxAutoSNGPModelForSequenceClassification

tr.logging.set_verbosity_error()
logging.getLogger("transformers").setLevel(logging.ERROR)

suite = Suite(
    "C41",
    rule="case = (architecture, dropout, padding, batch size, optimizer) of a tiny randomly initialised pre-trained model; distinct = distinct predictions",
    assumptions=["tiny randomly initialised checkpoints written to disk stand for pre-trained models (no network)",
                 "float32 arithmetic", "transformers' own Flax modules are the oracle for the network's outputs"],
    required={"family:distilbert": 2, "family:bert": 2, "family:roberta": 2, "step": 12, "served": 6, "padding": 3, "dropout": 3, "sngp": 3, "power-iteration": 12,
              "bounded": 2, "left-alone": 1, "mlm": 1, "frozen": 2, "reloaded": 2, "calibrated": 1},
)

V, D, PAD = 31, 16, 1
FAMILIES = {
    "distilbert": (lambda p, k: tr.DistilBertConfig(vocab_size=V, dim=D, n_layers=1, n_heads=2, hidden_dim=D, max_position_embeddings=24, dropout=p,
                                                    attention_dropout=p, seq_classif_dropout=p, pad_token_id=PAD, num_labels=k),
                   tr.FlaxDistilBertForSequenceClassification, tr.FlaxDistilBertModel),
    "bert": (lambda p, k: tr.BertConfig(vocab_size=V, hidden_size=D, num_hidden_layers=1, num_attention_heads=2, intermediate_size=D,
                                        max_position_embeddings=24, hidden_dropout_prob=p, attention_probs_dropout_prob=p, pad_token_id=PAD, num_labels=k),
             tr.FlaxBertForSequenceClassification, tr.FlaxBertModel),
    "roberta": (lambda p, k: tr.RobertaConfig(vocab_size=V, hidden_size=D, num_hidden_layers=1, num_attention_heads=2, intermediate_size=D,
                                              max_position_embeddings=24, hidden_dropout_prob=p, attention_probs_dropout_prob=p, pad_token_id=PAD, num_labels=k),
                tr.FlaxRobertaForSequenceClassification, tr.FlaxRobertaModel),
}
_root = []
_cache = {}


def checkpoint(family, p, k=3):
    """the folder of a checkpoint with random weights, written once per worker"""
    if not _root:
        _root.append(tempfile.mkdtemp(prefix="vf-hf-"))
        atexit.register(shutil.rmtree, _root[0], ignore_errors=True)
    d = os.path.join(_root[0], f"{family}-{p}-{k}")
    if not os.path.isdir(d):
        cfg, cls, _ = FAMILIES[family]
        m = cls(cfg(p, k), input_shape=(1, 4), seed=7)
        # larger weights than the default initialiser's, or every example would look alike
        m.params = jax.tree_util.tree_map(lambda v: v * 6.0 if np.ndim(v) == 2 else v, unfreeze(m.params))
        m.save_pretrained(d)
    return d


def load(family, p, k=3):
    if (family, p, k) not in _cache:
        _cache[family, p, k] = FAMILIES[family][1].from_pretrained(checkpoint(family, p, k))
    return _cache[family, p, k]


def loader(x, y, bs, labels=None):
    n = len(y)

    class L:
        def __iter__(self):
            for i in range(0, n, bs):
                yield {k: v[i:i + bs] for k, v in x.items()}, y[i:i + bs]

    return HuggingFaceDataLoader(L(), num_unique_labels=labels, num_inputs=n)


def text(ctx, n, L, k=3):
    lens = ctx.rng.integers(2, L + 1, size=n)
    ids = ctx.rng.integers(2, V, size=(n, L))
    mask = (np.arange(L) < lens[:, None]).astype("int32")
    ids = np.where(mask > 0, ids, PAD).astype("int32")
    y = ctx.rng.permutation(np.concatenate([np.arange(k), ctx.rng.integers(0, k, size=n - k)])).astype("int32")
    return dict(input_ids=ids, attention_mask=mask), y


def logits(model, params, x):
    return np.asarray(model(**x, params=params, train=False).logits, "float64")


def softmax(o):
    e = np.exp(o - o.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def reference(model):
    if id(model) not in _cache:
        def loss(p, x, y, n):
            o = model(**x, params=p["model"]["params"], train=False).logits
            ll = jnp.take_along_axis(jax.nn.log_softmax(o, -1), jnp.maximum(y, 0)[..., None], -1)[..., 0]
            if y.ndim == 2:
                ll = ll * (y > 0)
            v = jnp.concatenate([q.reshape(-1) for q in T.leaves(p)])
            return -(n / y.shape[0] * ll.sum() - 0.5 * (v ** 2 + np.log(2 * np.pi)).sum())
        _cache[id(model)] = jax.jit(jax.value_and_grad(loss))
    return _cache[id(model)]


def inputs(x, bs):
    n = len(x["input_ids"])

    class L:
        def __iter__(self):
            for i in range(0, n, bs):
                yield {k: v[i:i + bs] for k, v in x.items()}

    return InputsLoader.from_iterable(L())


def classifier(model, approx=None, seed=0):
    return ProbClassifier(model=model, posterior_approximator=approx or MAPPosteriorApproximator(), seed=seed)


@suite.scenario(quick=6, thorough=90)
def training_and_serving(ctx):
    """without dropout every training step, and afterwards every statistic, is that of the model with the log joint as objective"""
    fam = list(FAMILIES)[ctx.i % 3]
    k = 3
    model = load(fam, 0.0, k)
    src = T.flat_dict(T.host(unfreeze(model.params)))
    n, bs, L = 8, ctx.choice([4, 8]), 5
    x, y = text(ctx, n, L, k)
    epochs, lr = ctx.choice([1, 2]), 1e-3
    x = dict(x)
    if fam == "bert" and ctx.rng.random() < 0.5:
        x["token_type_ids"] = ctx.rng.integers(0, 2, size=x["input_ids"].shape).astype("int32")
    ctx.note(family=fam, batch_size=bs, epochs=epochs, keys=sorted(x))
    ctx.event("family:" + fam)
    pm = classifier(model, seed=ctx.integers(0, 100))
    rec = T.Recorder()
    pm.train(loader(x, y, bs), fit_config=T.config(optax.sgd(lr), epochs, callbacks=[rec]))
    first = T.flat_dict(rec.log[0][2])
    for p, v in src.items():
        ctx.check(np.array_equal(first[("model", "params") + p], v), "starts-from-the-checkpoint", str(p))
    q = unfreeze(jax.tree_util.tree_map(jnp.asarray, rec.log[0][2]))
    got = [p for e, _, p in rec.log if e == "step"]
    ctx.check(len(got) == epochs * (n // bs), "one-step-per-batch", fatal=True)
    for t, g in enumerate(got):
        b = t % (n // bs)
        xb = {c: v[b * bs:(b + 1) * bs] for c, v in x.items()}
        _, grad = reference(model)(q, xb, y[b * bs:(b + 1) * bs], float(n))
        q = jax.tree_util.tree_map(lambda v, d: v - lr * d, q, grad)
        ctx.event("step")
        a, w = T.flat_dict(g), T.flat_dict(T.host(q))
        for p in w:
            if not ctx.close(a[p], w[p], "update", rtol=2e-3, atol=5e-4, msg=f"step {t} {p}"):
                return
    s = pm.posterior.state.get()
    params = unfreeze(s.params)["model"]["params"]
    o = logits(model, params, x)
    pr = softmax(o)
    bs2 = ctx.choice([2, 4, 8])
    ctx.event("served")
    ctx.close(np.asarray(pm.predictive.mean(inputs(x, bs2), n_posterior_samples=2)), pr, "mean", rtol=1e-3, atol=2e-4)
    ctx.close(np.asarray(pm.predictive.log_prob(loader(x, y, bs2), n_posterior_samples=2)), np.log(pr)[np.arange(n), y], "log-prob", rtol=1e-3, atol=2e-3)
    top = np.sort(pr, 1)
    ok = top[:, -1] - top[:, -2] > 1e-4
    ctx.equal(np.asarray(pm.predictive.mode(inputs(x, bs2), n_posterior_samples=2))[ok], pr.argmax(1)[ok], "mode")
    if "token_type_ids" not in x:
        # padding that the attention mask hides has no influence
        more = ctx.choice([1, 3])
        z = dict(input_ids=np.pad(x["input_ids"], ((0, 0), (0, more)), constant_values=PAD), attention_mask=np.pad(x["attention_mask"], ((0, 0), (0, more))))
        ctx.event("padding")
        ctx.close(np.asarray(pm.predictive.mean(inputs(z, bs2), n_posterior_samples=2)), pr, "padding-changes-predictions", rtol=2e-3, atol=5e-4)
    with R.scratch() as d:
        pm.save_state(d + "/s")
        other = classifier(model, seed=99)
        other.load_state(d + "/s")
        ctx.event("reloaded")
        ctx.close(np.asarray(other.predictive.mean(inputs(x, bs2), n_posterior_samples=2)), pr, "reloaded-mean", rtol=1e-3, atol=2e-4)
    ctx.key(pr)


@suite.scenario(quick=3, thorough=60)
def dropout(ctx):
    """dropout acts in training only, and there depends on the key only"""
    fam = list(FAMILIES)[ctx.i % 3]
    model = load(fam, 0.3)
    x, y = text(ctx, 4, 5)
    ctx.note(family=fam)
    mm = HuggingFaceClassificationModelManager(model)
    params = FrozenDict(mm.init({c: v.shape[1:] for c, v in x.items()}))
    want = logits(model, unfreeze(params)["model"]["params"], x)
    keys = [jax.random.PRNGKey(ctx.integers(0, 10 ** 6)) for _ in range(2)]
    ctx.event("dropout")
    for kw in ({}, dict(rng=keys[0]), dict(rng=keys[1], train=False)):
        ctx.close(np.asarray(mm.apply(params, x, **kw)), want, "dropout-in-evaluation", rtol=1e-4, atol=1e-4)
    a, b, c = (np.asarray(mm.apply(params, x, train=True, rng=r)) for r in (keys[0], keys[1], keys[0]))
    ctx.check(a.shape == want.shape, "training-shape")
    ctx.equal(a, c, "training-key-determines-dropout")
    ctx.check(not np.allclose(a, b, atol=1e-4) and not np.allclose(a, want, atol=1e-4), "no-dropout-in-training")
    if ctx.i < 3:
        # training itself drops: with a zero learning rate the reported losses differ from the loss without dropout
        pm = classifier(model, seed=ctx.integers(0, 1000))
        st = pm.train(loader(x, y, 4), val_data_loader=loader(x, y, 4), fit_config=T.config(optax.sgd(0.0), 3))["fit_status"]
        ref, _ = reference(model)(unfreeze(pm.posterior.state.get().params), x, y, 4.0)
        ctx.close(np.asarray(st["val_loss"]), np.full(3, float(ref)), "dropout-in-validation", rtol=1e-3)
        ls = np.asarray(st["loss"])
        ctx.check(len(set(np.round(ls, 4))) == 3, "same-dropout-mask-every-step", str(ls))
    ctx.key(a)


@suite.scenario(quick=6, thorough=60)
def sngp(ctx):
    """SNGP heads on transformers: the checkpoint's weights, spectral statistics that follow the power iteration, mean-field predictions"""
    fam = list(FAMILIES)[ctx.i % 3]
    k, nf, bound, it = 3, 8, [0.1, 20.0][ctx.i // 3 % 2], ctx.choice([1, 3])
    ridge, factor = ctx.choice([0.5, 1.0]), ctx.choice([0.0, 1.0])
    folder = checkpoint(fam, 0.0, k)
    model = FlaxAutoSNGPModelForSequenceClassification.from_pretrained(folder, spectral_norm_bound=bound, spectral_norm_iteration=it)
    n, bs, L = 8, 4, 5
    x, y = text(ctx, n, L, k)
    epochs = 12
    lr = 1e-5
    ctx.note(family=fam, bound=bound, iteration=it, ridge=ridge, factor=factor)
    ctx.event("family:" + fam)
    ctx.event("sngp")
    pm = classifier(model, SNGPPosteriorApproximator(output_dim=k, gp_hidden_features=nf, ridge_penalty=ridge, mean_field_factor=factor), seed=ctx.integers(0, 99))
    log = []

    class Rec(T.Recorder):
        def _add(self, e, s):
            log.append((e, T.host(unfreeze(s.params)), T.host(unfreeze(s.mutable))))
            return s

    pm.train(loader(x, y, bs), fit_config=T.config(optax.sgd(lr), epochs, callbacks=[Rec()]))
    src = T.flat_dict(T.host(unfreeze(load(fam, 0.0, k).params)[fam]))
    first = T.flat_dict(log[0][1]["model"]["params"][fam])
    same = [p for p in src if p in first]
    ctx.check(len(same) == len(src), "backbone-parameters", f"{set(src) - set(first)}")
    for p in same:
        ctx.check(np.array_equal(first[p], src[p]), "starts-from-the-checkpoint", str(p))
    # the spectral statistics after each step
    prev = None
    for e, p, m in log:
        w = np.asarray(p["model"]["params"]["pre_classifier"]["Dense"]["kernel"], float)
        st = {c: np.asarray(v, float) for c, v in m["model"]["spectral_stats"]["pre_classifier"].items()}
        if e == "step":
            u, v = prev[1]["u"], prev[1]["v"]
            for _ in range(it):
                v = prev[0] @ u
                v = v / np.linalg.norm(v)
                u = v @ prev[0]
                u = u / np.linalg.norm(u)
            ctx.event("power-iteration")
            if not (ctx.close(st["u"], u, "power-iteration", rtol=2e-3, atol=1e-3) and ctx.close(st["v"], v, "power-iteration", rtol=2e-3, atol=1e-3)):
                return
        prev = w, st
    s = pm.posterior.state.get()
    P, M = T.host(unfreeze(s.params))["model"]["params"], T.host(unfreeze(s.mutable))["model"]
    w, bias = (np.asarray(P["pre_classifier"]["Dense"][c], float) for c in ("kernel", "bias"))
    st = M["spectral_stats"]["pre_classifier"]
    sigma = float(st["u"] @ (st["v"].astype(float) @ w))
    scaled = w / max(sigma / bound, 1.0)
    top = np.linalg.svd(scaled, compute_uv=False)[0]
    if bound < 1:
        ctx.event("bounded")
        ctx.check(top <= bound * 1.1, "norm-above-the-bound", f"{top} > {bound}")
    else:
        ctx.event("left-alone")
        ctx.check(np.array_equal(scaled, w), "small-weights-left-alone")
    base = _base(fam, model.config)
    out = base(**x, params=P[fam], train=False)
    h = np.asarray(out[0][:, 0] if fam == "distilbert" else out.pooler_output, float)
    h = h @ scaled + bias
    h = np.tanh(h) if fam == "roberta" else np.maximum(h, 0)
    r = M["sngp_random_features"]["sngp_random_features_layer"]
    phi = np.cos(h @ np.asarray(r["kernel"], float) + np.asarray(r["bias"], float))
    prec = np.asarray(M["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"], float)
    ctx.close(np.trace(prec), ridge * nf + (phi ** 2).sum(), "precision-of-one-epoch", rtol=2e-2)
    var = np.diag(ridge * phi @ np.linalg.solve(prec, phi.T))
    ker, b = (np.asarray(P["sngp_dense_layer"][c], float) for c in ("kernel", "bias"))
    o = (phi @ ker + b) / np.sqrt(1 + factor * var)[:, None]
    got = np.asarray(pm.predictive.mean(inputs(x, ctx.choice([2, 8])), n_posterior_samples=2))
    ctx.close(got, softmax(o), "mean-field-predictions", rtol=1e-2, atol=3e-3)
    with R.scratch() as d:
        pm.save_state(d + "/s")
        other = classifier(model, SNGPPosteriorApproximator(output_dim=k, gp_hidden_features=nf, ridge_penalty=ridge, mean_field_factor=factor), seed=5)
        other.load_state(d + "/s")
        ctx.event("reloaded")
        ctx.close(np.asarray(other.predictive.mean(inputs(x, 4), n_posterior_samples=2)), got, "reloaded-mean", rtol=1e-3, atol=1e-4)
    ctx.key(got)


def _base(fam, config):
    if ("base", fam) not in _cache:
        _cache["base", fam] = FAMILIES[fam][2](config, input_shape=(1, 4))
    return _cache["base", fam]


@suite.scenario(quick=2, thorough=20)
def masked_language_model(ctx):
    """only the positions with a label count, each with the log-probability of its token"""
    if "mlm" not in _cache:
        _cache["mlm"] = tr.FlaxDistilBertForMaskedLM(FAMILIES["distilbert"][0](0.0, 2), input_shape=(1, 4), seed=3)
    model = _cache["mlm"]
    x, _ = text(ctx, 8, 5)
    y = np.where((ctx.rng.random((8, 5)) < 0.5) & (x["attention_mask"] > 0), ctx.rng.integers(1, V, size=(8, 5)), -100).astype("int32")
    lr, bs = 1e-3, 4
    pm = classifier(model)
    rec = T.Recorder()
    pm.train(loader(x, y, bs, labels=V), fit_config=T.config(optax.sgd(lr), 1, callbacks=[rec]))
    ctx.event("mlm")
    q = unfreeze(jax.tree_util.tree_map(jnp.asarray, rec.log[0][2]))
    for t, g in enumerate([p for e, _, p in rec.log if e == "step"]):
        sl = slice(t * bs, (t + 1) * bs)
        _, grad = reference(model)(q, {c: v[sl] for c, v in x.items()}, y[sl], 8.0)
        q = jax.tree_util.tree_map(lambda v, d: v - lr * d, q, grad)
        ctx.event("step")
        a, w = T.flat_dict(g), T.flat_dict(T.host(q))
        for p in w:
            ctx.close(a[p], w[p], "masked-update", rtol=2e-3, atol=5e-4, msg=f"step {t} {p}")
    state = pm.posterior.state.get()
    o = logits(model, unfreeze(state.params)["model"]["params"], x)
    lp = np.log(softmax(o))
    want = np.where(y > 0, np.take_along_axis(lp, np.maximum(y, 0)[..., None], 2)[..., 0], 0.0)
    got = np.asarray(pm.joint.likelihood.log_prob(state.params, loader(x, y, 4), calib_params=state.calib_params))
    ctx.close(got, want, "masked-log-prob", rtol=1e-3, atol=1e-3)
    ctx.key(got)


@suite.scenario(quick=3, thorough=40)
def frozen_backbone(ctx):
    """last-layer methods and frozen backbones on a pre-trained model"""
    fam = list(FAMILIES)[ctx.i % 3]
    model = load(fam, 0.0)
    x, y = text(ctx, 8, 5)
    src = T.flat_dict(T.host(unfreeze(model.params)))
    fz = lambda p, v: "trainable" if "classifier" in p else "frozen"
    approx = [None, SWAGPosteriorApproximator(rank=2), LaplacePosteriorApproximator()][ctx.i % 3]
    ctx.note(family=fam, method=str(approx))
    ctx.event("frozen")
    pm = classifier(model, approx)
    kw = {} if approx is None else dict(map_fit_config=T.config(optax.sgd(1e-2), 1))
    pm.train(loader(x, y, 4), fit_config=T.config(optax.sgd(1e-3), 3, freeze_fun=fz), **kw)
    base = src if approx is None else None
    draws = [T.flat_dict(T.host(unfreeze(pm.posterior.sample(rng=jax.random.PRNGKey(i)).params))) for i in range(2)]
    moved = 0
    for p in src:
        a, b = (d[("model", "params") + p] for d in draws)
        if "classifier" in p:
            moved += not np.array_equal(a, src[p])
        else:
            ctx.check(np.array_equal(a, b), "frozen-leaf-varies", str(p))
            if base is not None:
                ctx.check(np.array_equal(a, base[p]), "frozen-leaf-moves", str(p))
    ctx.check(moved > 0, "nothing-was-trained")
    if approx is not None:
        ctx.check(any(not np.array_equal(draws[0][p], draws[1][p]) for p in draws[0]), "samples-are-equal")
    m = np.asarray(pm.predictive.mean(inputs(x, 4), n_posterior_samples=3))
    ctx.close(m.sum(1), np.ones(8), "mean-sums-to-one", rtol=1e-4)
    ctx.key(m)


@suite.scenario(quick=2, thorough=12)
def calibration(ctx):
    """fine-tuning calibration of a pre-trained model"""
    fam = list(FAMILIES)[ctx.i % 3]
    model = load(fam, 0.0)
    x, y = text(ctx, 8, 5)
    src = T.host(unfreeze(model.params))
    m = CalibClassifier(model=model, seed=0)
    m.calibrate(loader(x, y, 8), config=CConfig(optimizer=COptimizer(method=optax.sgd(0.1), n_epochs=1), monitor=CMonitor(verbose=False)))
    ctx.event("calibrated")

    def focal(p):
        lp = jnp.take_along_axis(jax.nn.log_softmax(model(**x, params=p, train=False).logits, -1), y[:, None], 1)[:, 0]
        return -jnp.mean((1 - jnp.exp(lp)) ** 2 * lp)

    g = jax.grad(focal)(src)
    want = jax.tree_util.tree_map(lambda v, d: v - 0.1 * d, src, g)
    got = T.flat_dict(T.host(unfreeze(m.predictive.state.get().params)["model"]["params"]))
    for p, v in T.flat_dict(want).items():
        ctx.close(got[p], v, "calibration-step", rtol=2e-3, atol=2e-4, msg=str(p))
    pr = softmax(logits(model, want, x))
    out = np.asarray(m.predictive.mean(inputs(x, 4)))
    ctx.close(out, pr, "calibrated-mean", rtol=1e-3, atol=3e-4)
    ctx.key(out)
