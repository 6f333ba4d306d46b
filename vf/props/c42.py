import jax
import jax.numpy as jnp
import numpy as np
import optax

from flax.training.dynamic_scale import DynamicScale

from fortuna.data.loader import DataLoader
from fortuna.loss.classification.cross_entropy import cross_entropy_loss_fn
from fortuna.loss.classification.focal_loss import focal_loss_fn
from fortuna.loss.regression.scaled_mse import scaled_mse_fn
from fortuna.prob_model.posterior.map.map_trainer import JittedMAPTrainer, MAPTrainer, MultiDeviceMAPTrainer
from fortuna.utils import device as device_mod
from fortuna.utils.builtins import HashableMixin, get_dynamic_scale_instance_from_model_dtype
from fortuna.utils.data import check_data_loader_is_not_random, get_input_shape, get_inputs_from_shape
from fortuna.utils.optimizer import linear_scheduler_with_warmup, stepped_schedule
from fortuna.utils.random import RandomNumberGenerator, WithRNG, generate_random_normal_like_tree, generate_rng_like_tree
from vf.core import Suite

suite = Suite(
    "C42",
    rule="case = batch of outputs and targets, learning-rate schedule, data loader read several times, trainer selection or pair of "
         "settings, or tree of random keys; distinct = distinct inputs",
    assumptions=["float32 arithmetic: losses to relative 1e-5", "a GPU is stood in for by the answer of jax.devices",
                 "a randomising loader differs between passes within its first four batches"],
    required={"loss": 40, "extreme": 20, "focal": 20, "stepped": 20, "warmup": 20, "random-loader": 15, "steady-loader": 15,
              "trainer-choice": 8, "hash": 20, "keys": 10},
)


def lse(o):
    m = o.max(-1, keepdims=True)
    return (m + np.log(np.exp(o - m).sum(-1, keepdims=True)))[..., 0]


@suite.scenario(quick=120, thorough=4000)
def classification_losses(ctx):
    n, c = ctx.choice([1, 2, 7]), ctx.choice([2, 3, 10])
    scale = ctx.choice([0.1, 1.0, 5.0, 100.0, 1e4])
    o = (ctx.rng.normal(size=(n, c)) * scale).astype(np.float32)
    y = ctx.rng.integers(0, c, n) if ctx.rng.random() < 0.6 else o.argmax(1)
    o64 = o.astype(float)
    lp = (o64 - lse(o64)[:, None])[np.arange(n), y]
    hot = np.eye(c)[y]
    p = np.exp(o64 - lse(o64)[:, None])
    ctx.note(n=n, c=c, scale=scale)
    ctx.key(float(o.sum()), n, c)
    ctx.event("loss")
    if scale >= 100:
        ctx.event("extreme")
    v, g = jax.value_and_grad(cross_entropy_loss_fn)(jnp.asarray(o), jnp.asarray(y))
    ctx.close(v, -lp.mean(), "cross-entropy", rtol=1e-5, atol=2e-6 * max(scale, 1))
    ctx.close(g, (p - hot) / n, "cross-entropy-gradient", rtol=1e-3, atol=1e-5 + 1e-6 * scale)
    ctx.check(float(v) >= -1e-6 * scale, "cross-entropy-not-negative", str(v))
    perm = ctx.rng.permutation(n)
    ctx.close(cross_entropy_loss_fn(jnp.asarray(o[perm]), jnp.asarray(y[perm])), v, "order-free", atol=1e-6 * max(scale, 1))
    ctx.close(cross_entropy_loss_fn(jnp.asarray(o + np.float32(3 * scale)), jnp.asarray(y)), v, "shift-invariant", rtol=1e-4, atol=1e-5 * max(scale, 1))

    gamma = ctx.choice([None, 0.0, 0.5, 1.0, 2.0, 3.5])
    kw = {} if gamma is None else dict(gamma=gamma)
    gm = 2.0 if gamma is None else gamma
    q = np.exp(lp)
    want = -np.mean((1 - q) ** gm * lp)
    ctx.event("focal")
    f, fg = jax.value_and_grad(lambda u: focal_loss_fn(u, jnp.asarray(y), **kw))(jnp.asarray(o))
    ctx.close(f, want, "focal", rtol=1e-4, atol=1e-5)
    ctx.check(bool(np.isfinite(fg).all()), "focal-gradient-finite", f"gamma {gm}: {fg}")
    b = np.maximum(1 - q, 1e-300)
    d = -(b ** gm - gm * b ** (gm - 1) * q * lp) / n
    if gm >= 1 or gm == 0:
        ctx.close(fg, d[:, None] * (hot - p), "focal-gradient", rtol=1e-3, atol=1e-5)
    else:  # float32 cannot resolve 1 - p where p is nearly 1 and the power is steep
        ok = q < 0.99
        ctx.close(np.asarray(fg)[ok], (d[:, None] * (hot - p))[ok], "focal-gradient", rtol=1e-3, atol=1e-5)
    if gm == 0:
        ctx.close(f, v, "focal-0-is-cross-entropy", atol=1e-6 * max(scale, 1))
    ctx.check(float(f) <= float(v) + 1e-5 * max(scale, 1), "focal-below-cross-entropy", f"{f} {v}")


@suite.scenario(quick=40, thorough=1500)
def regression_loss(ctx):
    n, d = ctx.choice([1, 3, 8]), ctx.choice([1, 2])
    m, t = ctx.rng.normal(size=(2, n, d)) * ctx.choice([1.0, 30.0])
    lv = ctx.rng.normal(size=(n, d)) * ctx.choice([0.3, 3.0])
    o = np.concatenate([m, lv], 1).astype(np.float32)
    t = t.astype(np.float32)
    m, lv = o[:, :d].astype(float), o[:, d:].astype(float)
    r2 = np.exp(-lv) * (t - m) ** 2
    ctx.event("loss")
    ctx.key(float(o.sum()), n, d)
    v, g = jax.value_and_grad(scaled_mse_fn)(jnp.asarray(o), jnp.asarray(t))
    ctx.close(v, (r2 + lv).sum(1).mean(), "scaled-mse", rtol=1e-4, atol=1e-4)
    ctx.close(g, np.concatenate([-2 * np.exp(-lv) * (t - m), 1 - r2], 1) / n, "scaled-mse-gradient", rtol=1e-3, atol=1e-4)


@suite.scenario(quick=30, thorough=1500)
def stepped(ctx):
    init = float(ctx.choice([1.0, 0.3, 1e-4]))
    k = ctx.choice([0, 1, 2, 4])
    bounds = sorted(ctx.rng.choice(np.arange(1, 30), size=k, replace=False).tolist())
    scales = [float(s) for s in ctx.choice([0.1 ** np.arange(1, k + 1), ctx.rng.uniform(0, 2, k), np.zeros(k)])]
    table = list(zip(bounds, scales))
    order = ctx.rng.permutation(k)
    b = {table[i][0]: table[i][1] for i in order}
    if k == 0 and ctx.rng.random() < 0.5:
        b = None
    ctx.note(init=init, boundaries=str(b))
    ctx.key(init, str(b))
    ctx.event("stepped")
    s = stepped_schedule(init, b)
    jit = jax.jit(s)
    for c in range(32):
        past = [w for u, w in table if c >= u]
        want = init * (past[-1] if past else 1.0)
        ctx.close(s(c), want, "value", f"step {c}", rtol=1e-5, atol=1e-12)
        if c % 7 == 0:
            ctx.close(jit(jnp.asarray(c)), want, "value-compiled", f"step {c}", rtol=1e-5, atol=1e-12)
    # what the optimizer sees
    opt = optax.sgd(s)
    p = jnp.zeros(())
    st = opt.init(p)
    tot = 0.0
    for c in range(12):
        u, st = opt.update(jnp.ones(()), st, p)
        past = [w for uu, w in table if c >= uu]
        tot = init * (past[-1] if past else 1.0)
        ctx.close(u, -tot, "optimizer-step", rtol=1e-5, atol=1e-12)
    if k:
        bad = dict(b)
        bad[bounds[int(ctx.rng.integers(k))]] = -0.1
        ctx.raises(ValueError, lambda: stepped_schedule(init, bad), "negative-scale")


@suite.scenario(quick=30, thorough=1500)
def warmup(ctx):
    lr, n, bs = float(ctx.choice([1.0, 2e-5, 0.1])), ctx.integers(5, 60), ctx.choice([1, 3, 4, 8])
    ep = ctx.choice([1, 2, 5])
    total = (n // bs) * ep
    if total < 2:
        return
    w = ctx.integers(0, total - 1)
    ctx.note(lr=lr, n=n, batch=bs, epochs=ep, warmup=w)
    ctx.key(lr, n, bs, ep, w)
    ctx.event("warmup")
    s = linear_scheduler_with_warmup(learning_rate=lr, num_inputs_train=n, train_total_batch_size=bs, num_train_epochs=ep, num_warmup_steps=w)
    vals = []
    for c in range(total + 4):
        want = lr * c / w if c < w else lr * max(total - c, 0) / (total - w)
        vals.append(float(s(c)))
        ctx.close(vals[-1], want, "value", f"step {c} of {total}", rtol=1e-4, atol=1e-6 * lr)
    ctx.check(np.argmax(vals) == w, "peak-at-end-of-warmup", str(np.argmax(vals)))
    ctx.check(max(vals) <= lr * (1 + 1e-6), "never-above-peak", str(max(vals)))


class Reread:
    """iterable of batches that changes what it yields from pass to pass, in the place asked for"""

    def __init__(self, ctx, where, dicts):
        self.seed, self.where, self.passes, self.dicts = int(ctx.rng.integers(1 << 30)), where, 0, dicts
        self.nb = ctx.choice([1, 3, 6])
        self.at = int(ctx.rng.integers(min(self.nb, 4)))

    def __call__(self):
        self.passes += 1
        k = self.passes
        rng = np.random.default_rng(self.seed)
        for i in range(self.nb):
            x, z, y = rng.normal(size=(4, 2)), rng.normal(size=(4, 3)), rng.integers(0, 3, 4)
            if i == self.at:
                if self.where == "inputs":
                    x[-1, -1] += k
                elif self.where == "second-input":
                    z[-1, 0] += k
                elif self.where == "targets":
                    y[-1] += k
                elif self.where == "order":
                    x = np.roll(x, k, 0)
            yield ({"a": x, "b": z}, y) if self.dicts else (x, y)


@suite.scenario(quick=60, thorough=1500)
def loader_guard(ctx):
    dicts = ctx.rng.random() < 0.5
    where = ctx.choice(["steady", "steady", "inputs", "targets", "order"] + (["second-input"] if dicts else []))
    r = Reread(ctx, where, dicts)
    kind = ctx.choice(["callable", "callable", "iterable"])
    if kind == "callable":
        dl = DataLoader.from_callable_iterable(r)
    else:
        class It:
            def __iter__(self):
                return r()
        dl = It()
    ctx.note(where=where, kind=kind, batches=r.nb, at=r.at, dicts=dicts)
    ctx.key(where, kind, r.nb, r.at, dicts, r.seed)
    if where == "steady":
        ctx.event("steady-loader")
        ctx.check(check_data_loader_is_not_random(dl) is None, "steady-accepted")
    else:
        ctx.event("random-loader")
        ctx.raises(ValueError, lambda: check_data_loader_is_not_random(dl), "random-refused")


@suite.scenario(quick=20, thorough=400)
def loader_guard_arrays(ctx):
    n = ctx.choice([5, 8])
    x = ctx.rng.normal(size=(n, 2))
    y = ctx.rng.integers(0, 3, n)
    ctx.key(n, ctx.i)
    ctx.event("steady-loader")
    dl = DataLoader.from_array_data((x, y), batch_size=ctx.choice([2, 3, 8]), prefetch=ctx.rng.random() < 0.3)
    ctx.check(check_data_loader_is_not_random(dl) is None, "steady-accepted")
    if ctx.rng.random() < 0.5:
        x = {"a": x, "b": ctx.rng.normal(size=(n, 1, 4))}
    shape = get_input_shape(x)
    want = {k: v.shape[1:] for k, v in x.items()} if isinstance(x, dict) else x.shape[1:]
    ctx.check(shape == want, "input-shape", str(shape))
    ins = get_inputs_from_shape(shape)
    for k, s in (want.items() if isinstance(want, dict) else [(None, want)]):
        v = ins if k is None else ins[k]
        ctx.check(v.shape == (1,) + tuple(s) and not np.any(v), "inputs-from-shape", str(v.shape))
    ctx.check(not isinstance(want, dict) or set(ins) == set(want), "input-names")
    ctx.raises(ValueError, lambda: get_inputs_from_shape(list(want) if not isinstance(want, dict) else 3), "not-a-shape")
    d = tuple(int(v) for v in ctx.rng.integers(1, 5, ctx.choice([1, 2, 3])))
    ctx.check(get_input_shape(np.zeros((4,) + d)) == d and get_inputs_from_shape(d).shape == (1,) + d, "round-trip", str(d))


@suite.scenario(quick=12, thorough=48)
def trainer_choice(ctx):
    gpu = ctx.i % 2 == 1
    real = jax.devices

    class Dev:
        platform = "gpu"
    device_mod.jax.devices = lambda *a: (real(*a) + [Dev()] if gpu else real(*a))
    try:
        for jit_off in (False, True):
            for dev in (0, -1, 1, -2, 2):
                call = lambda: device_mod.select_trainer_given_devices(
                    devices=dev, base_trainer_cls=MAPTrainer, jitted_trainer_cls=JittedMAPTrainer,
                    multi_device_trainer_cls=MultiDeviceMAPTrainer, disable_jit=jit_off)
                ctx.key(gpu, jit_off, dev)
                ctx.event("trainer-choice")
                if dev not in (0, -1):
                    ctx.raises(NotImplementedError, call, "unknown-devices")
                    continue
                want = (MultiDeviceMAPTrainer if gpu else JittedMAPTrainer) if dev == -1 else (MAPTrainer if jit_off else JittedMAPTrainer)
                ctx.check(call() is want, "trainer", f"gpu={gpu} devices={dev} jit_off={jit_off}: {call()}")
    finally:
        device_mod.jax.devices = real
    # mixed-precision loss scaling only for half precision
    for dt, want in ((jnp.float32, None), (jnp.float16, DynamicScale), (jnp.bfloat16, DynamicScale), (None, None), (jnp.float64, None)):
        got = get_dynamic_scale_instance_from_model_dtype(dt)
        ctx.check(got is None if want is None else isinstance(got, want), "dynamic-scale", f"{dt} {got}")


def _f(x):
    return x


def _g(x):
    return x + 1


@suite.scenario(quick=40, thorough=800)
def compiled_identity(ctx):
    """trainers are static arguments of compiled steps: a difference in any setting must make them different"""
    base = dict(predict_fn=_f, save_checkpoint_dir=None, save_every_n_steps=None, keep_top_n_checkpoints=2, disable_training_metrics_computation=False,
                eval_every_n_epochs=1, early_stopping_monitor="val_loss", early_stopping_min_delta=0.0, early_stopping_patience=None, freeze_fun=None)
    other = dict(predict_fn=_g, save_checkpoint_dir="/nowhere", save_every_n_steps=3, keep_top_n_checkpoints=3, disable_training_metrics_computation=True,
                 eval_every_n_epochs=2, early_stopping_min_delta=0.5, early_stopping_patience=2, freeze_fun=_g)
    cls = ctx.choice([JittedMAPTrainer, MultiDeviceMAPTrainer, MAPTrainer])
    a, b = cls(**base), cls(**base)
    ctx.event("hash")
    ctx.check(a == a and a == b and b == a and hash(a) == hash(b) and not a != b, "equal-settings-are-equal")
    b._hidden = 3
    ctx.check(a == b and b == a and hash(a) == hash(b), "private-state-ignored")
    k = sorted(other)[ctx.i % len(other)]
    c = cls(**{**base, k: other[k]})
    ctx.key(cls.__name__, k)
    if k not in ("early_stopping_patience", "early_stopping_min_delta"):
        ctx.check(a != c and c != a, "different-settings-differ", k)
    ctx.check(a != JittedMAPTrainer(**base) if cls is not JittedMAPTrainer else a != MAPTrainer(**base), "different-trainers-differ")

    class P(HashableMixin):
        def __init__(self, **kw):
            for n, v in kw.items():
                setattr(self, n, v)

    class Q(P):
        pass
    vals = {n: ctx.choice([0, 1, "s", (1, 2), 2.5, None, True, _f]) for n in "abc"[:ctx.choice([1, 2, 3])]}
    p, q = P(**vals), P(**vals)
    ctx.check(p == q and hash(p) == hash(q) and len({p, q}) == 1, "equal-values")
    n = ctx.choice(list(vals))
    r = P(**{**vals, n: "other"})
    ctx.check(p != r and r != p, "one-value-changed", n)
    ctx.check(p != P(**vals, z=1) and P(**vals, z=1) != p, "extra-field")
    ctx.check((p == Q(**vals)) == (Q(**vals) == p), "symmetric")
    nest, nest2, nest3 = P(u=p, v=1), P(u=q, v=1), P(u=r, v=1)
    ctx.check(nest == nest2 and hash(nest) == hash(nest2) and nest != nest3, "nested")
    q.a = "changed"
    ctx.check(p != q, "changed-later")


@suite.scenario(quick=16, thorough=400)
def random_trees(ctx):
    seed = ctx.integers(0, 10 ** 6)
    shapes = {"w": (50,), "b": (50,), "h": {"k": (5, 10), "e": (), "z": (50,)}}
    t = jax.tree_util.tree_map(lambda s: jnp.zeros(s, ctx.choice([jnp.float32, jnp.float16])), shapes, is_leaf=lambda s: isinstance(s, tuple))
    key = jax.random.PRNGKey(seed)
    ctx.key(seed)
    ctx.event("keys")
    leaves = jax.tree_util.tree_leaves
    ks = generate_rng_like_tree(key, t)
    ctx.check(jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda a, b: 0, t, ks)) == jax.tree_util.tree_structure(t), "structure")
    flat = [tuple(np.asarray(k).tolist()) for k in leaves(ks)] if not isinstance(ks, dict) else \
        [tuple(np.asarray(k).tolist()) for k in jax.tree_util.tree_leaves(ks)]
    ctx.check(len(set(flat)) == len(flat) == 5 and tuple(np.asarray(key).tolist()) not in flat, "keys-distinct", str(flat))
    g, g2 = generate_random_normal_like_tree(key, t), generate_random_normal_like_tree(key, t)
    for a, b, c in zip(leaves(g), leaves(g2), leaves(t)):
        ctx.check(a.shape == c.shape and a.dtype == c.dtype, "shape-and-type", f"{a.shape} {a.dtype}")
        ctx.check(np.array_equal(a, b), "reproducible")
    flat = [np.asarray(v, float).ravel() for v in leaves(g) if v.size == 50]
    for i, a in enumerate(flat):
        ctx.check(abs(a.mean()) < 1.0 and 0.5 < a.std() < 1.6, "standard-normal", f"{a.mean()} {a.std()}")
        for b in flat[:i]:
            ctx.check(abs(np.corrcoef(a, b)[0, 1]) < 0.85, "leaves-independent")

    class H(WithRNG):
        pass
    r1, r2 = RandomNumberGenerator(seed), RandomNumberGenerator(seed)
    h, h2 = H(), H()
    h.rng, h2.rng = r1, r1
    seq = []
    for _ in range(12):
        k = (h if ctx.rng.random() < 0.5 else h2).rng.get()
        seq.append(tuple(np.asarray(k).tolist()))
        ctx.check(np.array_equal(k, r2.get()), "same-seed-same-keys")
    ctx.check(len(set(seq)) == len(seq), "fresh-key-each-time")
    ctx.check(not np.array_equal(RandomNumberGenerator(seed + 1).get(), np.asarray(seq[0])), "seed-matters")
