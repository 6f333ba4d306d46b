import json
import os
import random
import subprocess
import sys

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax

from fortuna.calib_model import CalibClassifier, Config as CConfig, Monitor as CMonitor, Optimizer as COptimizer, Processor as CProcessor
from fortuna.model.mlp import MLP
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.output_calibrator.regression import RegressionTemperatureScaler
from fortuna.prob_model import LaplacePosteriorApproximator, ProbClassifier, ProbRegressor
from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior
from fortuna.utils.random import RandomNumberGenerator, WithRNG, generate_random_normal_like_tree, generate_rng_like_tree
from vf.core import Suite
from vf.props import c19 as S
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C18",
    rule="case = a workflow (model, approximation, training, calibration, a random sequence of sampling and prediction calls) run twice with disturbances in between; distinct = distinct histories",
    assumptions=["same machine and same number of devices"],
    required={**{"kind:" + k: 1 for k in S.METHODS}, "explicit-key": 20, "own-stream": 20, "other-seed": 6, "process": 1, "stream": 4, "calib-model": 1, "config": 3, "shared-parts": 8},
)


def digest(v):
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(v)]


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def calls(pm, x, kind):
    """name -> (function of an optional key, is it random)"""
    ld = T.loader((x, np.zeros(len(x), int)), 5).to_inputs_loader()
    p = pm.predictive
    out = {
        "posterior.sample": lambda rng=None: S.arrays(pm.posterior.sample(rng=rng, inputs=x)),
        "predictive.sample": lambda rng=None: p.sample(ld, n_target_samples=3, rng=rng, distribute=False),
        "mean": lambda rng=None: p.mean(ld, n_posterior_samples=3, rng=rng, distribute=False),
        "variance": lambda rng=None: p.variance(ld, n_posterior_samples=3, rng=rng, distribute=False),
        "mode": lambda rng=None: p.mode(ld, n_posterior_samples=3, rng=rng, distribute=False),
        "prior": lambda rng=None: T.flat_dict(pm.prior.sample(pm.posterior.sample(rng=jax.random.PRNGKey(1), inputs=x).params, rng=rng)),
    }
    out["entropy"] = lambda rng=None: p.entropy(ld, n_posterior_samples=2, rng=rng, distribute=False)
    if kind == "reg":
        out["quantile"] = lambda rng=None: p.quantile([0.1, 0.9], ld, n_target_samples=3, rng=rng, distribute=False)
        out["interval"] = lambda rng=None: p.credible_interval(ld, n_target_samples=3, rng=rng, distribute=False)
    return out


class Life:
    """One life of a model: everything observable about it, in order."""

    def __init__(self, method, kind, seed, x, y, fz, cal, steps):
        self.log = []
        pm = self.pm = S.build(method, kind, seed)
        kw = dict(map_fit_config=T.config(n_epochs=1)) if method in ("laplace", "swag") or (fz and method not in ("map", "sngp")) else {}
        rec = T.Recorder()
        status = pm.train(T.loader((x, y), 4, shuffle=True), fit_config=T.config(
            None if method in ("sghmc", "cyclical") else optax.adam(1e-2), 3, freeze_fun=fz, callbacks=[rec]), **kw)
        self.add("status", status)
        self.add("history", [p for _, _, p in rec.log])
        for s in S.members(pm):
            self.add("state", S.arrays(s))
        if cal:
            self.add("calib", pm.calibrate(T.loader((x, y), 4), calib_config=S.calib_config()))
        fs = calls(pm, x, kind)
        for name, key in steps(sorted(fs)):
            if name in fs:
                self.add(name, fs[name](None if key is None else jax.random.PRNGKey(key)))

    def add(self, name, v):
        self.log.append((name, digest(v)))

    def of(self, name):
        return [v for n, v in self.log if n == name]


def disturb(k):
    """things outside the model that must not matter"""
    np.random.seed(k)
    random.seed(k)
    np.random.normal(size=k % 5)
    random.random()
    os.environ["VF_NOISE"] = str(k)


@suite.scenario(quick=8, thorough=112)
def a_seed_determines_the_workflow(ctx):
    methods = list(S.METHODS)
    method = methods[ctx.i % len(methods)]
    kind = "cls" if method == "sngp" else ctx.choice(["cls", "reg"])
    name, fz, _ = R.freeze(ctx) if method != "sngp" else ("none", None, None)
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 10)
    seed = ctx.integers(0, 1000)
    cal = ctx.rng.random() < 0.5
    plan = [(ctx.rng.random(), (None if ctx.rng.random() < 0.5 else ctx.integers(0, 3))) for _ in range(7)]
    ctx.note(method=method, kind=kind, freeze=name, calibrate=cal)
    ctx.event("kind:" + method)

    def steps(names):
        return [(names[int(u * len(names))], k) for u, k in plan]

    disturb(ctx.integers(1, 1000))
    a = Life(method, kind, seed, x, y, fz, cal, steps)
    disturb(ctx.integers(1, 1000))
    jax.random.normal(jax.random.PRNGKey(3), (4,))

    def with_explicit(names):
        """the same calls, with calls on explicit keys in between: they must not move the model's own stream"""
        for u, k in plan:
            if u < 0.6:
                yield "posterior.sample", 77
                yield "mean", 78
            yield names[int(u * len(names))], k

    b = Life(method, kind, seed, x, y, fz, cal, with_explicit)
    extra = []
    for u, k in plan:
        extra += [True, True, False] if u < 0.6 else [False]
    head = len(b.log) - len(extra)
    b_log = b.log[:head] + [v for v, e in zip(b.log[head:], extra) if not e]
    ctx.check(len(a.log) == len(b_log), "same-history")
    for (n, va), (m, vb) in zip(a.log, b_log):
        ctx.check(n == m and equal(va, vb), f"same-seed-same-{n}")
    for u, k in plan:
        ctx.event("own-stream" if k is None else "explicit-key")
    for n in ("posterior.sample", "mean"):
        vs = [v for (m, v), e in zip(b.log[head:], extra) if e and m == n]
        ctx.check(all(equal(v, vs[0]) for v in vs), "explicit-key-repeatable", n)
    keyed = {}
    names = sorted(calls(a.pm, x, kind))
    for (u, k), (n, v) in zip(plan, a.log[len(a.log) - len(plan):]):
        if k is not None:
            ctx.check(equal(keyed.setdefault((n, k), v), v), "explicit-key-repeatable", f"{n} {k}")
    ctx.key(*[v for _, vs in a.log for v in vs][:40])

    if ctx.rng.random() < 0.7:
        ctx.event("other-seed")
        c = Life(method, kind, seed + 1, x, y, None if not fz else fz, False, lambda names: [])
        ctx.check(not all(equal(p, q) for p, q in zip(a.of("state"), c.of("state"))), "other-seed-other-initialisation")
    if method not in ("map", "sngp", "ensemble", "sghmc", "cyclical"):
        d = [digest(S.arrays(a.pm.posterior.sample(inputs=x))) for _ in range(4)]
        ctx.check(all(not equal(d[i], d[j]) for i in range(4) for j in range(i)), "draws-never-repeat")
    if kind == "reg":
        ld = T.loader((x, y), 5).to_inputs_loader()
        d = [np.asarray(a.pm.predictive.sample(ld, n_target_samples=2, distribute=False)) for _ in range(3)]
        ctx.check(all(not np.array_equal(d[i], d[j]) for i in range(3) for j in range(i)), "target-draws-never-repeat")


def plain(o, depth=4):
    """what a configuration says"""
    if depth and hasattr(o, "__dict__") and type(o).__module__.startswith("fortuna"):
        return {k: plain(v, depth - 1) for k, v in vars(o).items()}
    return list(o) if isinstance(o, list) else o


@suite.scenario(quick=4, thorough=40)
def configurations_are_only_read(ctx):
    """what a model does depends on its configuration, not on which models used that configuration before"""
    first = ["sghmc", "cyclical", "sngp", "swag", "advi", "laplace", "ensemble"][ctx.i % 7]
    kind = "cls"
    x, y = T.data(ctx, kind, 2, 10)
    seed = ctx.integers(0, 1000)
    rec = T.Recorder()

    def config():
        return T.config(optax.adam(1e-2), 3, callbacks=[rec])

    used, m = config(), config()
    pm = S.build(first, kind, seed)
    before = plain(used), plain(m)
    kw = dict(map_fit_config=m) if first in ("laplace", "swag") else {}
    ctx.note(first=first)
    ctx.event("config")
    pm.train(T.loader((x, y), 4), fit_config=used, **kw)
    ctx.check((plain(used), plain(m)) == before, "configuration-unchanged", str([plain(used), before[0]])[:300])
    params = []
    for cfg in (used, config()):
        net = MLP(2, widths=(3,), activations=(nn.tanh,))
        two = T.make(kind, 2, seed=seed, model=net)
        st = two.train(T.loader((x, y), 4), fit_config=cfg)
        params.append([digest(st), digest(two.posterior.state.get().params)])
    ctx.check(all(equal(a, b) for a, b in zip(*params)), "reused-configuration-same-result")
    ctx.key(*params[0][1])


@suite.scenario(quick=6, thorough=60)
def random_streams(ctx):
    seed, n = ctx.integers(0, 10 ** 6), ctx.integers(100, 400)
    g, h = RandomNumberGenerator(seed), RandomNumberGenerator(seed)
    a = np.array([np.asarray(g.get()) for _ in range(n)])
    disturb(seed % 1000)
    b = np.array([np.asarray(h.get()) for _ in range(n)])
    ctx.event("stream")
    ctx.check(np.array_equal(a, b), "same-seed-same-stream")
    ctx.check(len({tuple(k) for k in a.tolist()}) == n, "keys-never-repeat")
    other = RandomNumberGenerator(seed + 1)
    ctx.check(not {tuple(k) for k in a.tolist()} & {tuple(np.asarray(other.get()).tolist()) for _ in range(50)}, "seeds-share-no-keys")
    holder = WithRNG()
    holder.rng = RandomNumberGenerator(seed)
    ctx.check(np.array_equal(np.asarray(holder.rng.get()), a[0]), "holder-uses-the-stream")
    tree = {"a": jnp.zeros((200,)), "b": {"c": jnp.zeros((200,)), "d": jnp.zeros((3, 70), jnp.float32)}, "e": (jnp.zeros(200),)}
    key = jax.random.PRNGKey(seed)
    ks = generate_rng_like_tree(key, tree)
    ctx.check(jax.tree_util.tree_structure(ks) == jax.tree_util.tree_structure(tree), "one-key-per-leaf")
    ks = [tuple(np.asarray(k).tolist()) for k in jax.tree_util.tree_leaves(ks)]
    ctx.check(len(set(ks)) == len(ks), "leaves-get-distinct-keys")
    z = generate_random_normal_like_tree(key, tree)
    z2 = generate_random_normal_like_tree(key, tree)
    ctx.check(equal(digest(z), digest(z2)), "explicit-key-repeatable")
    ctx.check(all(u.shape == v.shape and u.dtype == v.dtype for u, v in zip(jax.tree_util.tree_leaves(z), jax.tree_util.tree_leaves(tree))), "shapes-and-types-kept")
    v = [np.asarray(l).reshape(-1)[:200] for l in jax.tree_util.tree_leaves(z)]
    c = np.corrcoef(np.stack(v))
    ctx.check(np.abs(c - np.eye(len(v))).max() < 0.4, "leaves-independent", np.abs(c - np.eye(len(v))).max())
    al = np.concatenate(v)
    ctx.check(abs(al.mean()) < 6 / np.sqrt(al.size) and abs(al.std() - 1) < 6 / np.sqrt(2 * al.size), "standard-normal")
    ctx.key(a[-1])


@suite.scenario(quick=3, thorough=20)
def priors_and_likelihoods(ctx):
    """explicit keys are repeatable and distinct keys differ, for the building blocks"""
    kind = ctx.choice(["cls", "reg"])
    seed, which = ctx.integers(0, 100), ctx.integers(0, 1)

    def prior():
        return [IsotropicGaussianPrior(log_var=0.3), DiagonalGaussianPrior(log_var=jnp.float32(0.1))][which]

    pm, twin, other = (T.make(kind, 2, seed=s, prior=prior()) for s in (seed, seed, seed + 1))
    k = jax.random.PRNGKey(ctx.integers(0, 1000))
    init, init2, init3 = (m.joint.init(input_shape=(2,)) for m in (pm, twin, other))
    ctx.check(equal(digest(init.params), digest(init2.params)), "same-seed-same-initialisation")
    ctx.check(not equal(digest(init.params), digest(init3.params)), "other-seed-other-initialisation")
    ctx.check(not equal(digest(init.params), digest(pm.joint.init(input_shape=(2,)).params)), "draws-never-repeat", "init")
    p = init.params
    if kind == "reg":
        m, l = [np.asarray(v["params"]["dfe_subnet"]["hidden1"]["kernel"]) for v in (p["model"], p["lik_log_var"])]
        n = min(m.shape[1], l.shape[1])
        ctx.check(not np.array_equal(m[:, :n], l[:, :n]), "components-initialised-apart")
    s = [digest(pm.prior.sample(p, rng=r)) for r in (k, jax.random.split(k)[1], k)]
    ctx.check(equal(s[0], s[2]), "explicit-key-repeatable", "prior")
    ctx.check(not equal(s[0], s[1]), "distinct-keys-distinct-draws", "prior")
    own = [digest(pm.prior.sample(p)) for _ in range(3)]
    ctx.check(not equal(own[0], own[1]) and not equal(own[1], own[2]) and not equal(own[0], own[2]), "draws-never-repeat", "prior")
    x = ctx.rng.normal(size=(4, 2)).astype(np.float32)
    lk = pm.joint.likelihood
    d = [np.asarray(lk.sample(3, p, [x], mutable=init.mutable, calib_params=init.calib_params, calib_mutable=init.calib_mutable, rng=r, distribute=False))
         for r in (k, jax.random.split(k)[1], k)]
    ctx.check(np.array_equal(d[0], d[2]), "explicit-key-repeatable", "likelihood")
    if kind == "reg":
        ctx.check(not np.array_equal(d[0], d[1]), "distinct-keys-distinct-draws", "likelihood")
    ctx.key(d[0])


@suite.scenario(quick=2, thorough=12)
def calibration_models(ctx):
    seed = ctx.integers(0, 1000)
    x, y = T.data(ctx, "cls", 2, 12)
    ctx.event("calib-model")
    out = []
    for s in (seed, seed, seed + 1):
        disturb(ctx.integers(1, 1000))
        m = CalibClassifier(model=T.Net(2, rate=0.5), seed=s)
        st = m.calibrate(T.loader((x, y), 6), config=CConfig(optimizer=COptimizer(method=optax.adam(1e-2), n_epochs=2), monitor=CMonitor(verbose=False), processor=CProcessor(devices=0)))
        out.append([digest(st), digest(m.predictive.state.get().params), digest(m.predictive.mean(T.loader((x, y), 6).to_inputs_loader()))])
    ctx.check(all(equal(u, v) for u, v in zip(out[0], out[1])), "same-seed-same-calibration")
    ctx.check(not equal(out[0][1], out[2][1]), "other-seed-other-initialisation")
    ctx.key(*out[0][1])


CHILD = """
import sys, json, hashlib
sys.path[:0] = [%r, "/repo"]
import jax, numpy as np
from vf.props import c18
spec = json.loads(sys.argv[1])
r = np.random.default_rng(spec["data"])
x = r.normal(size=(10, 2)).astype("float32")
y = np.arange(10) %% 2
a = c18.Life(spec["method"], "cls", spec["seed"], x, y, None, True, lambda names: [(n, None) for n in names])
print("\\nDIGEST " + json.dumps([(n, hashlib.sha1(b"".join(v.tobytes() for v in vs)).hexdigest()) for n, vs in a.log]))
"""


@suite.scenario(quick=1, thorough=12)
def across_processes(ctx):
    """the same workflow in fresh interpreters with different hash seeds"""
    spec = dict(method=ctx.choice(["map", "swag", "advi", "laplace", "ensemble", "sghmc"]), seed=ctx.integers(0, 1000), data=ctx.integers(0, 1000))
    ctx.note(**spec)
    ctx.event("process")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    got = []
    ps = [subprocess.Popen([sys.executable, "-c", CHILD % root, json.dumps(spec)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=str(h))) for h in (1, 424242)]
    for p in ps:
        o, e = p.communicate(timeout=600)
        lines = [l for l in o.decode().splitlines() if l.startswith("DIGEST ")]
        if not lines:
            raise RuntimeError("child failed: " + e.decode()[-800:])
        got.append(json.loads(lines[0][7:]))
    ctx.check(len(got[0]) == len(got[1]), "same-history-across-processes")
    for a, b in zip(*got):
        ctx.check(a == b, "same-across-processes", str((a, b)))
    ctx.key(json.dumps(got[0]))


@suite.scenario(quick=8, thorough=80)
def shared_parts(ctx):
    """two models made of the same network, approximation, prior and calibrator objects, used by turns, each do what they do alone"""
    method = list(S.METHODS)[ctx.i % len(S.METHODS)]
    kind = "cls" if method == "sngp" or ctx.i % 3 else "reg"
    seeds = ctx.integers(0, 1000), ctx.integers(0, 1000)
    data = [T.data(ctx, kind, 2 if kind == "cls" else 1, 10) for _ in range(2)]
    tuned = method == "laplace" and ctx.i // 8 % 2 == 0
    prior_cls = ctx.choice([IsotropicGaussianPrior, DiagonalGaussianPrior]) if method == "laplace" else IsotropicGaussianPrior
    ctx.note(method=method, kind=kind, tuned=tuned)

    def parts():
        dim = 2 if kind == "cls" else 1
        approx = LaplacePosteriorApproximator() if tuned else S.METHODS[method]()
        if method == "sngp":
            net = S.Extractor(dense=nn.Dense, widths=(4, 3), activations=(nn.tanh, nn.tanh))
        else:
            net = MLP(dim, widths=(3,), activations=(nn.tanh,))
        out = dict(model=net, posterior_approximator=approx, prior=prior_cls(log_var=0.3))
        if kind == "reg":
            out.update(likelihood_log_variance_model=MLP(dim, widths=(2,), activations=(nn.tanh,)), output_calibrator=RegressionTemperatureScaler())
        else:
            out.update(output_calibrator=ClassificationTemperatureScaler())
        return out

    def build(p, seed):
        return (ProbClassifier if kind == "cls" else ProbRegressor)(seed=seed, **p)

    def life(pm, x, y):
        """a model's calls, one at a time"""
        ld = T.loader((x, y), 5)
        il = ld.to_inputs_loader()
        yield digest(pm.train(ld, val_data_loader=ld if tuned else None, fit_config=T.config(optax.adam(1e-2), 4), **(dict(map_fit_config=T.config(optax.adam(1e-2), 2)) if method in ("laplace", "swag") else {})))
        yield digest(S.arrays(pm.posterior.sample(inputs=x)))
        yield [np.asarray(pm.predictive.mean(il, n_posterior_samples=3, distribute=False))]
        if method != "sngp":
            yield digest(pm.calibrate(ld, calib_config=S.calib_config()))
        yield [np.asarray(pm.predictive.variance(il, n_posterior_samples=3, distribute=False))]
        yield [np.asarray(pm.predictive.sample(il, n_target_samples=2, distribute=False))]
        yield [np.asarray(pm.predictive.log_prob(ld, n_posterior_samples=3, distribute=False))]
        yield [np.asarray(pm.posterior.joint.prior.log_joint_prob(pm.posterior.sample(inputs=x).params))]

    alone = [list(life(build(parts(), s), *d)) for s, d in zip(seeds, data)]
    p = parts()
    two = [life(build(p, s), *d) for s, d in zip(seeds, data)]
    order = [0, 1] * len(alone[0]) if ctx.i % 2 else list(ctx.rng.permutation([0, 1] * len(alone[0])))
    seen = [0, 0]
    for w in order:
        got, n = next(two[w]), seen[w]
        seen[w] += 1
        ctx.check(len(got) == len(alone[w][n]), "shared-parts", f"{method} model {w} call {n}: {len(got)} values")
        for g, a in zip(got, alone[w][n]):
            ctx.close(g, a, "shared-parts", f"{method} model {w} call {n} in order {order}", rtol=1e-6, atol=1e-7)
    ctx.key(*[v for vs in alone[0] for v in vs][:20])
    ctx.event("shared-parts")
