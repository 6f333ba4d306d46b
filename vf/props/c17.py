import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict
from scipy import special, stats

from fortuna.model.mlp import MLP
from fortuna.prob_model import MAPPosteriorApproximator, ProbClassifier, ProbRegressor
from fortuna.prob_model.prior import DiagonalGaussianPrior, IsotropicGaussianPrior
from fortuna.utils.random import RandomNumberGenerator
from vf.core import Suite

suite = Suite(
    "C17",
    rule="case = (prior, parameter tree or model with data and batching); distinct = distinct log densities",
    assumptions=["diagonal variances are given in the order of jax's leaves", "float32 arithmetic"],
    required={"sampled": 10},
)
SHAPES = [(), (1,), (3,), (2, 2), (4, 1)]


def tree(ctx, depth=0):
    d = {}
    for k in range(ctx.integers(1, 3)):
        name = ctx.choice(["kernel", "bias", "z", "a", "layer"]) + str(k)
        if depth < 2 and ctx.rng.random() < 0.4:
            d[name] = tree(ctx, depth + 1)
        else:
            d[name] = jnp.asarray(ctx.rng.normal(size=ctx.choice(SHAPES)) * float(ctx.choice([0.1, 1, 5])), jnp.float32)
    return d


def prior_of(ctx, n):
    if ctx.rng.random() < 0.5:
        lv = float(np.float32(ctx.choice([0.0, -3.0, 2.5, ctx.rng.normal()])))
        p = IsotropicGaussianPrior(log_var=lv)
        lvs = np.full(n, lv)
    else:
        lvs = ctx.rng.normal(size=n).astype("float32") * 2
        p = DiagonalGaussianPrior(log_var=ctx.choice([jnp.asarray, np.asarray])(lvs))
    p.rng = RandomNumberGenerator(ctx.integers(0, 10 ** 6))
    return p, np.asarray(lvs, float)


@suite.scenario(quick=150, thorough=4000)
def densities(ctx):
    t = tree(ctx)
    if ctx.rng.random() < 0.4:
        t = FrozenDict(t)
    leaves = [np.asarray(v, float).reshape(-1) for v in jax.tree_util.tree_leaves(t)]
    flat = np.concatenate(leaves)
    p, lvs = prior_of(ctx, len(flat))
    want = stats.norm.logpdf(flat, 0, np.exp(lvs / 2)).sum()
    ctx.note(n=len(flat), log_var=lvs, values=flat)
    got = p.log_joint_prob(t)
    ctx.close(got, want, "log-density", rtol=3e-5, atol=3e-4)
    ctx.check(np.shape(got) == (), "scalar")
    ctx.key(np.asarray(got))
    # the gradient of a normal log-density is minus value over variance
    g = np.concatenate([np.asarray(v).reshape(-1) for v in jax.tree_util.tree_leaves(jax.grad(p.log_joint_prob)(t))])
    ctx.close(g, -flat * np.exp(-lvs), "score", rtol=1e-4, atol=1e-4)
    if isinstance(p, IsotropicGaussianPrior):
        ctx.close(p.log_joint_prob({"all": jnp.asarray(flat, jnp.float32)}), want, "structure-does-not-matter",
                  rtol=3e-5, atol=3e-4)


@suite.scenario(quick=40, thorough=800)
def samples(ctx):
    t = tree(ctx)
    n = sum(v.size for v in jax.tree_util.tree_leaves(t))
    p, lvs = prior_of(ctx, n)
    keys = jax.random.split(jax.random.PRNGKey(ctx.integers(0, 10 ** 6)), 400)
    s0 = p.sample(t, rng=keys[0])
    ctx.check(jax.tree_util.tree_structure(s0) == jax.tree_util.tree_structure(t), "sample-structure")
    ctx.check(all(a.shape == b.shape for a, b in zip(jax.tree_util.tree_leaves(s0), jax.tree_util.tree_leaves(t))), "sample-shapes")
    flat = lambda s: jnp.concatenate([v.reshape(-1) for v in jax.tree_util.tree_leaves(s)])
    z = np.asarray(jax.vmap(lambda k: flat(p.sample(t, rng=k)))(keys), float) / np.exp(lvs / 2)
    ctx.close(flat(s0), z[0] * np.exp(lvs / 2), "sample-reproducible", rtol=1e-4)
    m = len(keys)
    ctx.check(np.all(np.abs(z.mean(0)) < 6 / np.sqrt(m)), "sample-mean")
    ctx.check(np.all(np.abs(z.var(0) - 1) < 7 * np.sqrt(2 / m)), "sample-variance", z.var(0))
    if n > 1:
        c = np.corrcoef(z.T)
        ctx.check(np.all(np.abs(c - np.eye(n)) < 6 / np.sqrt(m)), "sample-independent")
    a, b = flat(p.sample(t)), flat(p.sample(t))
    ctx.check(not np.array_equal(a, b), "default-key-advances")
    ctx.event("sampled")
    ctx.key(z[0])


_pms = {}


def pm(kind, dim):
    if (kind, dim) not in _pms:
        m = MLP(dim, widths=(3,), activations=(nn.tanh,))
        if kind == "cls":
            q = ProbClassifier(model=m, posterior_approximator=MAPPosteriorApproximator())
        else:
            q = ProbRegressor(model=m, likelihood_log_variance_model=MLP(dim, widths=(2,), activations=(nn.tanh,)),
                              posterior_approximator=MAPPosteriorApproximator())
        _pms[kind, dim] = (q, q.joint.init((2,)))
    return _pms[kind, dim]


@suite.scenario(quick=30, thorough=500)
def joints(ctx):
    kind = ctx.choice(["cls", "reg"])
    dim = ctx.choice([2, 3]) if kind == "cls" else ctx.choice([1, 2])
    q, st = pm(kind, dim)
    params = jax.tree_util.tree_map(lambda v: jnp.asarray(ctx.rng.normal(size=v.shape), jnp.float32), st.params)
    flat = np.concatenate([np.asarray(v, float).reshape(-1) for v in jax.tree_util.tree_leaves(params)])
    p, lvs = prior_of(ctx, len(flat))
    old, q.joint.prior = q.joint.prior, p
    try:
        b, nb = ctx.choice([1, 2, 4]), ctx.choice([1, 3])
        n = b * nb
        x = ctx.rng.normal(size=(n, 2)).astype("float32")
        y = ctx.rng.integers(0, dim, size=n) if kind == "cls" else ctx.rng.normal(size=(n, dim)).astype("float32")
        o = np.asarray(q.joint.likelihood.model_manager.model.apply(params["model"], x), float)
        if kind == "cls":
            ll = special.log_softmax(o, -1)[np.arange(n), y]
        else:
            lv = np.asarray(q.joint.likelihood.model_manager.likelihood_log_variance_model.apply(params["lik_log_var"], x), float)
            ll = stats.norm.logpdf(y, o, np.exp(lv / 2)).sum(-1)
        lprior = stats.norm.logpdf(flat, 0, np.exp(lvs / 2)).sum()
        total = ctx.choice([n, 10 * n])
        f = lambda s, **kw: q.joint._batched_log_joint_prob(params, (x[s], y[s]), total, calib_params=st.calib_params, calib_mutable=st.calib_mutable, **kw)
        vals = []
        for i in range(nb):
            s = slice(i * b, (i + 1) * b)
            want = lprior + ll[s].sum() * total / b
            v = f(s)
            tol = dict(rtol=2e-4, atol=2e-3)
            ctx.close(v, want, "batch-joint", **tol)
            w, aux = f(s, return_aux=["outputs"])
            ctx.close(w, want, "batch-joint", **tol)
            neg, _ = q.joint._batched_negative_log_joint_prob(params, (x[s], y[s]), total, return_aux=["outputs"],
                                                             calib_params=st.calib_params,
                                                             calib_mutable=st.calib_mutable)
            ctx.close(neg, -want, "negative-joint", **tol)
            vals.append(float(v))
        full = lprior + ll.sum() * total / n
        ctx.check(abs(np.mean(vals) - full) <= 2e-4 * (abs(full) + np.abs(vals).max()) + 2e-3, "epoch-average",
                  f"{np.mean(vals)} vs {full}")
        ctx.note(kind=kind, n=n, batch=b, total=total, values=vals, want=full)
        ctx.key(np.asarray(vals))
    finally:
        q.joint.prior = old


@suite.scenario(quick=6, thorough=20)
def initial_state(ctx):
    kind = ctx.choice(["cls", "reg"])
    q, st = pm(kind, 2)
    ctx.check(set(st.params) == ({"model"} if kind == "cls" else {"model", "lik_log_var"}), "initial-parts", set(st.params))
    ctx.check(st.mutable is None, "no-mutable")
    ctx.check(all(np.all(np.isfinite(v)) for v in jax.tree_util.tree_leaves(st.params)), "finite")
    a, b = q.joint.init((2,)), q.joint.init((2,))
    same = all(np.array_equal(u, v) for u, v in zip(jax.tree_util.tree_leaves(a.params), jax.tree_util.tree_leaves(b.params)))
    ctx.check(not same, "initialisations-differ")
    ctx.key(np.asarray(jax.tree_util.tree_leaves(a.params)[0]))
