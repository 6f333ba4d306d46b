import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict
from jax.flatten_util import ravel_pytree

from fortuna.prob_model.posterior.sgmcmc.sgmcmc_diagnostic import effective_sample_size, kernel_stein_discrepancy_imq
from vf.core import Suite

suite = Suite(
    "C28",
    rule="case = (samples, gradients, c, beta) or (chain, threshold); distinct = distinct reported values",
    assumptions=["float32 arithmetic: relative tolerance 2e-3 plus cancellation in the pairwise sum",
                 "chains constant in some coordinate are excluded: their autocorrelation is undefined"],
    required={"ksd": 60, "ksd:tree": 10, "ksd:extreme": 10, "ess": 60, "ess:none": 8, "ess:antithetic": 5, "ess:sticky": 10},
)


def ksd_ref(x, g, c, b):
    """|| mean Stein feature ||: derivatives of (c^2+|x-y|^2)^b by hand, plain float64 double loop over pairs"""
    n, d = x.shape
    tot, mag = 0.0, 0.0
    for i in range(n):
        for j in range(n):
            r = x[i] - x[j]
            q = c * c + r @ r
            k = q ** b
            dkx = 2 * b * q ** (b - 1) * r
            dky = -dkx
            lap = sum(-2 * b * q ** (b - 1) - 4 * b * (b - 1) * q ** (b - 2) * r[a] ** 2 for a in range(d))
            terms = (lap, g[i] @ dky, g[j] @ dkx, (g[i] @ g[j]) * k)
            tot += sum(terms)
            mag += sum(abs(t) for t in terms)
    return tot, mag


def tree_of(ctx, v, layout):
    if layout == "flat":
        return jnp.asarray(v)
    if layout == "dict":
        return {"a": jnp.asarray(v[:1]), "b": {"c": jnp.asarray(v[1:])}}
    return FrozenDict({"m": {"w": jnp.asarray(v[:2].reshape(1, -1)), "z": jnp.asarray(v[2:])}})


@suite.scenario(quick=90, thorough=2500)
def ksd(ctx):
    n, d = ctx.choice([1, 2, 5, 12]), ctx.choice([1, 3, 6])
    layout = ctx.choice(["flat", "dict", "frozen"]) if d > 1 else "flat"
    scale = ctx.choice([0.1, 1.0, 10.0])
    c = ctx.choice([None, 0.3, 1.0, 2.5])
    beta = ctx.choice([None, -0.5, -0.2, -0.9])
    x = (ctx.rng.normal(size=(n, d)) * scale).astype(np.float32)
    kind = ctx.choice(["score", "random", "repeated"])
    g = -(x - 0.3) / 1.5 if kind == "score" else ctx.rng.normal(size=(n, d)).astype(np.float32) * ctx.choice([0.1, 3.0])
    if kind == "repeated" and n > 1:
        x[1:] = x[0]
        g[1:] = g[0]
    g = np.asarray(g, np.float32)
    kw = {k: v for k, v in (("c", c), ("beta", beta)) if v is not None}
    ctx.note(n=n, d=d, layout=layout, scale=scale, kind=kind, **kw)
    ctx.event("ksd")
    if layout != "flat":
        ctx.event("ksd:tree")
    if scale == 10.0 or kind == "repeated":
        ctx.event("ksd:extreme")
    S, G = [tree_of(ctx, v, layout) for v in x], [tree_of(ctx, v, layout) for v in g]
    got = float(kernel_stein_discrepancy_imq(S, G, **kw))
    tot, mag = ksd_ref(x.astype(float), g.astype(float), kw.get("c", 1.0), kw.get("beta", -0.5))
    # compare squares, in which float32 cancellation is additive
    tol = 2e-5 * mag + 1e-7
    ctx.check(np.isfinite(got) and got >= 0 or tot < 2 * tol, "ksd-finite-non-negative", f"{got}")
    if np.isfinite(got):
        ctx.check(abs((got * n) ** 2 - tot) <= tol + 1e-3 * abs(tot), "ksd-definition", f"got {got}, expected {np.sqrt(max(tot, 0)) / n}")
        p = ctx.rng.permutation(n)
        alt = float(kernel_stein_discrepancy_imq([S[i] for i in p], [G[i] for i in p], **kw))
        ctx.check(abs((alt * n) ** 2 - tot) <= tol + 1e-3 * abs(tot), "ksd-order-invariant")
    ctx.key(round(got, 6))
    # translation leaves it unchanged
    alt = float(kernel_stein_discrepancy_imq([jax.tree_util.tree_map(lambda v: v + 0.5, s) for s in S], G, **kw))
    if np.isfinite(alt):
        ctx.check(abs((alt * n) ** 2 - tot) <= 4 * tol + 2e-3 * abs(tot), "ksd-translation-invariant")


@suite.scenario(quick=6, thorough=40)
def ksd_rejects(ctx):
    x = [jnp.asarray(v) for v in ctx.rng.normal(size=(3, 2))]
    bad = ctx.choice([dict(c=0.0), dict(c=-1.0), dict(beta=0.0), dict(beta=0.5)])
    ctx.note(**bad)
    ctx.raises(ValueError, lambda: kernel_stein_discrepancy_imq(x, x, **bad), "invalid-kernel-parameters")
    ctx.key(str(bad))


@suite.scenario(quick=6, thorough=60)
def ksd_separates(ctx):
    """samples of the target score lower than shifted or stretched samples"""
    d, n = ctx.choice([1, 3]), 40
    z = ctx.rng.normal(size=(n, d)).astype(np.float32)
    z = (z - z.mean(0)) / z.std(0)
    how = ctx.choice(["shift", "stretch"])
    w = z + 3 if how == "shift" else z * 4
    ctx.note(d=d, how=how)
    f = lambda v: float(kernel_stein_discrepancy_imq([jnp.asarray(r) for r in v], [jnp.asarray(-r) for r in v]))
    a, b = f(z), f(w)
    ctx.check(a < b, "ksd-ranks-samplers", f"{a} vs {b}")
    ctx.key(a, b)


def ess_ref(x, thr):
    n, d = x.shape
    out, edge = np.zeros(d), np.zeros(d, bool)
    for j in range(d):
        v = x[:, j] - x[:, j].mean()
        rho = np.array([v[: n - k] @ v[k:] / (n - k) for k in range(n)])
        rho = rho / rho[0]
        w = (n - np.arange(n)) / n * rho
        if thr is not None:
            below = np.nonzero(rho < thr)[0]
            cut = below[0] if len(below) else n
            edge[j] = np.any(np.abs(rho[: cut + 1] - thr) < 1e-4)
            w = w[:cut]
        out[j] = -1 + 2 * w.sum()
    return n / out, out, edge


def chain(ctx, n, d, kind):
    e = ctx.rng.normal(size=(n, d))
    if kind == "iid":
        return e
    a = {"sticky": 0.9, "antithetic": -0.6, "mild": 0.4}[kind]
    x = np.zeros((n, d))
    for i in range(n):
        x[i] = a * x[i - 1] + e[i] if i else e[i]
    return x


@suite.scenario(quick=80, thorough=2000)
def ess(ctx):
    n, d = ctx.choice([4, 16, 33, 120]), ctx.choice([1, 3, 6])
    layout = ctx.choice(["flat", "dict", "frozen"]) if d > 1 else "flat"
    kind = ctx.choice(["iid", "sticky", "antithetic", "mild"])
    thr = ctx.choice([0.0, 0.0, 0.05, 0.3, None])
    x = chain(ctx, n, d, kind).astype(np.float32)
    ctx.note(n=n, d=d, layout=layout, kind=kind, threshold=thr)
    ctx.event("ess")
    ctx.event(f"ess:{kind}")
    if thr is None:
        ctx.event("ess:none")
    f = lambda v: effective_sample_size([tree_of(ctx, r, layout) for r in v], **({} if thr == 0.0 else dict(filter_threshold=thr)))
    got = f(x)
    one = tree_of(ctx, x[0], layout)
    ctx.check(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(one), "ess-same-structure")
    got = np.asarray(ravel_pytree(got)[0], float)
    want, denom, edge = ess_ref(x.astype(float), thr)
    ok = (~edge) & (np.abs(denom) > 1e-2)
    # n/(denominator): compare denominators, where rounding is additive
    ctx.close((n / got)[ok], denom[ok], "ess-definition", rtol=2e-3, atol=2e-3)
    ctx.key(np.round(got, 3))
    a = ctx.choice([-2.0, 0.25, 30.0])
    alt = np.asarray(ravel_pytree(f((a * x + 1.5 * abs(a)).astype(np.float32)))[0], float)
    ctx.close((n / alt)[ok], denom[ok], "ess-affine-invariant", rtol=5e-3, atol=5e-3)
    if thr == 0.0 and n >= 120:
        if kind == "sticky":
            ctx.check(np.all(got < 0.6 * n), "sticky-chain-has-fewer", str(got))
        if kind == "iid":
            ctx.check(np.all(got > 0.4 * n), "independent-chain-keeps-most", str(got))
