import numpy as np
import jax.numpy as jnp

from fortuna.conformal import EnbPI
from vf.core import Suite

suite = Suite(
    "C04",
    rule="case = (bootstrap assignment, predictions, error, stream of batches); distinct = distinct interval arrays",
    assumptions=["every training point is left out of at least one bootstrap sample where the interval centre is compared"],
    required={"stream:batch>1": 10, "stream:batch>=window": 1, "stream:batch=1": 3, "in-every-bag": 10},
)
AGG = {
    "mean": (lambda x: jnp.mean(x, 0), lambda x: np.mean(x, 0)),
    "median": (lambda x: jnp.median(x, 0), lambda x: np.median(x, 0)),
    "max": (lambda x: jnp.max(x, 0), lambda x: np.max(x, 0)),
}


def gen_error(ctx):
    return float(ctx.choice([0.0, 0.02, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0, round(float(ctx.rng.random()), 3)]))


def wide(ctx, x):
    return x[..., None].copy() if ctx.rng.random() < 0.4 else x.copy()


def indices(ctx, b, n):
    for _ in range(50):
        idx = ctx.rng.choice(n, size=(b, n))
        left = np.array([[t not in row for t in range(n)] for row in idx])
        if left.any(0).all():
            return idx, left
    # force: bootstrap sample j never uses points congruent to j
    idx = np.stack([ctx.rng.choice([t for t in range(n) if t % b != j], size=n) for j in range(b)])
    return idx, np.array([[t not in row for t in range(n)] for row in idx])


@suite.scenario(quick=80, thorough=2000)
def initial_interval(ctx):
    b, n, t = ctx.integers(2, 8), ctx.choice([2, 5, 12]), ctx.choice([1, 3, 6])
    name = ctx.choice(list(AGG))
    idx, left = indices(ctx, b, n)
    s = float(ctx.choice([1.0, 0.02, 40.0]))
    tr, te = (ctx.rng.normal(size=(b, n)) * s).astype(np.float32), (ctx.rng.normal(size=(b, t)) * s).astype(np.float32)
    y = (ctx.rng.normal(size=n) * s).astype(np.float32)
    # poison in-bag predictions: they must not matter for residuals
    poison = ctx.rng.random() < 0.5
    tr2 = np.where(left, tr, tr + 1e3 * s).astype(np.float32) if poison else tr
    e = gen_error(ctx)
    ctx.note(b=b, n=n, t=t, agg=name, error=e, poison=poison, indices=idx[:3])
    jf, nf = AGG[name]
    args = [idx.copy(), wide(ctx, tr2), wide(ctx, te), wide(ctx, y)]
    keep = [a.copy() for a in args]
    iv, res = EnbPI(aggregation_fun=jf).conformal_interval(*args, error=e, return_residuals=True)
    ctx.check(all(np.array_equal(a, k) and a.shape == k.shape for a, k in zip(args, keep)), "inputs_untouched")
    iv = np.asarray(iv)
    want_r = np.array([abs(y[i] - nf(tr[left[:, i], i].astype(float))) for i in range(n)])
    tl = 3e-5 * s * 4
    ctx.close(res, want_r, "out_of_bag_residuals", atol=tl)
    cen = np.quantile(np.stack([nf(te[left[:, i]].astype(float)) for i in range(n)]), 1 - e, axis=0)
    q = np.quantile(want_r, 1 - e)
    ctx.close(iv, np.stack([cen - q, cen + q], 1), "interval_definition", atol=tl)
    if iv.shape == (t, 2):
        w = iv[:, 1] - iv[:, 0]
        ctx.check(w.max() - w.min() <= 2 * tl, "same_width_everywhere")
        ctx.key(iv)
    only = EnbPI(aggregation_fun=jf).conformal_interval(*args, error=e)
    ctx.close(only, iv, "residual_flag_does_not_change_interval", atol=tl)
    p = ctx.rng.permutation(b)
    iv2 = EnbPI(aggregation_fun=jf).conformal_interval(args[0][p], args[1][p], args[2][p], args[3], error=e)
    ctx.close(iv2, iv, "bootstrap_order_irrelevant", atol=tl)
    idx3 = np.stack([ctx.rng.permutation(r) for r in idx])
    ctx.close(EnbPI(aggregation_fun=jf).conformal_interval(idx3, *args[1:], error=e), iv, "index_order_irrelevant", atol=tl)


@suite.scenario(quick=15, thorough=300)
def point_in_every_bag(ctx):
    """a training point that no bootstrap sample left out does not spoil the interval or the other residuals"""
    b, n, t = ctx.integers(2, 4), ctx.choice([3, 6]), ctx.choice([1, 3])
    name = ctx.choice(["mean", "median"])
    jf, nf = AGG[name]
    idx = ctx.rng.integers(0, n, size=(b, n))
    at = ctx.integers(0, n - 1)
    idx[:, ctx.integers(0, n - 1)] = at
    left = np.array([[u not in row for u in range(n)] for row in idx])
    tr, te, y = (ctx.rng.normal(size=sh).astype(np.float32) for sh in ((b, n), (b, t), n))
    e = gen_error(ctx)
    ctx.note(b=b, n=n, t=t, agg=name, error=e, indices=idx)
    iv, res = EnbPI(aggregation_fun=jf).conformal_interval(idx, tr, te, y, error=e, return_residuals=True)
    iv, res = np.asarray(iv), np.asarray(res)
    ctx.check(iv.shape == (t, 2) and np.all(np.isfinite(iv)) and np.all(iv[:, 0] <= iv[:, 1]), "interval-with-a-point-in-every-bag", str(iv))
    ctx.check(np.all(np.isfinite(res)) and np.all(res >= 0), "residual-with-a-point-in-every-bag", str(res))
    some = left.any(0)
    ctx.close(res[some], np.array([abs(y[i] - nf(tr[left[:, i], i].astype(float))) for i in np.where(some)[0]]), "out_of_bag_residuals", atol=1e-4)
    ctx.key(iv)
    ctx.event("in-every-bag")


@suite.scenario(quick=60, thorough=1200)
def stream_of_batches(ctx):
    b, n = ctx.integers(2, 6), ctx.choice([3, 6, 10])
    name = ctx.choice(list(AGG))
    jf, nf = AGG[name]
    en = EnbPI(aggregation_fun=jf)
    s = float(ctx.choice([1.0, 0.02, 40.0]))
    tl = 1e-4 * s
    g = lambda *sh: (ctx.rng.normal(size=sh) * s).astype(np.float32)
    idx, left = indices(ctx, b, n)
    _, res = en.conformal_interval(idx, g(b, n), g(b, 2), g(n), error=0.1, return_residuals=True)
    model = [float(x) for x in np.asarray(res)]
    sizes, jn = [], bool(ctx.rng.random() < 0.3)
    for step in range(ctx.integers(2, 5)):
        m, t = ctx.choice([1, 2, 3, n, n + 2]), ctx.choice([1, 2, 4])
        sizes.append(m)
        e = gen_error(ctx)
        tr, te, y = g(b, m), g(b, t), g(m)
        r_in = jnp.asarray(res) if jn else np.array(res)
        snap = np.array(r_in)
        a = [wide(ctx, tr), wide(ctx, te), wide(ctx, y)]
        keep = [x.copy() for x in a]
        iv, new = en.conformal_interval_from_residuals(r_in, *a, error=e)
        ctx.event("stream:batch=1" if m == 1 else "stream:batch>=window" if m >= n else "stream:batch>1")
        ctx.check(np.array_equal(np.asarray(r_in), snap), "callers_residuals_untouched", f"step {step} batch {m}")
        ctx.check(all(np.array_equal(x, k) and x.shape == k.shape for x, k in zip(a, keep)), "inputs_untouched")
        model = (model + [float(abs(u)) for u in y - nf(tr.astype(float))])[-n:]
        ctx.close(new, np.array(model), "window_drops_oldest_and_keeps_all_newest", atol=tl, msg=f"step {step} batch {m}")
        q, cen = np.quantile(model, 1 - e), nf(te.astype(float))
        ctx.close(iv, np.stack([cen - q, cen + q], 1), "online_interval_definition", atol=tl)
        res = new
    ctx.note(b=b, n=n, agg=name, batches=sizes, jax_residuals=jn)
    ctx.key(np.asarray(res))


@suite.scenario(quick=8, thorough=40)
def bad_inputs_rejected(ctx):
    b, n = 3, 5
    g = lambda *sh: ctx.rng.normal(size=sh).astype(np.float32)
    idx, _ = indices(ctx, b, n)
    which = ctx.i % 4
    ctx.key(which)
    ctx.note(which=which)
    en = EnbPI()
    f = {
        0: lambda: en.conformal_interval(np.where(idx == idx[0, 0], n, idx), g(b, n), g(b, 2), g(n), error=0.1),
        1: lambda: en.conformal_interval(idx, g(b + 1, n), g(b, 2), g(n), error=0.1),
        2: lambda: en.conformal_interval(idx, g(b, n), g(b, 2), g(n - 1), error=0.1),
        3: lambda: en.conformal_interval_from_residuals(g(n), g(b, 2), g(b + 1, 2), g(2), error=0.1),
    }[which]
    ctx.raises(ValueError, f, f"inconsistent_input_{which}")
