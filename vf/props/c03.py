import numpy as np

from fortuna.conformal import CVPlusConformalRegressor, JackknifeMinmaxConformalRegressor, JackknifePlusConformalRegressor
from vf.core import Suite

suite = Suite(
    "C03",
    rule="case = (residuals, predictions, fold partition, error); distinct = distinct returned interval arrays",
    assumptions=["quantiles are the linearly interpolated empirical quantiles"],
    required={"strictly_wider_minmax": 5, "crossed": 0},
)
JP, MM, CV = JackknifePlusConformalRegressor(), JackknifeMinmaxConformalRegressor(), CVPlusConformalRegressor()


def gen(ctx, n, t):
    s = float(ctx.choice([1.0, 0.01, 30.0]))
    kind = ctx.integers(0, 3)
    base = ctx.rng.normal(size=t)
    spread = float(ctx.choice([0.0, 0.05, 1.0]))
    test = base[None] + spread * ctx.rng.normal(size=(n, t))
    mu = ctx.rng.normal(size=n)
    y = mu + (ctx.rng.normal(size=n) if kind < 2 else ctx.rng.standard_t(1.5, size=n).clip(-50, 50) if kind == 2 else np.round(ctx.rng.normal(size=n)))
    f = lambda a: (a * s).astype(np.float32)
    return f(mu), f(y), f(test), s


def gen_error(ctx):
    return float(ctx.choice([0.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9, 1.0, round(float(ctx.rng.random()), 3)]))


def ref_plus(mu, y, test, e):
    r = np.abs(y.astype(float) - mu)[:, None]
    return np.stack([np.quantile(test - r, e, axis=0), np.quantile(test + r, 1 - e, axis=0)], 1)


def ref_minmax(mu, y, test, e):
    q = np.quantile(np.abs(y.astype(float) - mu), 1 - e)
    return np.stack([test.min(0) - q, test.max(0) + q], 1)


@suite.scenario(quick=120, thorough=3000)
def leave_one_out(ctx):
    n, t = ctx.choice([1, 2, 3, 8, 20, 41]), ctx.choice([1, 2, 5])
    mu, y, test, s = gen(ctx, n, t)
    e = gen_error(ctx)
    dims = [ctx.integers(1, 2), ctx.integers(1, 2), ctx.integers(2, 3)]
    a = mu[:, None] if dims[0] == 2 else mu
    b = y[:, None] if dims[1] == 2 else y
    c = test[:, :, None] if dims[2] == 3 else test
    ctx.note(n=n, t=t, error=e, scale=s, dims=dims, residuals=(y - mu)[:8])
    tl = 3e-5 * s * (1 + float(np.abs(y / s).max()))
    copies = [x.copy() for x in (a, b, c)]
    jp = np.asarray(JP.conformal_interval(*copies, e))
    mm = np.asarray(MM.conformal_interval(*copies, e))
    ctx.check(all(np.array_equal(x, z) and x.shape == z.shape for x, z in zip(copies, (a, b, c))), "inputs_untouched")
    ctx.close(jp, ref_plus(mu, y, test, e), "jackknife_plus_quantiles", atol=tl)
    ctx.close(mm, ref_minmax(mu, y, test, e), "jackknife_minmax_bounds", atol=tl)
    if jp.shape != (t, 2) or mm.shape != (t, 2):
        return
    ctx.key(jp, mm)
    ctx.check(np.all(mm[:, 0] <= jp[:, 0] + tl) and np.all(mm[:, 1] >= jp[:, 1] - tl), "minmax_contains_plus", f"{mm} {jp}")
    if np.any(mm[:, 1] - mm[:, 0] > jp[:, 1] - jp[:, 0] + 10 * tl):
        ctx.event("strictly_wider_minmax")
    if np.any(jp[:, 0] > jp[:, 1] + tl):
        ctx.event("crossed")
    e2 = e * 0.6
    for m, got in ((JP, jp), (MM, mm)):
        big = np.asarray(m.conformal_interval(a, b, c, e2))
        ctx.check(np.all(big[:, 0] <= got[:, 0] + tl) and np.all(big[:, 1] >= got[:, 1] - tl), "nested_in_error")
        p = ctx.rng.permutation(n)
        ctx.close(m.conformal_interval(a[p], b[p], c[p], e), got, "point_order_irrelevant", atol=tl)
        one = np.concatenate([np.asarray(m.conformal_interval(a, b, c[:, i : i + 1], e)) for i in range(t)])
        ctx.close(one, got, "other_test_points_irrelevant", atol=tl)
        vals = ctx.rng.normal(size=t).astype(np.float32) * s
        ctx.equal(np.asarray(m.is_in(vals, got)).astype(bool), (vals >= got[:, 0]) & (vals <= got[:, 1]), "is_in_exact")
    # singleton folds are leave-one-out
    w = ctx.integers(1, 2)
    col = (lambda x: x[:, None]) if w == 2 else (lambda x: x)
    cv = CV.conformal_interval([col(mu[i : i + 1]) for i in range(n)], [col(y[i : i + 1]) for i in range(n)], [col(test[i]) for i in range(n)], e)
    ctx.close(cv, jp, "singleton_folds_are_jackknife_plus", atol=tl)


@suite.scenario(quick=80, thorough=1500)
def folds(ctx):
    K, t = ctx.integers(1, 5), ctx.choice([1, 2, 5])
    sizes = [ctx.choice([1, 2, 3, 8]) for _ in range(K)]
    e = gen_error(ctx)
    mu, y, test, s = gen(ctx, sum(sizes), t)
    cuts = np.cumsum(sizes)[:-1]
    fm, fy = np.split(mu, cuts), np.split(y, cuts)
    ft = [test[c] for c in np.r_[0, cuts]]  # one prediction vector per fold
    dims = [[ctx.integers(1, 2) for _ in range(3)] for _ in range(K)]
    sh = lambda x, d: x[:, None].copy() if d == 2 else x.copy()
    A = [sh(x, d[0]) for x, d in zip(fm, dims)]
    B = [sh(x, d[1]) for x, d in zip(fy, dims)]
    T = [sh(x, d[2]) for x, d in zip(ft, dims)]
    before = [[x.copy() for x in L] for L in (A, B, T)]
    ids = [[id(x) for x in L] for L in (A, B, T)]
    ctx.note(sizes=sizes, t=t, error=e, dims=dims, scale=s)
    tl = 3e-5 * s * (1 + float(np.abs(y / s).max()))
    want = ref_plus(mu, y, np.repeat(np.stack(ft), sizes, axis=0), e)
    for rep in range(2):
        got = np.asarray(CV.conformal_interval(A, B, T, e))
        ctx.close(got, want, "cvplus_quantiles", atol=tl, msg=f"call {rep}")
        ctx.check(ids == [[id(x) for x in L] for L in (A, B, T)], "caller_lists_untouched", f"call {rep}")
        ctx.check(all(x.shape == z.shape and np.array_equal(x, z) for L, M in zip((A, B, T), before) for x, z in zip(L, M)), "caller_arrays_untouched")
    ctx.key(got)
    p = ctx.rng.permutation(K)
    ctx.close(CV.conformal_interval([A[i] for i in p], [B[i] for i in p], [T[i] for i in p], e), want, "fold_order_irrelevant", atol=tl)


@suite.scenario(quick=12, thorough=60)
def bad_inputs_rejected(ctx):
    n, t = 4, 3
    mu, y, test, s = gen(ctx, n, t)
    m = ctx.choice([JP, MM])
    which = ctx.integers(0, 3)
    ctx.note(which=which)
    ctx.key(which, type(m).__name__)
    if which == 0:
        ctx.raises(ValueError, lambda: m.conformal_interval(mu[:-1], y, test, 0.1), "length_mismatch")
    elif which == 1:
        ctx.raises(ValueError, lambda: m.conformal_interval(np.stack([mu, mu], 1), y, test, 0.1), "vector_outputs")
    elif which == 2:
        ctx.raises(ValueError, lambda: m.conformal_interval(mu, np.stack([y, y], 1), test, 0.1), "vector_targets")
    else:
        ctx.raises(ValueError, lambda: CV.conformal_interval([mu[:-1]], [y], [test[0]], 0.1), "fold_length_mismatch")
