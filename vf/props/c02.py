import numpy as np

from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor, QuantileConformalRegressor
from vf.core import Suite

suite = Suite(
    "C02",
    rule="case = (method, calibration sample, test predictions, error); distinct = distinct calibrated amounts",
    assumptions=["a sample of n calibration points is only asked for errors of at least 1/(n+1)",
                 "coverage counts allow float32 rounding at interval ends"],
    required={"covered": 50, "missed": 20},
)

NS = [1, 2, 3, 5, 9, 19, 40]


def gen(ctx, n, scale=None):
    """targets and raw predictions for n points"""
    kind = ctx.integers(0, 3)
    s = scale or float(ctx.choice([1.0, 0.01, 50.0]))
    mu = ctx.rng.normal(size=n)
    if kind == 0:
        y = mu + ctx.rng.normal(size=n)
    elif kind == 1:
        y = mu + ctx.rng.standard_t(1.5, size=n).clip(-100, 100)
    elif kind == 2:  # many ties
        mu = np.round(mu)
        y = np.round(mu + ctx.rng.normal(size=n))
    else:
        y = mu.copy()
    sd = np.exp(ctx.rng.normal(size=n) * 0.7)
    lo = mu - sd * ctx.rng.uniform(-0.2, 1.5, size=n)
    up = mu + sd * ctx.rng.uniform(-0.2, 1.5, size=n)
    f = lambda a: (a * s).astype(np.float32)
    return dict(y=f(y), mu=f(mu), sd=np.maximum(f(sd), 1e-6), lo=f(lo), up=f(up), scale=s)


class Quantile:
    name = "quantile"
    c = QuantileConformalRegressor()

    def raw(self, d):
        return d["lo"], d["up"]

    def unit(self, d):
        return np.ones_like(d["y"])

    def scores(self, d):
        return np.maximum(d["lo"].astype(float) - d["y"], d["y"].astype(float) - d["up"])

    def score(self, v):
        return self.c.score(v["lo"], v["up"], v["y"][:, None])

    def q(self, v, e, **kw):
        return self.c.quantile(v["lo"], v["up"], v["y"][:, None], e, **kw)

    def interval(self, v, t, e, wide=False, **kw):
        a = (lambda x: x[:, None]) if wide else (lambda x: x)
        return self.c.conformal_interval(a(v["lo"]), a(v["up"]), a(t["lo"]), a(t["up"]), v["y"][:, None], e, **kw)


class Scale:
    name = "uncertainty"
    c = OneDimensionalUncertaintyConformalRegressor()

    def raw(self, d):
        return d["mu"], d["mu"]

    def unit(self, d):
        return d["sd"]

    def scores(self, d):
        return np.abs(d["y"].astype(float) - d["mu"]) / d["sd"].astype(float)

    def score(self, v):
        return self.c.score(v["mu"][:, None], v["sd"][:, None], v["y"][:, None])

    def q(self, v, e, **kw):
        return self.c.quantile(v["mu"][:, None], v["sd"][:, None], v["y"][:, None], e, **kw)

    def interval(self, v, t, e, wide=False, **kw):
        a = lambda x: x[:, None]
        return self.c.conformal_interval(a(v["mu"]), a(v["sd"]), a(t["mu"]), a(t["sd"]), a(v["y"]), e, **kw)


METHODS = [Quantile(), Scale()]


def take(d, i):
    return {k: (v[i] if isinstance(v, np.ndarray) else v) for k, v in d.items()}


def gen_error(ctx, n):
    e = float(ctx.choice([0.05, 0.1, 0.2, 0.5, 0.8, 0.3, round(float(ctx.rng.uniform(0.01, 0.95)), 3)]))
    return max(e, 1.0 / (n + 1) + 1e-3)


def tol(d):
    return 2e-5 * max(1e-3, max(float(np.abs(d[k]).max()) for k in ("y", "mu", "sd", "lo", "up")))


@suite.scenario(quick=120, thorough=2500)
def intervals_against_definition(ctx):
    m = ctx.choice(METHODS)
    n, t = ctx.choice(NS), ctx.choice([1, 2, 6])
    d = gen(ctx, n + t)
    v, x = take(d, slice(0, n)), take(d, slice(n, None))
    e = gen_error(ctx, n)
    ctx.note(method=m.name, n=n, t=t, error=e, scale=d["scale"], targets=v["y"][:6])
    tl = tol(d)
    iv = np.asarray(m.interval(v, x, e))
    if not ctx.check(iv.shape == (t, 2) and np.isfinite(iv).all(), "shape_and_finite", f"{iv.shape}"):
        return
    lo, up = m.raw(x)
    # one common calibrated amount
    amount = np.concatenate(((lo - iv[:, 0]) / m.unit(x), (iv[:, 1] - up) / m.unit(x)))
    atol = tl / min(1.0, float(m.unit(x).min())) * 4
    ctx.check(amount.max() - amount.min() <= atol, "one_calibrated_amount", f"{amount}")
    a = float(np.median(amount))
    ctx.key(round(a / d["scale"], 5), n, m.name)
    s = np.sort(m.scores(v))
    k = int(np.ceil((n + 1) * (1 - e) - 1e-9))
    # the amount is a sample quantile between the k-th and the (k+1)-th smallest score
    ctx.check(a >= s[k - 1] - atol, "amount_reaches_required_rank", f"{a} < {s[k - 1]} (rank {k} of {n})")
    ctx.check(a <= s[min(k, n - 1)] + atol, "amount_not_wasteful", f"{a} > {s[min(k, n - 1)]} (rank {k + 1} of {n})")
    # score and quantile report the same thing
    sc = np.asarray(m.score(v))
    ctx.close(sc, m.scores(v), "scores", rtol=1e-4, atol=tl * (1 if m.name == "quantile" else 1 / float(v["sd"].min())))
    q = float(m.q(v, e))
    ctx.check(abs(q - a) <= atol, "quantile_is_amount", f"{q} vs {a}")
    ctx.check(abs(float(m.q(v, e, scores=sc)) - q) <= 1e-6 * max(1, abs(q)), "quantile_from_scores")
    ctx.close(m.interval(v, x, e, quantile=q), iv, "interval_from_quantile", atol=tl)
    ctx.close(m.interval(v, x, e, wide=True), iv, "column_inputs", atol=tl)
    # nesting
    for e2 in (max(e / 2, 1 / (n + 1) + 1e-4), max(1 / (n + 1) + 1e-4, e * 0.9)):
        big = np.asarray(m.interval(v, x, e2))
        ctx.check(np.all(big[:, 0] <= iv[:, 0] + tl) and np.all(big[:, 1] >= iv[:, 1] - tl), "nested_in_error", f"{e}->{e2}")
    # invariances
    p = ctx.rng.permutation(n)
    ctx.close(m.interval(take(v, p), x, e), iv, "calibration_order_irrelevant", atol=tl)
    one = np.concatenate([np.asarray(m.interval(v, take(x, slice(i, i + 1)), e)) for i in range(t)])
    ctx.close(one, iv, "other_test_points_irrelevant", atol=tl)
    # equivariance
    b, g = float(ctx.rng.normal() * 3), float(np.exp(ctx.rng.normal()))
    loc = lambda r: {k: (w * g + b if k in ("y", "mu", "lo", "up") else w * g if k == "sd" else w) for k, w in r.items()}
    ctx.close(m.interval(loc(v), loc(x), e), iv * g + b, "shift_and_scale", atol=20 * tl * max(1, g) + 1e-5 * (abs(b) + 1), rtol=1e-4)
    # membership
    far = np.maximum(np.abs(iv[:, 1] - iv[:, 0]), d["scale"])
    for vals, name in ((x["y"], "target"), (iv[:, 0], "left"), (iv[:, 1], "right"), (iv[:, 0] - far, "below"),
                       (iv[:, 1] + far, "above"), (iv.mean(1), "middle")):
        got = np.asarray(m.c.is_in(vals, iv)).astype(bool)
        ctx.equal(got, (vals >= iv[:, 0]) & (vals <= iv[:, 1]), "is_in_exact", f"{name}")


@suite.scenario(quick=40, thorough=600)
def rotation_coverage(ctx):
    m = ctx.choice(METHODS)
    n = ctx.choice([1, 3, 7, 12, 24])
    d = gen(ctx, n + 1)
    e = gen_error(ctx, n)
    if ctx.rng.random() < 0.4:  # adversarial: huge misses on a fraction of the points
        bad = ctx.rng.random(n + 1) < ctx.rng.uniform(0, 1)
        d["y"] = np.where(bad, d["y"] + 1e3 * d["scale"], d["y"]).astype(np.float32)
    ctx.note(method=m.name, n=n, error=e, targets=d["y"])
    tl = tol(d)
    hits = 0
    for i in range(n + 1):
        k = np.arange(n + 1) != i
        iv = np.asarray(m.interval(take(d, k), take(d, slice(i, i + 1)), e))[0]
        hit = iv[0] - tl <= d["y"][i] <= iv[1] + tl
        hits += int(hit)
        ctx.event("covered" if hit else "missed")
    need = int(np.ceil((1 - e) * (n + 1) - 1e-6))
    ctx.key(hits, n, e, m.name)
    ctx.check(hits >= need, "rotation_coverage", f"{hits}/{n + 1} rotations covered, need {need} at error {e}")


@suite.scenario(quick=6, thorough=30)
def bad_inputs_rejected(ctx):
    m = ctx.choice(METHODS)
    d = gen(ctx, 8)
    e = float(ctx.choice([-0.1, 1.1, 2.0]))
    ctx.note(method=m.name, error=e)
    ctx.raises(ValueError, lambda: m.interval(take(d, slice(0, 5)), take(d, slice(5, None)), e), "error_outside_unit_interval")
    if m.name == "uncertainty":
        d2 = dict(d, sd=d["sd"] * np.where(np.arange(8) == ctx.integers(0, 7), 0, 1).astype(np.float32))
        ctx.raises(ValueError, lambda: m.interval(take(d2, slice(0, 5)), take(d2, slice(5, None)), 0.3), "non_positive_uncertainty")
    ctx.key(m.name, e)
