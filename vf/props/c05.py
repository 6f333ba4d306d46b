import numpy as np

from fortuna.conformal import (
    AdaptiveConformalClassifier,
    AdaptiveConformalRegressor,
    AdaptivePredictionConformalClassifier,
    OneDimensionalUncertaintyConformalRegressor,
    QuantileConformalRegressor,
    SimplePredictionConformalClassifier,
)
from vf.core import Suite

suite = Suite(
    "C05",
    rule="case = one stream of (set or interval, target) with step size and weights; distinct = distinct error trajectories",
    required={"hit": 50, "miss": 50, "clipped_low": 3, "clipped_high": 3, "unclipped_stream": 5, "weighted": 50},
)

CLS = [SimplePredictionConformalClassifier, AdaptivePredictionConformalClassifier]
REG = [QuantileConformalRegressor, OneDimensionalUncertaintyConformalRegressor]


class Task:
    def __init__(self, ctx):
        self.ctx = ctx
        self.reg = ctx.rng.random() < 0.5
        if self.reg:
            self.m = AdaptiveConformalRegressor(conformal_regressor=ctx.choice(REG)())
        else:
            self.m = AdaptiveConformalClassifier(conformal_classifier=ctx.choice(CLS)())
        self.scalar = ctx.rng.random() < 0.5

    def step(self, want_in):
        """a set/interval and a target that is (not) inside it"""
        r = self.ctx.rng
        if self.reg:
            c, w = r.normal(), abs(r.normal()) + 0.1
            region = np.array([c - w, c + w], dtype=np.float32)
            y = c + w * r.uniform(-0.9, 0.9) if want_in else c + w * r.choice([-1, 1]) * r.uniform(1.1, 5)
            y = np.float32(y)
        else:
            k = 5
            y = int(r.integers(k))
            others = [int(c) for c in r.permutation([c for c in range(k) if c != y])[: r.integers(0, k)]]
            region = others + [y] if want_in else others
            region = [int(c) for c in r.permutation(region)] if region else []
        return region, (np.array(y) if self.scalar else np.array([y]))

    def update(self, region, error, y, target, **kw):
        kw["conformal_interval" if self.reg else "conformal_set"] = region
        return self.m.update_error(error=error, target=y, target_error=target, **kw)


def policy(ctx):
    kind = ctx.integers(0, 4)
    p = float(ctx.rng.random())
    if kind == 0:
        return "iid", lambda t, e: ctx.rng.random() < p
    if kind == 1:
        return "always_miss", lambda t, e: False
    if kind == 2:
        return "always_hit", lambda t, e: True
    if kind == 3:
        return "adversary", lambda t, e: e > p  # hit when the set is small, miss when large
    return "consistent", lambda t, e: ctx.rng.random() < 1 - e


@suite.scenario(quick=60, thorough=600)
def unweighted_stream(ctx):
    T = Task(ctx)
    target = float(ctx.rng.uniform(0.02, 0.6))
    gamma = float(ctx.choice([0.005, 0.05, 0.3, 1.0, 2.5]))
    name, pol = policy(ctx)
    e0 = error = float(ctx.choice([target, 0.0, 1.0, float(ctx.rng.random())]))
    ctx.note(regression=T.reg, scalar_target=T.scalar, target=target, gamma=gamma, policy=name, start=e0)
    n, miss, clipped, traj = ctx.integers(10, 40), 0, False, []
    for t in range(n):
        hit = bool(pol(t, float(error)))
        region, y = T.step(hit)
        ret_in = ctx.rng.random() < 0.3
        ctx.event("hit" if hit else "miss")
        kw = dict(gamma=gamma) if gamma != 0.005 or ctx.rng.random() < 0.5 else {}
        out = T.update(region, error, y, target, **(dict(return_were_in=True) if ret_in else {}), **kw)
        if ret_in:
            out, isin = out
            ctx.equal(np.asarray(isin).reshape(-1).astype(int), np.array([int(hit)]), "reported_membership")
        raw = float(error) + gamma * (target - (0.0 if hit else 1.0))
        want = min(1.0, max(0.0, raw))
        ok = ctx.check(abs(float(out) - want) <= 2e-6 * max(1, gamma), "error_recursion", f"step {t}: {float(error)} -> {float(out)}, expected {want} (hit={hit})")
        ctx.check(0 <= float(out) <= 1, "error_in_unit_interval")
        if hit:
            ctx.check(float(out) >= float(error) - 1e-6, "hit_never_decreases_error_level")
        else:
            ctx.check(float(out) <= float(error) + 1e-6, "miss_never_increases_error_level")
        if not ok:
            return
        if raw < -1e-6:
            ctx.event("clipped_low")
        if raw > 1 + 1e-6:
            ctx.event("clipped_high")
        clipped |= raw < 0 or raw > 1
        miss += not hit
        error = out
        traj.append(round(float(out), 5))
    ctx.key(tuple(traj))
    if not clipped:
        ctx.event("unclipped_stream")
        bound = 1 / (gamma * n) + 1e-3
        ctx.check(abs(miss / n - target) <= bound, "long_run_coverage", f"{miss / n} vs {target} bound {bound}")


@suite.scenario(quick=40, thorough=400)
def weighted_stream(ctx):
    T = Task(ctx)
    target, gamma = float(ctx.rng.uniform(0.02, 0.6)), float(ctx.choice([0.005, 0.1, 0.7]))
    L = ctx.integers(2, 6)
    w = np.sort(ctx.rng.random(L))
    w = (w / w.sum()).astype(np.float64)
    if ctx.rng.random() < 0.2:
        w = np.r_[np.zeros(L - 1), 1.0]
    hist = ctx.rng.integers(0, 2, size=L - 1)
    error = float(ctx.rng.random())
    name, pol = policy(ctx)
    ctx.note(regression=T.reg, weights=w, gamma=gamma, target=target, policy=name)
    traj = []
    for t in range(ctx.integers(5, 15)):
        hit = bool(pol(t, float(error)))
        region, y = T.step(hit)
        ctx.event("weighted")
        h_in = hist.copy()
        out, isin = T.update(region, error, y, target, gamma=gamma, weights=w.copy(), were_in=h_in, return_were_in=True)
        full = np.r_[hist, int(hit)]
        ctx.check(np.array_equal(h_in, hist), "inputs_untouched")
        ctx.equal(np.asarray(isin).astype(int), full, "history_appended")
        want = min(1.0, max(0.0, float(error) + gamma * (target - float(w @ (1 - full)))))
        if not ctx.check(abs(float(out) - want) <= 1e-5, "weighted_error_recursion", f"step {t}: got {float(out)} want {want}"):
            return
        error, hist = out, full[1:]
        traj.append(round(float(out), 5))
    ctx.key(tuple(traj))


@suite.scenario(quick=20, thorough=60)
def bad_inputs_rejected(ctx):
    T = Task(ctx)
    region, y = T.step(True)
    w, h = np.array([0.2, 0.3, 0.5]), np.array([1, 0])
    bad = {
        "gamma_zero": dict(gamma=0.0),
        "gamma_negative": dict(gamma=-0.1),
        "weights_without_history": dict(weights=w),
        "history_without_weights": dict(were_in=h),
        "weights_descending": dict(weights=w[::-1].copy(), were_in=h),
        "weights_not_normalised": dict(weights=w * 2, were_in=h),
        "weights_negative": dict(weights=np.array([-0.2, 0.4, 0.8]), were_in=h),
        "history_not_binary": dict(weights=w, were_in=np.array([1, 2])),
        "history_wrong_length": dict(weights=w, were_in=np.array([1, 0, 1])),
    }
    name = list(bad)[ctx.i % len(bad)]
    ctx.note(case=name, regression=T.reg)
    ctx.key(name, T.reg)
    ctx.raises(ValueError, lambda: T.update(region, 0.1, y, 0.1, **bad[name]), name)
