import numpy as np

from fortuna.conformal import BatchMVPConformalClassifier, BatchMVPConformalRegressor
from vf.core import Suite
from vf.props.mv import cell, replay

suite = Suite(
    "C09",
    rule="case = (scores, groups, thresholds, coverage, buckets, rounds); distinct = distinct calibrated threshold vectors",
    assumptions=["rows whose bucket membership is decided within 2e-6 are not compared with the numpy replay"],
    required={"patches": 60, "sets:ragged": 5, "sets:empty": 2, "single_cell": 10},
)
CLS = {"classifier": BatchMVPConformalClassifier, "regressor": BatchMVPConformalRegressor}


def gen(ctx, n):
    G = ctx.integers(1, 3)
    groups = ctx.rng.random((n, G)) < ctx.rng.uniform(0.3, 0.9, size=G)
    groups[0] = True
    scores = np.clip(ctx.rng.beta(2, 3, n) + 0.25 * groups[:, -1] * ctx.rng.random(n), 0, 1).astype(np.float32)
    th = np.clip(ctx.rng.uniform(0.1, 0.6, n), 0, 1).astype(np.float32) if ctx.rng.random() < 0.7 else np.full(n, float(ctx.rng.uniform(0, 0.6)), np.float32)
    return groups, scores, th


def pinball(t, s, cov):
    d = s.astype(float) - t
    return float(np.mean(np.where(d > 0, cov * d, -(1 - cov) * d)))


@suite.scenario(quick=30, thorough=400)
def replay_is_faithful(ctx):
    kind = ctx.choice(list(CLS))
    n, t = ctx.choice([40, 90]), ctx.choice([1, 7])
    groups, scores, th = gen(ctx, n + t)
    cov = float(ctx.choice([0.5, 0.8, 0.9, 0.95]))
    cfg = dict(n_buckets=ctx.choice([4, 10, 20]), eta=float(ctx.choice([0.1, 0.5, 1.0])), split=float(ctx.choice([0.5, 0.8, 1.0])),
               bucket_types=ctx.choice([("<=", ">="), ("=",), (">=",)]), coverage=cov, atol=1e-4)
    rounds, seed = ctx.choice([1, 3, 8]), ctx.integers(0, 3)
    ctx.note(kind=kind, n=n, t=t, rounds=rounds, seed=seed, **cfg)
    g, tg, s, v, tv = groups[:n], groups[n:], scores[:n], th[:n], th[n:]
    args = dict(scores=s.copy(), groups=g.copy(), thresholds=v.copy(), test_groups=tg.copy(), test_thresholds=tv.copy())
    m = CLS[kind](seed=seed)
    out, st = m.calibrate(**args, n_rounds=rounds, **cfg)
    out = np.asarray(out)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args.values(), (s, g, v, tg, tv))), "inputs_untouched")
    ctx.event("patches", len(m.patches))
    ctx.check(st["n_rounds"] <= rounds and len(m.patches) == st["n_rounds"], "round_count")
    ap = lambda gg, vv, mm=m: np.asarray(mm.apply_patches(groups=gg, thresholds=vv))
    ctx.close(out, ap(tg, tv), "test_values_are_patched_values", atol=1e-6)
    ctx.close(np.concatenate([ap(tg[i : i + 1], tv[i : i + 1]) for i in range(t)]), out, "other_test_points_irrelevant", atol=1e-6)
    cal = ap(g, v)
    got = np.concatenate([cal, out])
    ctx.check(np.all((got >= 0) & (got <= 1)), "stays_in_unit_interval")
    want, doubt = replay(m.patches, groups, th, cfg["n_buckets"], cfg["eta"])
    ctx.close(got[~doubt], want[~doubt], "replay_of_patches", atol=1e-4)
    ctx.key(got)
    m2 = CLS[kind](seed=seed)
    out2, st2 = m2.calibrate(**args, n_rounds=rounds, **cfg)
    ctx.equal(np.asarray(out2), out, "deterministic")
    ctx.close(float(m.pinball_loss(cal, s, cov)), pinball(cal, s, cov), "pinball_loss", rtol=1e-3)
    # more rounds never hurt
    last = pinball(v, s, cov)
    for r in (1, 2, 4):
        m3 = CLS[kind](seed=seed)
        m3.calibrate(scores=s, groups=g, thresholds=v, n_rounds=r, **cfg)
        if len(m3.patches):
            now = pinball(ap(g, v, m3), s, cov)
            ctx.check(now <= last + 1e-5 + cfg["atol"], "loss_non_increasing", f"{last} -> {now} at {r} rounds")
            last = now


@suite.scenario(quick=30, thorough=400)
def single_cell_reaches_best_coverage(ctx):
    """one group, one common threshold: one full step picks the grid shift with the closest coverage"""
    n = ctx.choice([20, 60, 150])
    s = ctx.rng.beta(2, 2, n).astype(np.float32)
    t0 = float(ctx.choice([0.0, 0.0, float(ctx.rng.uniform(0, 0.5))]))
    cov, nb = float(ctx.choice([0.5, 0.8, 0.9, 0.95])), ctx.choice([5, 10, 30])
    m = CLS[ctx.choice(list(CLS))](seed=0)
    v = np.full(n, t0, np.float32)
    default = t0 == 0.0 and ctx.rng.random() < 0.5
    ctx.note(n=n, start=t0, coverage=cov, n_buckets=nb, default_thresholds=default)
    kw = {} if default else dict(thresholds=v)
    st = m.calibrate(scores=s, n_rounds=1, eta=1.0, split=1.0, n_buckets=nb, coverage=cov, bucket_types=(">=", "<="), atol=0.0, rtol=0.0, **kw)
    if not st["n_rounds"]:
        return
    ctx.event("single_cell")
    ctx.event("patches")
    out = np.asarray(m.apply_patches(thresholds=v))
    ctx.check(np.ptp(out) == 0, "identical_points_identical_thresholds")
    grid = np.linspace(0, 1, nb)
    grid = np.r_[-grid[1:][::-1], grid]
    cand = t0 + grid
    err = lambda t: abs(np.mean(s <= t + 1e-6) - cov), lambda t: abs(np.mean(s <= t - 1e-6) - cov)
    best = min(max(e(c) for e in err) for c in cand)
    ctx.key(out[0], n, cov)
    ctx.check(min(e(float(out[0])) for e in err) <= best + 1e-4, "closest_coverage", f"coverage {np.mean(s <= out[0])} vs {cov}, best error {best}")


@suite.scenario(quick=30, thorough=400)
def calibration_error_definition(ctx):
    n = ctx.choice([5, 40, 90])
    g, s, v = gen(ctx, n)
    nb, cov = ctx.choice([2, 5, 10]), float(ctx.choice([0.5, 0.9]))
    m = CLS[ctx.choice(list(CLS))]()
    m.calibrate(scores=s, groups=g, thresholds=v, n_rounds=1, n_buckets=4, coverage=cov)
    default = ctx.rng.random() < 0.3
    if default:
        v = np.zeros(n, np.float32)
    ctx.note(n=n, n_buckets=nb, coverage=cov, default_thresholds=default)
    want, near_any = np.zeros(g.shape[1]), bool((np.abs(s - v) < 1e-6).any())
    for j in range(g.shape[1]):
        for b0 in np.linspace(0, 1, nb):
            b, near = cell(v, b0, 0, nb)
            near_any |= bool((near & g[:, j]).any())
            b = b & g[:, j]
            if b.any():
                want[j] += b.mean() * (cov - np.mean(s[b] <= v[b])) ** 2
        want[j] /= g[:, j].mean()
    # buckets that hold nobody contribute nothing
    if near_any:
        return
    got = np.asarray(m.calibration_error(scores=s, groups=g, n_buckets=nb, **({} if default else dict(thresholds=v))))
    ctx.key(got)
    ctx.close(got, want, "calibration_error", atol=1e-5, rtol=1e-3)


@suite.scenario(quick=40, thorough=600)
def sets_and_intervals(ctx):
    n, k = ctx.choice([1, 2, 5, 12]), ctx.choice([2, 3, 6])
    cs = ctx.rng.random((n, k)).astype(np.float32)
    th = ctx.rng.random(n).astype(np.float32)
    if ctx.rng.random() < 0.3:
        th[: n // 2 + 1] = 0.0
    if ctx.rng.random() < 0.3:
        cs[0, 0] = th[0]  # exactly on the threshold
    ctx.note(n=n, k=k, scores=cs[:3], thresholds=th)
    m = BatchMVPConformalClassifier()
    sets = m.conformal_set(cs, th)
    want = [[c for c in range(k) if cs[i, c] <= th[i]] for i in range(n)]
    ctx.check([sorted(int(c) for c in x) for x in sets] == want, "set_is_scores_within_threshold", f"{sets} vs {want}")
    ctx.key(tuple(map(tuple, want)))
    if len({len(x) for x in want}) > 1:
        ctx.event("sets:ragged")
    ctx.event("sets:empty", sum(not x for x in want))
    more = m.conformal_set(cs, np.minimum(1, th + ctx.rng.random(n).astype(np.float32)))
    ctx.check(all(set(a) <= set(b) for a, b in zip(sets, more)), "larger_threshold_larger_set")
    y = ctx.rng.integers(k, size=n)
    ctx.equal(np.asarray(m.is_in(y, sets)).astype(bool), np.array([int(a) in b for a, b in zip(y, want)]), "class_membership")
    lo = ctx.rng.normal(size=n).astype(np.float32)
    iv = np.stack([lo, lo + ctx.rng.random(n).astype(np.float32)], 1)
    x = np.where(ctx.rng.random(n) < 0.5, iv.mean(1), ctx.rng.normal(size=n)).astype(np.float32)
    ctx.equal(np.asarray(BatchMVPConformalRegressor().is_in(x, iv)).astype(bool), (x >= iv[:, 0]) & (x <= iv[:, 1]), "interval_membership")


@suite.scenario(quick=12, thorough=150)
def earlier_calls_leave_no_trace(ctx):
    """a calibrator used before gives what a new one gives, also when the later call accepts no round"""
    n, t = ctx.choice([40, 90]), 5
    groups, scores, th = gen(ctx, n + t)
    g, tg, s, v, tv = groups[:n], groups[n:], scores[:n], th[:n], th[n:]
    kind, seed, rounds = ctx.choice(list(CLS)), ctx.integers(0, 3), ctx.choice([1, 4])
    kw = dict(n_rounds=rounds, n_buckets=ctx.choice([4, 10]), coverage=float(ctx.choice([0.5, 0.9])))
    if ctx.rng.random() < 0.5:
        kw.update(min_prob_b=1.0, bucket_types=("=",))
    ctx.note(kind=str(kind), n=n, **kw)
    m, new = CLS[kind](seed=seed), CLS[kind](seed=seed)
    m.calibrate(scores=s[::-1].copy(), groups=g[::-1].copy(), thresholds=v[::-1].copy(), n_rounds=5, n_buckets=ctx.choice([4, 20]), coverage=0.7)
    ctx.event("patches", len(m.patches))
    m.apply_patches(groups=tg, thresholds=tv)
    m.calibration_error(scores=s, groups=g, thresholds=v, n_buckets=7)
    st, st2 = (o.calibrate(scores=s, groups=g, thresholds=v, **kw) for o in (m, new))
    ctx.check(st["n_rounds"] == st2["n_rounds"] == len(m.patches), "rounds_of_reused_calibrator", f"{st['n_rounds']} {st2['n_rounds']} {len(m.patches)}")
    ctx.equal(np.asarray(m.apply_patches(groups=tg, thresholds=tv)), np.asarray(new.apply_patches(groups=tg, thresholds=tv)), "reused_calibrator")
    ctx.event("later_call_without_patches", int(len(new.patches) == 0))
    ctx.key(n, str(kind), rounds, st2["losses"])
