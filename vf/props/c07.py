import numpy as np
import jax.numpy as jnp

from fortuna.conformal import BinaryClassificationMulticalibrator, Multicalibrator, TopLabelMulticalibrator
from vf.core import Suite
from vf.props.mv import cell, replay

suite = Suite(
    "C07",
    rule="case = (method, data, groups, buckets, step size, rounds); distinct = distinct calibrated value vectors",
    assumptions=["rows whose bucket membership is decided within 2e-6 are not compared with the numpy replay"],
    required={"patches": 60, "converged": 5, "kind:generic": 5, "kind:binary": 5, "kind:top": 5, "multiplicative": 5},
)


def softmax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def gen(ctx, n, kind=None):
    kind = kind or ctx.choice(["generic", "binary", "top"])
    G = ctx.integers(1, 3)
    groups = ctx.rng.random((n, G)) < ctx.rng.uniform(0.3, 0.9, size=G)
    groups[:, 0] |= ctx.rng.random() < 0.5
    groups[0] = True
    x = ctx.rng.random(n)
    if kind == "top":
        k = ctx.integers(2, 4)
        z = ctx.rng.normal(size=(n, k)) * 2
        values = softmax(z).astype(np.float32)
        p = softmax(z * 0.4 + 0.5 * ctx.rng.normal(size=k) + (groups[:, :1] * 0.7) * np.eye(k)[0])
        scores = np.array([ctx.rng.choice(k, p=r) for r in p]).astype(np.int32)
        return kind, k, groups, values, scores
    values = np.clip(x + 0.05 * ctx.rng.normal(size=n), 0.001, 0.999).astype(np.float32)
    mean = np.clip(0.15 + 0.7 * x**2 + 0.25 * groups[:, -1], 0.02, 0.98)
    if kind == "binary":
        scores = (ctx.rng.random(n) < mean).astype(np.int32)
        scores[:2] = [0, 1]
    else:
        scores = np.clip(mean + 0.1 * ctx.rng.normal(size=n), 0, 1).astype(np.float32)
    return kind, None, groups, values, scores


class Method:
    def __init__(self, kind, k, seed):
        self.kind, self.k = kind, k
        self.m = {"generic": lambda: Multicalibrator(seed=seed), "binary": lambda: BinaryClassificationMulticalibrator(seed=seed),
                  "top": lambda: TopLabelMulticalibrator(n_classes=k, seed=seed)}[kind]()

    def _kw(self, scores, groups, values, tg=None, tv=None):
        if self.kind == "generic":
            d = dict(scores=scores, groups=groups, values=values, test_groups=tg, test_values=tv)
        else:
            d = dict(targets=scores, groups=groups, probs=values, test_groups=tg, test_probs=tv)
        return {a: b for a, b in d.items() if b is not None}

    def calibrate(self, s, g, v, tg=None, tv=None, **kw):
        return self.m.calibrate(**self._kw(s, g, v, tg, tv), **kw)

    def apply(self, g, v):
        return np.asarray(self.m.apply_patches(groups=g, **{"values" if self.kind == "generic" else "probs": v}))

    def error(self, s, g, v, n):
        return np.asarray(self.m.calibration_error(**self._kw(s, g, v), n_buckets=n))

    def loss(self, v, s):
        a = ("values", "scores") if self.kind == "generic" else ("probs", "targets")
        return float(self.m.mean_squared_error(**{a[0]: jnp.asarray(v), a[1]: jnp.asarray(s)}))


def onehot(kind, k, scores):
    return np.eye(k)[scores] if kind == "top" else scores.astype(float)


def ref_loss(kind, k, v, s):
    return float(np.mean((np.asarray(v, float) - onehot(kind, k, s)) ** 2))


def config(ctx):
    return dict(
        n_buckets=ctx.choice([2, 5, 10, 20]),
        eta=float(ctx.choice([0.1, 0.5, 1.0])),
        split=float(ctx.choice([0.5, 0.8, 1.0])),
        bucket_types=ctx.choice([("<=", ">="), ("=",), ("=", "<=", ">="), (">=",)]),
        patch_type=ctx.choice(["additive", "additive", "multiplicative"]),
        atol=float(ctx.choice([1e-4, 1e-2])),
    )


@suite.scenario(quick=36, thorough=500)
def replay_is_faithful(ctx):
    n, t = ctx.choice([40, 90]), ctx.choice([1, 7])
    kind, k, groups, values, scores = gen(ctx, n + t)
    cfg = config(ctx)
    rounds = ctx.choice([1, 3, 8, 15])
    seed = ctx.integers(0, 3)
    ctx.event("kind:" + kind)
    ctx.event(cfg["patch_type"])
    ctx.note(kind=kind, n=n, t=t, groups=groups.shape[1], rounds=rounds, seed=seed, **cfg)
    g, tg, v, tv, s = groups[:n], groups[n:], values[:n], values[n:], scores[:n]
    args = [x.copy() for x in (s, g, v, tg, tv)]
    M = Method(kind, k, seed)
    out, status = M.calibrate(*args, n_rounds=rounds, **cfg)
    out = np.asarray(out)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, (s, g, v, tg, tv))), "inputs_untouched")
    ctx.event("patches", len(M.m.patches))
    ctx.check(status["n_rounds"] <= rounds and len(M.m.patches) == status["n_rounds"], "round_count", f"{status}")
    ctx.close(out, M.apply(tg, tv), "test_values_are_patched_values", atol=1e-6)
    ctx.check(np.all((out >= 0) & (out <= 1)), "stays_in_unit_interval")
    one = np.concatenate([M.apply(tg[i : i + 1], tv[i : i + 1]) for i in range(t)])
    ctx.close(one, out, "other_test_points_irrelevant", atol=1e-6)
    cal = M.apply(g, v)
    ctx.check(np.all((cal >= 0) & (cal <= 1)), "stays_in_unit_interval")
    ctx.key(cal)
    # independent replay
    want, doubt = replay(M.m.patches, groups, values, cfg["n_buckets"], cfg["eta"], cfg["patch_type"], kind == "top")
    got = np.concatenate([cal, out])
    ctx.event("replayed_rows", int((~doubt).sum()))
    ctx.close(got[~doubt], want[~doubt], "replay_of_patches", atol=1e-4, rtol=1e-4)
    # determinism
    M2 = Method(kind, k, seed)
    out2, status2 = M2.calibrate(*args, n_rounds=rounds, **cfg)
    ctx.equal(np.asarray(out2), out, "deterministic")
    ctx.check(np.array_equal(status["losses"], status2["losses"], equal_nan=True), "deterministic_losses")
    # reported losses never increase, except for a last rejected round
    L = status["losses"]
    if cfg["split"] < 1:
        kept = L[: status["n_rounds"] + 1]
        ctx.check(all(b <= a + 1e-6 or b <= cfg["atol"] for a, b in zip(kept, kept[1:])), "recorded_losses_non_increasing", f"{L}")
        ctx.check(len(L) in (status["n_rounds"] + 1, status["n_rounds"] + 2), "one_loss_per_round", f"{len(L)} {status['n_rounds']}")
    ctx.close(M.loss(cal, s), ref_loss(kind, k, cal, s), "mean_squared_error", rtol=1e-3)


@suite.scenario(quick=12, thorough=150)
def error_never_increases_with_rounds(ctx):
    n = ctx.choice([50, 80])
    kind, k, g, v, s = gen(ctx, n)
    cfg = config(ctx)
    seed = ctx.integers(0, 3)
    ctx.event("kind:" + kind)
    ctx.event(cfg["patch_type"])
    ctx.note(kind=kind, n=n, seed=seed, **cfg)
    last, lastn = ref_loss(kind, k, v, s), 0
    start = last
    for rounds in (1, 2, 3, 5, 9):
        M = Method(kind, k, seed)
        st = M.calibrate(s, g, v, n_rounds=rounds, **cfg)
        if not len(M.m.patches):
            continue
        ctx.event("patches", len(M.m.patches))
        loss = ref_loss(kind, k, M.apply(g, v), s)
        ctx.check(loss <= last + 1e-5 + (cfg["atol"] if st["converged"] else 0), "calibration_loss_non_increasing", f"{last} -> {loss} after {rounds} rounds")
        ctx.check(st["n_rounds"] >= lastn, "longer_runs_extend_shorter_ones", f"{lastn} then {st['n_rounds']}")
        last, lastn = loss, st["n_rounds"]
    ctx.key(round(start, 4), round(last, 6))
    if last < start - 1e-3:
        ctx.event("improved")


def violations(kind, k, g, v, s, n, taus, min_prob):
    """largest sure and possible weighted squared calibration error over all cells"""
    y = onehot(kind, k, s)
    best = 0.0
    for tau in taus:
        for j in range(g.shape[1]):
            for b0 in np.linspace(0, 1, n):
                for c in range(k or 1):
                    col = v[:, c] if kind == "top" else v
                    yy = y[:, c] if kind == "top" else y
                    b, near = cell(col, b0, tau, n)
                    if (near & g[:, j]).any():
                        continue
                    b = b & g[:, j]
                    if kind == "top":
                        b &= v.argmax(1) == c
                    w = b.mean()
                    # min_prob is compared per group/bucket over every class: only keep clear cases
                    if not b.any() or w < min_prob * 1.001:
                        continue
                    best = max(best, w * (yy[b].mean() - col[b].mean()) ** 2)
    return best


@suite.scenario(quick=14, thorough=200)
def worst_cell_is_corrected(ctx):
    """every accepted round removes at least eta(2-eta) times the worst cell's weighted squared error"""
    n = ctx.choice([40, 70])
    kind, k, g, v, s = gen(ctx, n)
    nb = ctx.choice([4, 8])
    eta = float(ctx.choice([0.3, 1.0]))
    bt = ctx.choice([("<=", ">="), ("=",), ("=", "<=", ">=")])
    taus = [{"=": 0, ">=": 1, "<=": 2}[b] for b in bt]
    minp = float(ctx.choice([0.02, 0.1]))
    ctx.note(kind=kind, n=n, n_buckets=nb, eta=eta, bucket_types=bt, min_prob_b=minp)
    ctx.event("kind:" + kind)
    cur, d = v.astype(float), (k or 1)
    trace = []
    for rounds in (1, 2, 3, 4):
        M = Method(kind, k, 0)
        st = M.calibrate(s, g, v, n_rounds=rounds, n_buckets=nb, eta=eta, split=1.0, bucket_types=bt, min_prob_b=minp, atol=0.0, rtol=0.0)
        if st["n_rounds"] < rounds:
            break
        new = M.apply(g, v).astype(float)
        worst = violations(kind, k, g, cur, s, nb, taus, minp)
        drop = (ref_loss(kind, k, cur, s) - ref_loss(kind, k, new, s)) * d
        ctx.event("patches")
        ctx.check(drop >= eta * (2 - eta) * worst - 2e-5, "worst_cell_corrected", f"round {rounds}: loss fell {drop}, worst cell needs {eta * (2 - eta) * worst}")
        trace.append(round(drop, 6))
        cur = new
    ctx.key(tuple(trace))


@suite.scenario(quick=16, thorough=150)
def absolute_tolerance_is_attained(ctx):
    """identical calibration points: validation and calibration losses coincide, so the reported ones can be checked"""
    n = ctx.choice([20, 50])
    target, start = float(ctx.rng.uniform(0.05, 0.95)), float(ctx.rng.uniform(0.05, 0.95))
    eta = float(ctx.choice([0.1, 0.5, 1.0]))
    atol = float(ctx.choice([1e-4, 1e-3, 1e-2]))
    s, v = np.full(n, target, np.float32), np.full(n, start, np.float32)
    g = np.ones((n, ctx.integers(1, 2)), bool)
    bt = ctx.choice([("<=", ">="), (">=",), ("<=",)])
    ctx.note(n=n, target=target, start=start, eta=eta, atol=atol, bucket_types=bt)
    M = Method("generic", None, ctx.integers(0, 3))
    st = M.calibrate(s, g, v, eta=eta, atol=atol, bucket_types=bt, n_buckets=ctx.choice([5, 20]), n_rounds=200)
    ctx.close(st["losses"][0], (target - start) ** 2, "initial_loss_is_mean_squared_error", rtol=1e-3, atol=1e-6)
    cal = M.apply(g, v)
    loss = float(np.mean((cal.astype(float) - s) ** 2))
    ctx.key(st["n_rounds"], round(loss, 7))
    if st["converged"]:
        ctx.event("converged")
    if st["converged"] and st["losses"][-1] <= atol:
        ctx.check(loss <= atol * 1.001 + 1e-7, "converged_values_attain_tolerance", f"loss {loss} > atol {atol}")
    if st["n_rounds"]:
        ctx.close(loss, st["losses"][st["n_rounds"]], "reported_loss_is_attained", rtol=1e-2, atol=1e-6)
    ctx.check((target - start) ** 2 <= atol or st["converged"], "reachable_tolerance_converges", f"{st['n_rounds']} rounds, {st['losses'][-3:]}")


@suite.scenario(quick=24, thorough=400)
def calibration_error_definition(ctx):
    n = ctx.choice([5, 40, 90])
    kind, k, g, v, s = gen(ctx, n)
    nb = ctx.choice([2, 5, 10])
    ctx.note(kind=kind, n=n, n_buckets=nb)
    y = onehot(kind, k, s)
    want = np.zeros((g.shape[1], k or 1))
    near_any = False
    for j in range(g.shape[1]):
        for b0 in np.linspace(0, 1, nb):
            for c in range(k or 1):
                col, yy = (v[:, c], y[:, c]) if kind == "top" else (v, y)
                b, near = cell(col, b0, 0, nb)
                near_any |= bool((near & g[:, j]).any())
                b = b & g[:, j]
                if kind == "top":
                    b &= v.argmax(1) == c
                if b.any():
                    want[j, c] += b.mean() * (yy[b].mean() - col[b].astype(float).mean()) ** 2
        want[j] /= g[:, j].mean()
    if near_any:
        return
    got = Method(kind, k, 0).error(s, g, v, nb)
    ctx.event("kind:" + kind)
    ctx.key(got)
    ctx.close(got, want if kind == "top" else want[:, 0], "calibration_error", atol=1e-5, rtol=1e-3)


@suite.scenario(quick=10, thorough=40)
def bad_inputs_rejected(ctx):
    kind, k, g, v, s = gen(ctx, 30, "generic")
    M = Method(kind, k, 0)
    cases = {
        "eta_zero": dict(eta=0.0), "eta_above_one": dict(eta=1.5), "no_rounds": dict(n_rounds=0), "split_zero": dict(split=0.0),
        "unknown_bucket_type": dict(bucket_types=("~",)), "unknown_patch_type": dict(patch_type="x"), "bad_min_prob": dict(min_prob_b=2.0),
    }
    name = list(cases)[ctx.i % 7]
    ctx.note(case=name)
    ctx.key(name)
    ctx.raises(ValueError, lambda: M.calibrate(s, g, v, **cases[name]), name)
    ctx.raises(ValueError, lambda: M.calibrate(s, g, v + 1, n_rounds=1), "values_outside_unit_interval")
    ctx.raises(ValueError, lambda: M.calibrate(s + 2, g, v, n_rounds=1), "scores_outside_unit_interval")
    ctx.raises(ValueError, lambda: M.calibrate(s, g.astype(int), v, n_rounds=1), "groups_not_bool")
    ctx.raises(ValueError, lambda: M.calibrate(s, g, v, tg=g, n_rounds=1), "test_groups_without_test_values")


@suite.scenario(quick=12, thorough=150)
def earlier_calls_leave_no_trace(ctx):
    """a calibrator used before gives what a new one gives, also when the later call accepts no round"""
    n, t = ctx.choice([40, 90]), 5
    kind, k, groups, values, scores = gen(ctx, n + t)
    cfg, seed = config(ctx), ctx.integers(0, 3)
    first = dict(config(ctx), min_prob_b="auto", patch_type="additive", bucket_types=("<=", ">="))
    if ctx.rng.random() < 0.5:
        cfg.update(min_prob_b=1.0, bucket_types=("=",))
    rounds = ctx.choice([1, 4])
    g, tg, v, tv, s = groups[:n], groups[n:], values[:n], values[n:], scores[:n]
    ctx.event("kind:" + kind)
    ctx.event(cfg["patch_type"])
    ctx.note(kind=kind, n=n, rounds=rounds, first=first, **cfg)
    M, new = Method(kind, k, seed), Method(kind, k, seed)
    M.calibrate(s[::-1].copy(), g[::-1].copy(), v[::-1].copy(), n_rounds=6, **first)
    ctx.event("patches", len(M.m.patches))
    M.apply(tg, tv)
    M.error(s, g, v, 7)
    st, st2 = M.calibrate(s, g, v, n_rounds=rounds, **cfg), new.calibrate(s, g, v, n_rounds=rounds, **cfg)
    ctx.event("later_call_without_patches", int(len(new.m.patches) == 0))
    ctx.check(st["n_rounds"] == st2["n_rounds"] == len(M.m.patches), "rounds_of_reused_calibrator", f"{st['n_rounds']} {st2['n_rounds']} {len(M.m.patches)}")
    ctx.equal(M.apply(tg, tv), new.apply(tg, tv), "reused_calibrator")
    ctx.key(n, kind, rounds, st2["losses"])
