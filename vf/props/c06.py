import numpy as np

from fortuna.conformal import MaxCoverageFixedPrecisionBinaryClassificationCalibrator as Cal
from vf.core import Suite

suite = Suite(
    "C06",
    rule="case = (probabilities, targets, thresholds, margin, grid); distinct = distinct calibrated probability vectors",
    assumptions=["candidates whose precision or membership is decided within float32 rounding are not compared"],
    required={"calibrated-again": 50, "feasible_pos": 10, "infeasible_pos": 3, "feasible_neg": 10, "infeasible_neg": 3, "tau_changed": 10},
)
TOL = 2e-6


def gen(ctx, n):
    kind = ctx.integers(0, 3)
    if kind == 0:
        p = ctx.rng.random(n)
    elif kind == 1:
        p = ctx.rng.beta(0.4, 0.4, n)
    elif kind == 2:
        p = np.round(ctx.rng.random(n), 1) + 0.003  # heavy ties
        p = np.clip(p, 0, 1)
    else:
        p = ctx.rng.choice([0.0, 0.5, 1.0, 0.49, 0.51, 0.75], size=n)
    sharp = float(ctx.choice([0.3, 1.0, 4.0]))  # over- or under-confident model
    logit = np.log(np.clip(p, 1e-6, 1 - 1e-6) / np.clip(1 - p, 1e-6, 1))
    y = (ctx.rng.random(n) < 1 / (1 + np.exp(-sharp * logit))).astype(np.int32)
    return p.astype(np.float32), y


def pos(p, y, tau, thr):
    q = np.where(p > 0.5, np.minimum(1, tau * p.astype(float)), p)
    return q >= thr, np.abs(q - thr) < TOL


def neg(p, y, tau, thr):
    q = np.where(p < 0.5, tau * p.astype(float), p)
    return q <= 1 - thr, np.abs(q - (1 - thr)) < TOL


def scan(side, p, y, taus, thr, margin):
    """(coverage, feasible, doubtful) of every candidate"""
    out = []
    for tau in taus:
        b, near = (pos if side == "pos" else neg)(p, y, tau, thr)
        t = y if side == "pos" else 1 - y
        cov = b.mean()
        prec = t[b].mean() if b.any() else np.nan
        ok = b.any() and prec >= thr + margin
        doubt = near.any() or (b.any() and abs(prec - thr - margin) < TOL)
        out.append((cov, ok, doubt))
    return out


@suite.scenario(quick=120, thorough=2500)
def calibration(ctx):
    n = ctx.choice([1, 2, 7, 30, 120, 400])
    p, y = gen(ctx, n)
    tp, tn = (float(ctx.choice([0.51, 0.6, 0.75, 0.9, 0.97])) for _ in range(2))
    margin = float(ctx.choice([0.0, 0.0, 0.02, 0.1]))
    n_taus = ctx.choice([2, 10, 100])
    test, _ = gen(ctx, ctx.choice([1, 5, 40]))
    ctx.note(n=n, tp=tp, tn=tn, margin=margin, n_taus=n_taus, probs=p[:8], targets=y[:8])
    c = Cal()
    if ctx.i % 2:  # an earlier calibration leaves no trace
        q, z = gen(ctx, ctx.choice([7, 30]))
        c.calibrate(z, q, test_probs=q[:3].copy(), true_positive_precision_threshold=0.95, true_negative_precision_threshold=0.8, n_taus=7, margin=0.0)
        ctx.event("calibrated-again")
    pi, yi = p.copy(), y.copy()
    kw = dict(true_positive_precision_threshold=tp, true_negative_precision_threshold=tn, margin=margin, n_taus=n_taus)
    out = c.calibrate(yi, pi, test_probs=test.copy(), **kw)
    ctx.check(np.array_equal(pi, p) and np.array_equal(yi, y), "inputs_untouched")
    ctx.equal(np.asarray(out), np.asarray(c.apply_patches(test)), "test_values_are_patched_values")
    for q0 in (p, test):
        q = np.asarray(c.apply_patches(q0.copy()))
        ctx.check(q.shape == q0.shape and np.all((q >= 0) & (q <= 1)), "stays_in_unit_interval", f"{q}")
        ctx.check(np.all(q[q0 > 0.5] >= q0[q0 > 0.5] - TOL) and np.all(q[q0 < 0.5] <= q0[q0 < 0.5] + TOL), "never_crosses_one_half", f"{q0} {q}")
        ctx.equal(q[q0 == 0.5], q0[q0 == 0.5], "one_half_fixed")
        o = np.argsort(q0, kind="stable")
        ctx.check(np.all(np.diff(q[o]) >= -TOL), "ranking_preserved")
    q = np.asarray(c.apply_patches(p))
    ctx.key(q, n)
    if np.abs(q - p).max() > 1e-3:
        ctx.event("tau_changed")
    grids = dict(pos=np.linspace(1, 2 * tp, n_taus).astype(np.float32), neg=np.linspace(2 * (1 - tn), 1, n_taus).astype(np.float32))
    for side, thr in (("pos", tp), ("neg", tn)):
        cand = scan(side, p, y, grids[side], thr, margin)
        feas = [cv for cv, ok, d in cand if ok and not d]
        b, near = (q >= thr, np.abs(q - thr)) if side == "pos" else (q <= 1 - thr, np.abs(q - (1 - thr)))
        prec = (y if side == "pos" else 1 - y)[b].mean() if b.any() else np.nan
        doubtful = any(d for _, ok, d in cand) or near.min() < TOL
        if feas:
            ctx.event("feasible_" + side)
            if not doubtful:
                ctx.check(b.any() and prec >= thr + margin - TOL, f"{side}_precision_met", f"precision {prec} < {thr}+{margin}")
                ctx.check(b.mean() >= max(feas) - TOL, f"{side}_coverage_maximal", f"coverage {b.mean()} < attainable {max(feas)}")
        elif not any(ok or d for _, ok, d in cand):
            ctx.event("infeasible_" + side)
            sel = p > 0.5 if side == "pos" else p < 0.5
            ctx.close(q[sel], p[sel], f"{side}_infeasible_leaves_scores", atol=TOL)
        # the reported metrics
        if near.min() > TOL and b.any():
            f = getattr(c, "true_positive_precision" if side == "pos" else "true_negative_precision")
            g = getattr(c, "true_positive_coverage" if side == "pos" else "true_negative_coverage")
            ctx.close(f(q, y, thr), prec, f"{side}_precision_metric", atol=1e-5)
            ctx.close(g(q, thr), b.mean(), f"{side}_coverage_metric", atol=1e-5)
    perm = ctx.rng.permutation(n)
    c2 = Cal()
    c2.calibrate(y[perm], p[perm], **kw)
    if not any(d for s, t in (("pos", tp), ("neg", tn)) for _, _, d in scan(s, p, y, grids[s], t, margin)):
        ctx.close(c2.apply_patches(test), out, "order_of_examples_irrelevant", atol=TOL)


@suite.scenario(quick=4, thorough=20)
def misuse(ctx):
    p, y = gen(ctx, 10)
    bad = ctx.choice([0.5, 0.3, 0.0])
    ctx.key(bad, ctx.i)
    ctx.note(threshold=bad)
    ctx.raises(ValueError, lambda: Cal().calibrate(y, p, bad, 0.8), "positive_threshold_must_exceed_half")
    ctx.raises(ValueError, lambda: Cal().calibrate(y, p, 0.8, bad), "negative_threshold_must_exceed_half")
    ctx.equal(np.asarray(Cal().apply_patches(p)), p, "no_patches_is_identity")
