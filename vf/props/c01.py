import numpy as np

from fortuna.conformal import (
    AdaptivePredictionConformalClassifier,
    CVPlusAdaptivePredictionConformalClassifier,
    CVPlusSimplePredictionConformalClassifier,
    SimplePredictionConformalClassifier,
)
from vf.core import Suite

suite = Suite(
    "C01",
    rule="case = (score, calibration sample, error, test points); distinct = distinct returned sets",
    assumptions=["float32 score ties within 2e-6 may be resolved either way"],
    required={"set:empty": 1, "set:full": 5, "set:partial": 20, "ragged": 5, "no-ties": 5},
)

SPLIT = {"simple": SimplePredictionConformalClassifier, "adaptive": AdaptivePredictionConformalClassifier}
CV = {"simple": CVPlusSimplePredictionConformalClassifier, "adaptive": CVPlusAdaptivePredictionConformalClassifier}


def gen_probs(ctx, n, k):
    kind = ctx.integers(0, 4)
    if kind == 0:
        p = ctx.rng.dirichlet(np.full(k, 0.3), n)
    elif kind == 1:
        p = ctx.rng.dirichlet(np.full(k, 5.0), n)
    elif kind == 2:  # one-hot-ish with exact zeros
        p = np.eye(k)[ctx.rng.integers(k, size=n)]
        p = np.where(ctx.rng.random((n, 1)) < 0.5, p, ctx.rng.dirichlet(np.ones(k), n))
    elif kind == 3:  # many ties
        p = ctx.rng.integers(1, 4, size=(n, k)).astype(float)
        p /= p.sum(1, keepdims=True)
    else:
        z = ctx.rng.normal(size=(n, k)) * 4
        p = np.exp(z - z.max(1, keepdims=True))
        p /= p.sum(1, keepdims=True)
    return p.astype(np.float32)


def gen_targets(ctx, p):
    if ctx.rng.random() < 0.7:
        q = p.astype(float) + 1e-9
        q /= q.sum(1, keepdims=True)
        return np.array([ctx.rng.choice(p.shape[1], p=r) for r in q])
    return ctx.rng.integers(p.shape[1], size=len(p))


def gen_error(ctx):
    return float(ctx.choice([0.05, 0.1, 0.2, 0.5, 0.9, 0.02, round(float(ctx.rng.uniform(0.01, 0.99)), 3)]))


def scores(kind, p):
    """(n, k) scores, float64 reference"""
    p = p.astype(np.float64)
    if kind == "simple":
        return 1 - p
    # adaptive: mass of all classes at least as probable, own class included
    out = np.zeros_like(p)
    for i, r in enumerate(p):
        o = np.argsort(r)[::-1]
        out[i, o] = np.cumsum(r[o])
    return out


def adaptive_range(p):
    """lowest and highest score compatible with any tie-breaking"""
    p = p.astype(np.float64)
    lo = np.zeros_like(p)
    hi = np.zeros_like(p)
    for i, r in enumerate(p):
        for j in range(len(r)):
            more = r[r > r[j] + 1e-9].sum()
            lo[i, j] = more + r[j]
            hi[i, j] = r[r >= r[j] - 1e-9].sum()
    return lo, hi


def score_range(kind, p, t=None):
    if kind == "simple":
        lo = hi = scores(kind, p)
    else:
        lo, hi = adaptive_range(p)
    if t is not None:
        i = np.arange(len(p))
        lo, hi = lo[i, t], hi[i, t]
    return lo, hi


def observe_sets(ctx, sets, n, k):
    ctx.check(isinstance(sets, list) and len(sets) == n, "one_set_per_point", f"{len(sets)} sets for {n} points", fatal=True)
    out = []
    for s in sets:
        ok = all(float(c) == int(c) and 0 <= c < k for c in s) and len(set(s)) == len(s)
        ctx.check(ok, "sets_are_class_subsets", f"{s}")
        out.append(frozenset(int(c) for c in s))
        ctx.event("set:empty" if not s else "set:full" if len(s) == k else "set:partial")
    if len({len(s) for s in out}) > 1:
        ctx.event("ragged")
    return out


def thr_counts(kind, vp, vt, tp):
    vlo, vhi = score_range(kind, vp, vt)
    tlo, thi = score_range(kind, tp)
    tol = 2e-6
    least = (vhi[:, None, None] < tlo[None] - tol).sum(0)  # surely strictly below
    most = (vlo[:, None, None] < thi[None] + tol).sum(0)
    return least, most


@suite.scenario(quick=120, thorough=3000)
def sets_against_definition(ctx):
    kind = ctx.choice(["simple", "adaptive"])
    k, n, t = ctx.choice([2, 3, 5, 7]), ctx.choice([1, 2, 3, 6, 15, 40]), ctx.choice([1, 2, 6])
    vp, tp = gen_probs(ctx, n, k), gen_probs(ctx, t, k)
    vt, err = gen_targets(ctx, vp), gen_error(ctx)
    ctx.note(kind=kind, k=k, n=n, t=t, error=err, val_probs=vp[:4], val_targets=vt, test_probs=tp[:4])
    c = SPLIT[kind]()
    args = (vp.copy(), vt.copy(), tp.copy())
    sets = observe_sets(ctx, c.conformal_set(*args, err), t, k)
    ctx.check(np.array_equal(args[0], vp) and np.array_equal(args[1], vt) and np.array_equal(args[2], tp), "inputs_untouched")
    ctx.key(sets and tuple(map(tuple, map(sorted, sets))), n, k)
    # exact membership rule, up to ties
    least, most = thr_counts(kind, vp, vt, tp)
    thr = (1 - err) * (n + 1)
    for i in range(t):
        for j in range(k):
            if most[i, j] < thr - 1e-4:
                ctx.check(j in sets[i], "covered_class_kept", f"point {i} class {j} should be in {sorted(sets[i])}")
            elif least[i, j] >= thr + 1e-4:
                ctx.check(j not in sets[i], "implausible_class_dropped", f"point {i} class {j} should not be in {sorted(sets[i])}")
        for a in sets[i]:
            for b in range(k):
                if tp[i, b] > tp[i, a] + 1e-5:
                    ctx.check(b in sets[i], "more_probable_class_kept",
                              f"class {a} (p={tp[i, a]}) kept but {b} (p={tp[i, b]}) dropped")
    # nesting
    for e2 in (err / 2, err * 0.9, 0.005):
        big = observe_sets(ctx, c.conformal_set(vp, vt, tp, e2), t, k)
        ctx.check(all(s <= b for s, b in zip(sets, big)), "nested_in_error", f"{err}->{e2}: {sets} vs {big}")
    # invariances
    perm = ctx.rng.permutation(n)
    ctx.check(observe_sets(ctx, c.conformal_set(vp[perm], vt[perm], tp, err), t, k) == sets, "calibration_order_irrelevant")
    one = [observe_sets(ctx, c.conformal_set(vp, vt, tp[i : i + 1], err), 1, k)[0] for i in range(t)]
    ctx.check(one == sets, "other_test_points_irrelevant", f"{one} vs {sets}")
    # membership
    vals = ctx.rng.integers(k, size=t)
    isin = np.asarray(c.is_in(vals, [sorted(s) for s in sets]))
    ctx.equal(isin.astype(bool), np.array([int(v) in s for v, s in zip(vals, sets)]), "is_in_exact")
    # scores
    vs, ts = c.get_scores(vp, vt, tp)
    lo, hi = score_range(kind, vp, vt)
    ctx.check(np.all(np.asarray(vs) >= lo - 1e-5) and np.all(np.asarray(vs) <= hi + 1e-5), "calibration_scores")
    lo, hi = score_range(kind, tp)
    ts = np.asarray(ts)
    ctx.check(ts.shape == (t, k) and np.all(ts >= lo - 1e-5) and np.all(ts <= hi + 1e-5), "test_scores")


@suite.scenario(quick=40, thorough=800)
def rotation_coverage(ctx):
    kind = ctx.choice(["simple", "adaptive"])
    k, n = ctx.choice([2, 3, 6]), ctx.choice([2, 3, 7, 12, 25])
    p = gen_probs(ctx, n + 1, k)
    y, err = gen_targets(ctx, p), gen_error(ctx)
    if ctx.rng.random() < 0.3:  # adversarial: always the least probable class
        y = p.argmin(1)
    ctx.note(kind=kind, n=n, k=k, error=err, probs=p[:4], targets=y)
    c = SPLIT[kind]()
    hits = 0
    for i in range(n + 1):
        m = np.arange(n + 1) != i
        s = observe_sets(ctx, c.conformal_set(p[m], y[m], p[i : i + 1], err), 1, k)[0]
        hits += int(y[i]) in s
    need = int(np.ceil((1 - err) * (n + 1) - 1e-4))
    ctx.key(hits, n, err)
    ctx.check(hits >= need, "rotation_coverage", f"{hits}/{n + 1} rotations covered, need {need} at error {err}")
    lo, hi = score_range(kind, p, y)
    if np.diff(np.sort(lo)).min() > 1e-5 and np.abs(hi - lo).max() < 1e-8:  # no ties: exactly the rotations needed
        exact = float(err).hex() in ((0.5).hex(), (0.25).hex())  # (1 - error) (n + 1) has no rounding
        most = need if exact else int(np.floor((1 - err) * (n + 1) + 1e-4)) + 1
        ctx.check(hits <= most, "rotation_coverage_wasteful", f"{hits}/{n + 1} rotations covered, {most} suffice at error {err}")
        ctx.event("no-ties")


@suite.scenario(quick=30, thorough=600)
def folds_are_pooled(ctx):
    kind = ctx.choice(["simple", "adaptive"])
    k, K = ctx.integers(2, 5), ctx.integers(1, 4)
    sizes = [ctx.integers(1, 12) for _ in range(K)]
    t = ctx.integers(1, 5)
    vp = [gen_probs(ctx, s, k) for s in sizes]
    vt = [gen_targets(ctx, p) for p in vp]
    tp = [gen_probs(ctx, t, k) for _ in sizes]
    err = gen_error(ctx)
    ctx.note(kind=kind, sizes=sizes, k=k, t=t, error=err)
    lens = (len(vp), len(vt), len(tp))
    cv = observe_sets(ctx, CV[kind]().conformal_set(vp, vt, tp, err), K * t, k)
    ctx.check(lens == (len(vp), len(vt), len(tp)), "inputs_untouched")
    sp = observe_sets(ctx, SPLIT[kind]().conformal_set(np.concatenate(vp), np.concatenate(vt), np.concatenate(tp), err), K * t, k)
    ctx.key(tuple(map(tuple, map(sorted, cv))))
    ctx.check(cv == sp, "fold_partition_irrelevant", f"{cv} vs {sp}")
