import numpy as np

from fortuna.conformal import OneShotMulticalibrator
from fortuna.conformal.multivalid.one_shot.classification.binary_multicalibrator import OneShotBinaryClassificationMulticalibrator
from fortuna.conformal.multivalid.one_shot.classification.top_label_multicalibrator import OneShotTopLabelMulticalibrator
from vf.core import Suite
from vf.props.c07 import gen, onehot
from vf.props.mv import EDGE

suite = Suite(
    "C08",
    rule="case = (method, calibration data, bucket count, test points); distinct = distinct calibrated vectors",
    assumptions=["points within 2e-6 of a bucket edge or half-way between bucket centres are not compared"],
    required={"calibrated-again": 25, "cell:averaged": 100, "cell:kept_centre": 10, "kind:generic": 5, "kind:binary": 5, "kind:top": 5},
)


def make(kind, k):
    return {"generic": OneShotMulticalibrator, "binary": OneShotBinaryClassificationMulticalibrator,
            "top": lambda: OneShotTopLabelMulticalibrator(n_classes=k)}[kind]()


def kw(kind, s, v, tv=None):
    d = dict(scores=s, values=v, test_values=tv) if kind == "generic" else dict(targets=s, probs=v, test_probs=tv)
    return {a: b for a, b in d.items() if b is not None}


def expect(ctx, kind, k, v, s, x, nb, minp):
    """expected calibrated value of every row of x (nan = do not compare)"""
    centres = np.linspace(0, 1, nb)
    y = onehot(kind, k, s)
    d = k or 1
    minp = 1 / (nb * d) if minp == "auto" else minp
    out = np.array(x, float)
    for i in range(len(x)):
        c = int(np.argmax(x[i])) if kind == "top" else 0
        u = float(x[i, c] if kind == "top" else x[i])
        if kind == "top" and np.sort(x[i])[-1] - np.sort(x[i])[-2] < EDGE:
            out[i] = np.nan
            continue
        dist = np.abs(centres - u)
        o = np.sort(dist)
        if len(o) > 1 and o[1] - o[0] < 1e-5:
            out[i] = np.nan
            continue
        b0 = centres[dist.argmin()]
        col = (v[:, c] if kind == "top" else v).astype(float)
        yy = y[:, c] if kind == "top" else y
        b = np.abs(col - b0) < 0.5 / nb
        near = np.abs(np.abs(col - b0) - 0.5 / nb) < EDGE
        if kind == "top":
            srt = np.sort(v, 1)
            near |= srt[:, -1] - srt[:, -2] < EDGE
            b &= v.argmax(1) == c
        if near.any() or abs(b.mean() - minp) < 1e-6:
            new = np.nan
        elif b.mean() > minp:
            new = yy[b].mean()
            ctx.event("cell:averaged")
        else:
            new = b0
            ctx.event("cell:kept_centre")
        if kind == "top":
            out[i, c] = new
        else:
            out[i] = new
    return out


@suite.scenario(quick=60, thorough=800)
def cells_are_averaged(ctx):
    n, t = ctx.choice([6, 50, 150]), ctx.choice([1, 5, 20])
    kind, k, _, values, scores = gen(ctx, n + t)
    v, tv, s = values[:n], values[n:].copy(), scores[:n].copy()
    if kind == "binary":
        s[:2] = [0, 1]
    if kind != "top" and ctx.rng.random() < 0.4:  # clustered test points: neighbours must not interfere
        tv = np.clip(tv[0] + 0.01 * ctx.rng.normal(size=t), 0, 1).astype(np.float32)
    if kind != "top" and ctx.rng.random() < 0.2:
        tv[0] = ctx.choice([0.0, 1.0])
    nb = ctx.choice([2, 5, 10, 40])
    minp = ctx.choice(["auto", 0.0, 0.05])
    ctx.event("kind:" + kind)
    ctx.note(kind=kind, n=n, t=t, n_buckets=nb, min_prob_b=minp, test=tv[:6])
    m = make(kind, k)
    if ctx.i % 2:  # an earlier calibration leaves no trace
        m.calibrate(**kw(kind, s[::-1].copy(), v, v[:2].copy()), n_buckets=ctx.choice([3, 7, 25]), min_prob_b=0.0)
        ctx.event("calibrated-again")
    a = [x.copy() for x in (s, v, tv)]
    out = np.asarray(m.calibrate(**kw(kind, *a), n_buckets=nb, min_prob_b=minp))
    ctx.check(all(np.array_equal(x, z) for x, z in zip(a, (s, v, tv))), "inputs_untouched")
    ctx.check(out.shape == tv.shape and np.all((out >= 0) & (out <= 1)), "stays_in_unit_interval", f"{out}", fatal=True)
    ctx.key(out, nb)
    ap = lambda x, mm=m: np.asarray(mm.apply_patches(**{"values" if kind == "generic" else "probs": x}))
    ctx.equal(ap(tv), out, "test_values_are_patched_values")
    want = expect(ctx, kind, k, v, s, tv, nb, minp)
    ok = ~np.isnan(want)
    ctx.close(out[ok], want[ok], "cell_average", atol=1e-5, rtol=1e-4)
    one = np.concatenate([ap(tv[i : i + 1]) for i in range(t)])
    ctx.close(one, out, "other_test_points_irrelevant", atol=1e-6)
    if kind == "top":
        c = tv.argmax(1)
        rest = np.arange(k)[None] != c[:, None]
        ctx.equal(out[rest], tv[rest], "only_top_label_recalibrated")
    p = ctx.rng.permutation(n)
    m2 = make(kind, k)
    ctx.close(m2.calibrate(**kw(kind, s[p], v[p], tv), n_buckets=nb, min_prob_b=minp), out, "calibration_order_irrelevant", atol=1e-5)


@suite.scenario(quick=6, thorough=30)
def misuse(ctx):
    kind, k, _, v, s = gen(ctx, 20)
    m = make(kind, k)
    ctx.key(kind, ctx.i)
    ctx.note(kind=kind)
    name = "values" if kind == "generic" else "probs"
    ctx.equal(np.asarray(m.apply_patches(**{name: v})), v, "no_patches_is_identity")
    ctx.raises(ValueError, lambda: m.calibrate(**kw(kind, s, v + 1)), "values_outside_unit_interval")
    ctx.raises(ValueError, lambda: m.calibrate(**kw(kind, s, None)), "values_required")
    ctx.raises(ValueError, lambda: m.calibrate(**kw(kind, s, v), min_prob_b=1.5), "bad_min_prob")
