import math

import jax
import jax.numpy as jnp
import numpy as np
import optax

from vf.core import Suite
from vf.props import trainrig as T

suite = Suite(
    "C23",
    rule="case = (model, data, epochs, validation period, metrics, callbacks, early stopping settings, metric trajectory); "
         "distinct = distinct event traces and histories",
    assumptions=["float32 arithmetic", "monitored metrics are to be minimised (there is no setting for the other direction)"],
    required={**{"approx:" + m: 1 for m in ("map", "advi", "swag", "ensemble", "sghmc", "cyclical", "sngp")}, "validated": 3, "stopped-early": 3, "ran-to-the-end": 3,
              "every-stop": 6, "every-validated": 7},
)


def bias(preds, targets):
    return jnp.mean(preds) - jnp.mean(targets)


def spread(preds, targets):
    return jnp.mean((preds - targets) ** 2)


@suite.scenario(quick=18, thorough=300)
def schedule(ctx):
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    pm = T.shared(kind, dim)
    bs, nb, epochs = ctx.choice([2, 4]), ctx.choice([1, 2, 3]), ctx.choice([1, 2, 4, 5])
    ragged = nb > 1 and ctx.rng.random() < 0.3
    n = bs * nb - (1 if ragged else 0)
    x, y = T.data(ctx, kind, dim, n)
    with_val = ctx.rng.random() < 0.7
    vn, vbs = ctx.choice([3, 4, 6]), ctx.choice([2, 3, 6])
    xv, yv = T.data(ctx, kind, dim, vn)
    every = ctx.choice([1, 1, 2, 3, 0, None])
    metrics = ctx.choice([None, (), (bias,), (spread, bias)])
    off = ctx.rng.random() < 0.3
    a, b = T.Recorder(), T.Recorder()
    trace = []
    for name, r in (("a", a), ("b", b)):
        r._add = (lambda orig, name: lambda e, s: (trace.append((name, e)), orig(e, s))[1])(r._add, name)
    cfg = T.config(optax.sgd(1e-2), epochs, callbacks=[a, b],
                   monitor=dict(metrics=metrics, eval_every_n_epochs=every, disable_training_metrics_computation=off,
                                verbose=ctx.rng.random() < 0.3),
                   disable_jit=ctx.rng.random() < 0.2)
    ctx.note(kind=kind, n=n, batch_size=bs, epochs=epochs, validation=with_val and [vn, vbs], eval_every=every,
             metrics=[m.__name__ for m in metrics or ()], training_metrics_off=off)
    val = T.loader((xv, yv), vbs) if with_val else None
    st = pm.train(T.loader((x, y), bs), val_data_loader=val, fit_config=cfg)["fit_status"]

    # the events, exactly
    one = ["start"] + ["step"] * nb + ["end"]
    want = [(c, e) for _ in range(epochs) for e in one for c in "ab"]
    ctx.check(trace == want, "event-trace", f"{trace[:20]} vs {want[:20]}", fatal=True)
    ctx.check([t for e, t, _ in a.log if e == "step"] == list(range(1, epochs * nb + 1)), "step-counter")
    # the history
    names = [m.__name__ for m in metrics or ()]
    evals = [e for e in range(epochs) if with_val and every and e % every == 0]
    keys = {"loss"} | (set() if off else set(names)) | ({"val_loss"} | {"val_" + m for m in names} if evals else set())
    ctx.check(set(st) == keys, "history-keys", f"{set(st)} vs {keys}", fatal=True)
    for k in st:
        ctx.check(np.shape(st[k]) == ((len(evals) if k.startswith("val_") else epochs),), "history-length",
                  f"{k}: {np.shape(st[k])}")
    if evals:
        ctx.event("validated")
    ref = T.reference_loss(pm, kind)

    mm = pm.joint.likelihood.model_manager

    def pred(p, xx):
        o = np.asarray(mm.model.apply(p["model"], xx))
        return o.argmax(-1) if kind == "cls" else o

    fns = dict(bias=lambda p, t: p.mean() - t.mean(), spread=lambda p, t: ((p - t) ** 2).mean())
    before, i, ends = None, 0, []
    hist = {k: [] for k in keys}
    for ev, _, p in a.log:
        if ev == "start":
            before, i, cur = p, 0, {k: [] for k in ["loss"] + names}
        elif ev == "step":
            sl = slice(i * bs, (i + 1) * bs)
            cur["loss"].append(float(ref(before, x[sl], y[sl], float(n))[0]))
            for m in names:
                cur[m].append(fns[m](pred(before, x[sl]), y[sl]))
            before, i = p, i + 1
        else:
            ends.append(p)
            ctx.check(T.same_tree(p, before), "epoch-end-state")
            for k in cur:
                if k in hist:
                    hist[k].append(np.mean(cur[k]))
            if len(ends) - 1 in evals:
                sls = [slice(j, j + vbs) for j in range(0, vn, vbs)]
                hist["val_loss"].append(np.mean([ref(p, xv[s], yv[s], float(vn))[0] for s in sls]))
                for m in names:
                    hist["val_" + m].append(np.mean([fns[m](pred(p, xv[s]), yv[s]) for s in sls]))
    for k in hist:
        ctx.close(st[k], np.asarray(hist[k], float), "history-value", rtol=1e-3, atol=1e-3, msg=k)
    ctx.check(T.same_tree(pm.posterior.sample().params, ends[-1]), "returned-parameters-are-the-last")
    ctx.key(*[np.asarray(st[k]) for k in sorted(st)])


@suite.scenario(quick=25, thorough=600)
def early_stopping(ctx):
    pm = T.shared("cls", 2)
    epochs = ctx.choice([3, 6, 10])
    script = list(np.round(np.float32(ctx.rng.choice(
        [ctx.rng.normal(), 0.0, 0.5, 1.0, 0.9, 0.3, -1.0], size=epochs)), 2))
    if ctx.rng.random() < 0.4:  # plateaus and slow improvements
        script = list(np.float32(1.0 - np.cumsum(ctx.rng.choice([0.0, 0.05, 0.3], size=epochs))))
    if ctx.rng.random() < 0.15:
        script[ctx.integers(1, epochs - 1)] = np.float32("nan")
    patience = ctx.choice([0, 1, 1, 2, 3, None, 5])
    delta = float(ctx.choice([0.0, 0.0, 0.1, 0.25]))
    every = ctx.choice([1, 1, 2])
    calls = []

    def scripted(preds, targets):
        v = script[len(calls)]
        calls.append(v)
        return jnp.asarray(v)
    rec = T.Recorder()
    cfg = T.config(optax.sgd(1e-2), epochs, callbacks=[rec], disable_jit=True,
                   monitor=dict(metrics=(scripted,), early_stopping_patience=patience, early_stopping_min_delta=delta,
                                early_stopping_monitor="val_scripted", eval_every_n_epochs=every,
                                disable_training_metrics_computation=True))
    ctx.note(epochs=epochs, script=script, patience=patience, min_delta=delta, eval_every=every)
    x, y = T.data(ctx, "cls", 2, 4)
    st = pm.train(T.loader((x, y), 4), val_data_loader=T.loader((x, y), 4), fit_config=cfg)["fit_status"]
    best, bad, ran, seen = math.inf, 0, 0, []
    for e in range(epochs):
        ran += 1
        if e % every == 0:
            v = float(script[len(seen)])
            seen.append(v)
            if math.isinf(best) or float(np.float32(best) - np.float32(v)) > delta:
                best, bad = v, 0
            else:
                bad += 1
            if patience and bad > patience:  # `patience` evaluations without an improvement are tolerated
                break
    got = sum(e == "end" for e, _, _ in rec.log)
    ctx.check(got == ran, "epochs-run", f"ran {got} epochs, want {ran}", fatal=True)
    ctx.check(np.array_equal(np.asarray(st["val_scripted"]), np.asarray(seen, "float32"), equal_nan=True), "history")
    ctx.check(len(st["loss"]) == ran, "history-length")
    ctx.event("stopped-early" if ran < epochs else "ran-to-the-end")
    ctx.check(T.same_tree(pm.posterior.sample().params, rec.log[-1][2]), "returned-parameters-are-the-last")
    ctx.key(str(script), str(patience), ran)


@suite.scenario(quick=6, thorough=60)
def continued(ctx):
    """training on from the current state is training for the sum of the epochs when the optimizer keeps no memory"""
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    pm = T.shared(kind, dim)
    nb, e1, e2 = ctx.choice([1, 3]), ctx.choice([1, 2]), ctx.choice([1, 3])
    x, y = T.data(ctx, kind, dim, 2 * nb)
    l = T.loader((x, y), 2)
    r1, r2 = T.Recorder(), T.Recorder()
    pm.train(l, fit_config=T.config(optax.sgd(1e-2), e1, callbacks=[r1]))
    a = pm.posterior.sample().params
    pm.train(l, fit_config=T.config(optax.sgd(1e-2), e2, callbacks=[r2], start_from_current_state=True))
    ctx.check(T.same_tree(r2.log[0][2], a), "starts-from-current")
    ctx.check([t for e, t, _ in r2.log if e == "step"] == list(range(e1 * nb + 1, (e1 + e2) * nb + 1)), "step-counter-continues")
    ref, q = T.reference_loss(pm, kind), jax.tree_util.tree_map(jnp.asarray, r1.log[0][2])
    for t in range((e1 + e2) * nb):
        s = slice(t % nb * 2, t % nb * 2 + 2)
        g = ref(q, x[s], y[s], float(2 * nb))[1]
        q = jax.tree_util.tree_map(lambda p, d: p - 1e-2 * d, q, g)
    got, want = T.flat_dict(pm.posterior.sample().params), T.flat_dict(q)
    for k in want:
        ctx.close(got[k], want[k], "continued-equals-uninterrupted", rtol=2e-3, atol=2e-4)
    ctx.key(*got.values())


@suite.scenario(quick=10, thorough=84)
def every_approximation(ctx):
    """the same schedule whatever is fitted: every callback at every step and epoch, one history entry per epoch and evaluation"""
    from vf.props import c19 as S
    methods = ["map", "advi", "swag", "ensemble", "sghmc", "cyclical", "sngp"]
    method = methods[ctx.i % len(methods)]
    bs, nb, epochs = 4, ctx.choice([1, 2]), ctx.choice([4, 5])
    n = bs * nb
    x, y = T.data(ctx, "cls", 2, n)
    val = T.loader(T.data(ctx, "cls", 2, 6), 3) if ctx.i // 7 % 3 != 1 else None
    every = ctx.choice([1, 2])
    trace = []

    class Named(T.Recorder):
        def __init__(self, name):
            super().__init__()
            self.name = name

        def _add(self, e, s):
            trace.append((self.name, e))
            return s

    pm = S.build(method, "cls", ctx.integers(0, 100))
    kw = dict(map_fit_config=T.config(n_epochs=2, callbacks=[Named("m")])) if method == "swag" else {}
    ctx.note(method=method, batches=nb, epochs=epochs, every=every, val=val is not None)
    ctx.event("approx:" + method)
    st = pm.train(T.loader((x, y), bs), val_data_loader=val, fit_config=T.config(
        None if method in ("sghmc", "cyclical") else optax.sgd(1e-3), epochs, callbacks=[Named("a"), Named("b")],
        monitor=dict(eval_every_n_epochs=every, disable_training_metrics_computation=True)), **kw)["fit_status"]
    one = ["start"] + ["step"] * nb + ["end"]
    runs = 2 if method == "ensemble" else 1
    want = [("m", e) for _ in range(2) for e in one] if kw else []
    want += [(c, e) for _ in range(epochs * runs) for e in one for c in "ab"]
    ctx.check(trace == want, "event-trace", f"{method}: {trace[:12]} ({len(trace)}) vs {want[:12]} ({len(want)})")
    found = [s for s in (st if isinstance(st, list) else [st.get(method, st)])]
    ctx.check(len(found) == runs, "one-history-per-run")
    evals = len([e for e in range(epochs) if e % every == 0]) if val is not None else 0
    if evals:
        ctx.event("every-validated")
    for s in found:
        ctx.check(np.shape(s["loss"]) == (epochs,) and np.all(np.isfinite(np.asarray(s["loss"], float))), "history-length", f"{method} {np.shape(s['loss'])}")
        ctx.check(np.shape(s.get("val_loss", ())) == ((evals,) if evals else (0,)), "history-length", f"{method} val {np.shape(s.get('val_loss', ()))}, {evals}")
    ctx.key(method, nb, epochs, *[np.asarray(s["loss"], float) for s in found])


@suite.scenario(quick=6, thorough=60)
def early_stopping_everywhere(ctx):
    """every run of every approximation that can stop early stops by the configured metric, margin, patience and period"""
    from vf.props import c19 as S
    method = ["map", "advi", "ensemble", "sghmc", "cyclical", "sngp"][ctx.i % 6]
    runs = 2 if method == "ensemble" else 1
    epochs, every = 8, 1 + ctx.i // 6 % 2
    patience = 1 if every == 2 else ctx.choice([1, 2])
    # without the margin all scripts improve at every evaluation; with it, after the first evaluation (or two), never again
    delta = 0.5
    jumps = [1] + [ctx.choice([0, 1]) for _ in range(runs - 1)]
    scripts = [[np.float32(10 - (1.0 if 0 < e <= j else 0.0) * e - (j if e > j else 0.0) - 0.01 * e) for e in range(epochs)] for j in jumps]
    stops = [1 + every * (j + patience + 1) for j in jumps]
    member, count = [0], [0]

    class Start(T.Recorder):
        ran = []

        def _add(self, e, s):
            if e == "start" and int(np.ravel(s.step)[0]) == 0:
                self.ran = self.ran + [0]
                member[0], count[0] = len(self.ran) - 1, 0
            if e == "end":
                self.ran[-1] += 1
            return s

    def scripted(preds, targets):
        v = scripts[member[0]][count[0]]
        count[0] += 1
        return jnp.asarray(v)

    def falling(preds, targets):
        return jnp.asarray(np.float32(-count[0]))
    rec = Start()
    x, y = T.data(ctx, "cls", 2, 4)
    pm = S.build(method, "cls", ctx.integers(0, 100))
    ctx.note(method=method, every=every, patience=patience, jumps=jumps)
    st = pm.train(T.loader((x, y), 4), val_data_loader=T.loader((x, y), 4), fit_config=T.config(
        None if method in ("sghmc", "cyclical") else optax.sgd(1e-3), epochs, callbacks=[rec], disable_jit=True,
        monitor=dict(metrics=(scripted, falling), early_stopping_patience=patience, early_stopping_min_delta=delta, early_stopping_monitor="val_scripted",
                     eval_every_n_epochs=every, disable_training_metrics_computation=True)))["fit_status"]
    want = [min(s, epochs) for s in stops]
    ctx.check(rec.ran == want, "epochs-run", f"{method}: {rec.ran} epochs, want {want}", fatal=True)
    found = st if isinstance(st, list) else [st.get(method, st)]
    for s, w, script in zip(found, want, scripts):
        ctx.check(len(s["loss"]) == w, "history-length", f"{method}: {len(s['loss'])}, want {w}")
        ctx.close(s["val_scripted"], np.asarray(script[:len([e for e in range(w) if e % every == 0])]), "history", method)
    ctx.event("every-stop")
    ctx.key(method, every, patience, str(jumps))
