import os

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.calib_model import CalibClassifier, CalibRegressor, Config as CConfig, Monitor as CMonitor, Optimizer as COptimizer, Processor as CProcessor
from fortuna.model.mlp import MLP
from fortuna.prob_model import MAPPosteriorApproximator
from fortuna.utils.freeze import freeze_optimizer
from vf.core import Suite
from vf.props import c19 as S
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C21",
    rule="case = (approximation, model kind, rule saying what is frozen, optimizer, schedule) trained from a known start; distinct = distinct trained parameters",
    assumptions=["optimizers from optax, including ones that move parameters without a gradient (weight decay)"],
    required={**{"kind:" + k: 1 for k in ("map", "advi", "laplace", "swag", "ensemble", "sghmc", "cyclical", "sngp")},
              "frozen-leaf": 60, "trainable-leaf": 60, "sample": 30, "all-trainable": 4, "invalid": 4, "calib-model": 3, "mutable": 2, "optimizer": 10},
)


def rules(ctx, with_lik):
    """name, rule(path) -> trainable?"""
    some = {
        "head": lambda p: "output_subnet" in p,
        "body": lambda p: "dfe_subnet" in p,
        "bias": lambda p: p[-1] == "bias",
        "kernel": lambda p: p[-1] == "kernel",
        "one-leaf": lambda p: "output_subnet" in p and p[-1] == "bias" and p[0] == "model",
        "all-but-one": lambda p: not ("output_subnet" in p and p[-1] == "kernel" and p[0] == "model"),
    }
    if with_lik:
        some["mean-model"] = lambda p: p[0] == "model"
        some["noise-model"] = lambda p: p[0] == "lik_log_var"
    k = ctx.choice(sorted(some))
    return k, some[k]


def fun(rule):
    return lambda path, v: "trainable" if rule(tuple(path)) else "frozen"


def optimizer(ctx):
    k = ctx.choice(["sgd", "momentum", "adam", "adamw", "rmsprop", "chain"])
    return k, {"sgd": lambda: optax.sgd(0.05), "momentum": lambda: optax.sgd(0.02, momentum=0.9), "adam": lambda: optax.adam(1e-2),
               "adamw": lambda: optax.adamw(1e-2, weight_decay=0.1), "rmsprop": lambda: optax.rmsprop(1e-2),
               "chain": lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.add_decayed_weights(0.1), optax.sgd(0.05))}[k]()


def paths_of(pm, x, seed):
    return T.flat_dict(pm.posterior.sample(rng=jax.random.PRNGKey(seed), inputs=x).params)


@suite.scenario(quick=14, thorough=200)
def frozen_stays_and_the_rest_moves(ctx):
    methods = list(S.METHODS)[:-1]
    method = methods[ctx.i % len(methods)]
    kind = ctx.choice(["cls", "reg"])
    name, rule = rules(ctx, kind == "reg")
    oname, opt = optimizer(ctx)
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 12)
    bs = ctx.choice([4, 6])
    seed = ctx.integers(0, 1000)
    sg = method in ("sghmc", "cyclical")
    hyper = dict(accumulation=ctx.choice([None, None, 2]), max_grad_norm=ctx.choice([None, 0.5])) if method == "map" else {}
    ctx.note(method=method, kind=kind, freeze=name, optimizer=oname, batch_size=bs, **hyper)
    ctx.event("kind:" + method)
    with R.scratch() as root:
        start_pm = S.build("map", kind, seed + 1)
        # a dumped MAP state cannot be where an ensemble or a chain restores from: they take a preliminary MAP run
        prelim = method in ("ensemble", "sghmc", "cyclical")
        d = os.path.join(root, "map")
        pm = S.build(method, kind, seed)
        if prelim:
            rec = T.Recorder()
            kw, ck = dict(map_fit_config=T.config(n_epochs=2, callbacks=[rec])), {}
        else:
            start_pm.train(T.loader((x, y), bs), fit_config=T.config(n_epochs=2, save_checkpoint_dir=d, dump_state=True))
            start = T.flat_dict(T.host(start_pm.posterior.state.get().params))
            kw, ck = {}, dict(restore_checkpoint_path=d)
        frec = T.Recorder()
        pm.train(T.loader((x, y), bs), fit_config=T.config(None if sg else opt, 3, freeze_fun=fun(rule), callbacks=[frec], **hyper, **ck), **kw)
        # an ensemble only takes what is frozen from the preliminary run
        starts = [T.flat_dict(rec.log[-1][2])] if prelim else [start]
        n = {"ensemble": 2}.get(method, 1)
        frozen = [p for p in starts[0] if not rule(p)]
        moving = [p for p in starts[0] if rule(p)]
        ctx.check(len(frozen) > 0 and len(moving) > 0, "rule-splits-the-parameters")
        s0 = starts[0]
        for i in range(3):
            s = paths_of(pm, x, seed + i)
            ctx.event("sample")
            ctx.check(set(s) == set(s0), "samples-have-all-parameters", str(set(s) ^ set(s0)))
            for p in frozen:
                ctx.event("frozen-leaf")
                ctx.check(np.array_equal(s[p], s0[p]), "frozen-in-samples", f"{method} {p}")
            for p in moving:
                ctx.event("trainable-leaf")
                ctx.check(not np.array_equal(s[p], s0[p]), "trainable-moves", f"{method} {p}")
            ctx.check(all(np.all(np.isfinite(v)) for v in s.values()), "finite")
        # what callbacks see during training
        if method in ("map", "ensemble", "sghmc", "cyclical", "swag"):
            for e, t, p in frec.log:
                f = T.flat_dict(p)
                ctx.check(all(np.array_equal(f[q], s0[q]) for q in frozen if q in f), "frozen-during-training", f"{e} {t}")
        if method in ("map", "ensemble"):
            for st in S.members(pm):
                f = T.flat_dict(st.params)
                ctx.check(all(np.array_equal(f[q], s0[q]) for q in frozen) and set(f) == set(s0), "frozen-in-state")
        ctx.key(*[s[p] for p in sorted(s)])


@suite.scenario(quick=5, thorough=60)
def partially_frozen_steps(ctx):
    """one gradient step touches exactly the trainable part, with the gradient of the full objective"""
    kind = ctx.choice(["cls", "reg"])
    name, rule = rules(ctx, kind == "reg")
    n = 8
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, n)
    seed, lr = ctx.integers(0, 1000), 0.01
    ctx.note(kind=kind, freeze=name)
    with R.scratch() as root:
        a = S.build("map", kind, seed)
        a.train(T.loader((x, y), n), fit_config=T.config(n_epochs=1, save_checkpoint_dir=root, dump_state=True))
        start = a.posterior.state.get().params
        b = S.build("map", kind, seed + 1)
        b.train(T.loader((x, y), n), fit_config=T.config(optax.sgd(lr), 1, freeze_fun=fun(rule), restore_checkpoint_path=root))
        _, g = T.reference_loss(b, kind)(start, x, y, float(n))
        s, g, e = (T.flat_dict(T.host(t)) for t in (start, g, b.posterior.state.get().params))
        for p in s:
            want = s[p] - lr * g[p] if rule(p) else s[p]
            ctx.close(e[p], want, "step-of-the-trainable-part", rtol=2e-4, atol=2e-5, msg=str(p))
            if not rule(p):
                ctx.event("frozen-leaf")
                ctx.check(np.array_equal(e[p], s[p]), "frozen-in-state", str(p))
        ctx.key(*[e[p] for p in sorted(e)])


@suite.scenario(quick=3, thorough=40)
def partially_frozen_members(ctx):
    """ensemble members start from the preliminary fit's frozen part and take the steps of their own optimizer"""
    kind = ctx.choice(["cls", "reg"])
    name, rule = rules(ctx, kind == "reg")
    n = 8
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, n)
    lr = ctx.choice([0.01, 0.03])
    ctx.note(kind=kind, freeze=name, lr=lr)
    pm = S.build("ensemble", kind, ctx.integers(0, 1000))
    first, rec = T.Recorder(), T.Recorder()
    pm.train(T.loader((x, y), n), fit_config=T.config(optax.sgd(lr), 2, freeze_fun=fun(rule), callbacks=[rec]),
             map_fit_config=T.config(optax.sgd(0.2), 2, callbacks=[first]))
    base = T.flat_dict(first.log[-1][2])
    ref = T.reference_loss(pm, kind)

    def full(p):
        """callbacks may be shown the trainable part only"""
        return {**base, **T.flat_dict(p)}

    def nest(f):
        out = {}
        for q, v in f.items():
            d = out
            for k in q[:-1]:
                d = d.setdefault(k, {})
            d[q[-1]] = v
        return FrozenDict(out)

    inits = [full(rec.log[0][2]), full(rec.log[len(rec.log) // 2][2])]
    for p in base:
        if rule(p):
            if p[-1] == "kernel":
                ctx.check(not np.array_equal(inits[0][p], inits[1][p]), "members-start-apart", str(p))
        else:
            ctx.check(np.array_equal(inits[0][p], base[p]) and np.array_equal(inits[1][p], base[p]), "frozen-in-state", str(p))
    before = None
    for e, t, p in rec.log:
        if e == "start":
            before = full(p)
        elif e == "step":
            g, f = T.flat_dict(T.host(ref(nest(before), x, y, float(n))[1])), full(p)
            for q in before:
                ctx.close(f[q], before[q] - lr * g[q] * rule(q), "step-of-the-trainable-part", rtol=2e-4, atol=2e-5, msg=str(q))
            before = f
    for m, want in zip(S.members(pm), [full(rec.log[len(rec.log) // 2 - 1][2]), full(rec.log[-1][2])]):
        got = T.flat_dict(T.host(m.params))
        ctx.check(got.keys() == want.keys() and all(np.array_equal(got[q], want[q]) for q in want), "member-is-the-last-step")
    ctx.key(*[f[q] for q in sorted(f)])


@suite.scenario(quick=8, thorough=70)
def everything_trainable_is_no_freezing(ctx):
    methods = ["map", "ensemble", "swag", "advi", "laplace", "sghmc", "cyclical", "sngp"]
    method = methods[ctx.i % len(methods)]
    kind = "cls" if method == "sngp" else ctx.choice(["cls", "reg"])
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, 8)
    seed = ctx.integers(0, 1000)
    oname, opt = optimizer(ctx)
    ctx.note(method=method, kind=kind, optimizer=oname)
    ctx.event("all-trainable")
    ctx.event("kind:" + method)
    out = []
    with R.scratch() as root:
        for fz in (None, lambda p, v: "trainable"):
            ck, kw = {}, {}
            if method in ("swag", "advi", "laplace"):
                d = os.path.join(root, "map")
                if fz is None:
                    S.build("map", kind, seed + 1).train(T.loader((x, y), 4), fit_config=T.config(n_epochs=1, save_checkpoint_dir=d, dump_state=True))
                ck = dict(restore_checkpoint_path=d)
            pm = S.build(method, kind, seed)
            pm.train(T.loader((x, y), 4), fit_config=T.config(None if method in ("sghmc", "cyclical") else opt, 3, freeze_fun=fz, **ck), **kw)
            out.append([paths_of(pm, x, seed + i) for i in range(2)])
    for a, b in zip(*out):
        ctx.check(set(a) == set(b), "same-parameters")
        bad = [p for p in a if not np.allclose(a[p], b[p], rtol=1e-5, atol=1e-6)]
        ctx.check(not bad, "all-trainable-equals-unfrozen", f"{method} {bad[:3]} {np.abs(a[bad[0]] - b[bad[0]]).max() if bad else 0}")
    ctx.key(*[v for p, v in sorted(out[0][0].items())])


@suite.scenario(quick=2, thorough=20)
def mutable_and_frozen(ctx):
    """with batch statistics: frozen weights stay, statistics move"""
    method = ["map", "ensemble"][ctx.i % 2]
    x, y = T.data(ctx, "cls", 2, 12)
    seed = ctx.integers(0, 1000)
    rule = [lambda p: "Dense_1" in p, lambda p: "BatchNorm_0" not in p, lambda p: p[-1] == "kernel"][ctx.integers(0, 2)]
    pm = T.make("cls", 2, S.METHODS[method](), seed=seed, model=T.Net(2))
    rec = T.Recorder()
    kw = {}
    with R.scratch() as root:
        if method == "map":
            a = T.make("cls", 2, MAPPosteriorApproximator(), seed=seed + 1, model=T.Net(2))
            a.train(T.loader((x, y), 6), fit_config=T.config(n_epochs=1, save_checkpoint_dir=root, dump_state=True))
            st = a.posterior.state.get()
            start, stats = T.flat_dict(T.host(st.params)), T.flat_dict(T.host(st.mutable))
            pm.train(T.loader((x, y), 6), fit_config=T.config(optax.adamw(1e-2, weight_decay=0.1), 2, freeze_fun=fun(rule), restore_checkpoint_path=root))
        else:
            stats = None
            pm.train(T.loader((x, y), 6), fit_config=T.config(optax.adam(1e-2), 2, freeze_fun=fun(rule)), map_fit_config=T.config(n_epochs=1, callbacks=[rec]))
            start = T.flat_dict(rec.log[-1][2])
    ctx.event("mutable")
    for s in S.members(pm):
        f = T.flat_dict(T.host(s.params))
        for p in start:
            ctx.check(np.array_equal(f[p], start[p]) != rule(p), "frozen-in-state" if not rule(p) else "trainable-moves", str(p))
        if stats is not None:
            m = T.flat_dict(T.host(s.mutable))
            ctx.check(set(m) == set(stats) and all(not np.array_equal(m[p], stats[p]) for p in m), "statistics-still-updated")
    ctx.key(*[f[p] for p in sorted(f)])


@suite.scenario(quick=4, thorough=40)
def calibration_models(ctx):
    """CalibClassifier and CalibRegressor with frozen parameters"""
    kind = ["cls", "reg"][ctx.i % 2]
    dim = 2 if kind == "cls" else 1
    name, rule = rules(ctx, kind == "reg")
    if name in ("one-leaf", "all-but-one") and kind == "reg":
        name, rule = "bias", lambda p: p[-1] == "bias"
    x, y = T.data(ctx, kind, dim, 8)
    seed = ctx.integers(0, 1000)
    oname, opt = optimizer(ctx)
    ctx.note(kind=kind, freeze=name, optimizer=oname)
    ctx.event("calib-model")

    def make():
        net = MLP(dim, widths=(3,), activations=(nn.tanh,))
        if kind == "cls":
            return CalibClassifier(model=net, seed=seed)
        return CalibRegressor(model=net, likelihood_log_variance_model=MLP(dim, widths=(2,), activations=(nn.tanh,)), seed=seed)

    class Rec(T.Recorder):
        pass

    out = {}
    for tag, fz in (("frozen", fun(rule)), ("none", None), ("all", lambda p, v: "trainable")):
        m = make()
        rec = Rec()
        m.calibrate(T.loader((x, y), 4), config=CConfig(optimizer=COptimizer(method=opt, n_epochs=2, freeze_fun=fz), monitor=CMonitor(verbose=False),
                                                        processor=CProcessor(devices=0), callbacks=[rec]))
        out[tag] = T.flat_dict(T.host(m.predictive.state.get().params)), T.flat_dict(rec.log[0][2])
    end, _ = out["frozen"]
    start = out["none"][1]
    for p in start:
        if rule(p):
            ctx.event("trainable-leaf")
            ctx.check(not np.array_equal(end[p], start[p]), "trainable-moves", str(p))
        else:
            ctx.event("frozen-leaf")
            ctx.check(np.array_equal(end[p], start[p]), "frozen-in-state", str(p))
    ctx.check(all(np.allclose(out["none"][0][p], out["all"][0][p], rtol=1e-5, atol=1e-6) for p in start), "all-trainable-equals-unfrozen")
    ctx.key(*[end[p] for p in sorted(end)])


@suite.scenario(quick=4, thorough=40)
def invalid_labels(ctx):
    label = ctx.choice(["freeze", "Trainable", None, True, ""])
    x, y = T.data(ctx, "cls", 2, 6)
    pm = S.build(ctx.choice(["map", "ensemble"]), "cls", 0)
    ctx.event("invalid")
    ctx.note(label=label)
    ctx.raises(ValueError, lambda: pm.train(T.loader((x, y), 6), fit_config=T.config(
        n_epochs=1, freeze_fun=lambda p, v: label if p[-1] == "bias" else "trainable")), "unknown-label-rejected")
    ctx.key(label, ctx.rng.integers(1 << 30))


@suite.scenario(quick=12, thorough=300)
def frozen_optimizers(ctx):
    """the optimizer wrapper: frozen leaves get zero updates, trainable ones what the optimizer gives them alone"""
    shapes = [(2, 3), (3,), (1,), (2, 2)]
    r = ctx.rng
    tree = {"a": {"k": r.normal(size=shapes[0]), "b": r.normal(size=shapes[1])}, "c": r.normal(size=shapes[2]), "d": {"e": {"f": r.normal(size=shapes[3])}}}
    tree = FrozenDict(jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32), tree))
    flat = T.flat_dict(tree)
    label = {p: bool(r.random() < 0.5) for p in flat}
    _, opt = optimizer(ctx)
    ctx.event("optimizer")
    calls = []
    fz = freeze_optimizer(tree, opt, lambda p, v: (calls.append((tuple(p), np.shape(v))), "trainable" if label[tuple(p)] else "frozen")[1])
    ctx.check({c for c in calls} == {(p, v.shape) for p, v in flat.items()}, "rule-sees-every-leaf-and-value", str(calls))
    ctx.check(freeze_optimizer(tree, opt, None) is opt, "no-rule-same-optimizer")
    st, params = fz.init(tree), tree
    sub = {"/".join(p): flat[p] for p in flat if label[p]}
    sst = opt.init(sub) if sub else None
    sub_params = sub
    for _ in range(3):
        g = FrozenDict(jax.tree_util.tree_map(lambda v: jnp.asarray(r.normal(size=v.shape), jnp.float32), tree.unfreeze()))
        u, st = fz.update(g, st, params)
        params = optax.apply_updates(params, u)
        uf, gf = T.flat_dict(u), T.flat_dict(g)
        for p in flat:
            if not label[p]:
                ctx.check(np.all(uf[p] == 0), "frozen-update-zero", str(p))
        if sub:
            su, sst = opt.update({k: jnp.asarray(gf[tuple(k.split("/"))]) for k in sub}, sst, sub_params)
            sub_params = optax.apply_updates(sub_params, su)
            ctx.check(all(np.allclose(su[k], uf[tuple(k.split("/"))], rtol=1e-5, atol=1e-7) for k in sub), "trainable-update-is-the-optimizer's")
    end = T.flat_dict(params)
    ctx.check(all(np.array_equal(end[p], flat[p]) for p in flat if not label[p]), "frozen-in-state")
    ctx.key(*[end[p] for p in sorted(end)])
