"""Continuing: training any posterior further from what a previous run left, in memory or on disk."""
from vf.props import trainrig as T  # before jax

import hashlib
import os
import tempfile

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.prob_model import (ADVIPosteriorApproximator, CyclicalSGLDPosteriorApproximator, DeepEnsemblePosteriorApproximator,
                                LaplacePosteriorApproximator, MAPPosteriorApproximator, ProbClassifier, SGHMCPosteriorApproximator,
                                SWAGPosteriorApproximator)
from fortuna.output_calibrator.classification import ClassificationTemperatureScaler
from fortuna.prob_model import CalibConfig, CalibMonitor
from fortuna.prob_model.fit_config.callback import FitCallback
from fortuna.utils.random import RandomNumberGenerator
from vf.core import Suite

suite = Suite(
    "C45",
    rule="case = (approximation, way of handing over the state, trainable parameters of both runs, network, calibrated or not); distinct = states after both runs",
    assumptions=["a run at learning rate zero exposes the state it started from",
                 "networks have no dropout; optimizers restart when training continues"],
    required={"unchanged": 24, "changed-set": 6, "ensemble-members": 3, "split": 3, "chain": 4, "laplace": 2, "calibrated": 4, "mutable": 3, "refused": 5, "moved-folder": 2, "afresh": 14,
              "source-untouched": 8},
)

APPROX = {
    "map": lambda: MAPPosteriorApproximator(),
    "advi": lambda: ADVIPosteriorApproximator(),
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "laplace": lambda: LaplacePosteriorApproximator(),
    "swag": lambda: SWAGPosteriorApproximator(rank=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2),
    "sgld": lambda: CyclicalSGLDPosteriorApproximator(n_samples=2, cycle_length=4, init_step_size=1e-5),
}
MANY = ("ensemble", "sghmc", "sgld")  # several states
GRADIENT = ("map", "advi", "ensemble", "swag")


class Ordered(nn.Module):
    """layers whose names are not in alphabetical order"""
    output_dim: int
    batch_norm: bool = False

    @nn.compact
    def __call__(self, x, train=False, **kwargs):
        x = nn.Dense(3, name="z")(x)
        if self.batch_norm:
            x = nn.BatchNorm(use_running_average=not train, momentum=0.9, name="m")(x)
        return nn.Dense(self.output_dim, name="a")(nn.tanh(x))


def first(path, value):
    return "trainable" if "z" in path else "frozen"


def last(path, value):
    return "trainable" if "a" in path else "frozen"


def biases(path, value):
    return "trainable" if path[-1] == "bias" else "frozen"


SETS = {"all": None, "first": first, "last": last, "biases": biases}


def trains(rule, path):
    return SETS[rule] is None or SETS[rule](path, None) == "trainable"


class Rec(FitCallback):
    """parameters and running statistics at the start of every member or chain"""
    def __init__(self):
        self.starts, self.ends, self.prev = [], [], None

    def _get(self, s):
        return dict(params=T.flat_dict(T.host(s.params)), mutable=T.flat_dict(T.host(s.mutable)) if s.mutable is not None else {}, step=int(np.ravel(s.step)[0]))

    def training_epoch_start(self, s):
        g = self._get(s)
        if self.prev is None or self.prev["step"] != g["step"] or any(not np.array_equal(self.prev["params"][k], g["params"].get(k)) for k in self.prev["params"]):
            self.starts.append(g)
            if self.prev is not None:
                self.ends.append(self.prev)
        return s

    def training_epoch_end(self, s):
        self.prev = self._get(s)
        return s


def model(name, seed=0, bn=False, calibrated=False):
    return ProbClassifier(model=Ordered(2, batch_norm=bn), posterior_approximator=APPROX[name](), seed=seed,
                          **(dict(output_calibrator=ClassificationTemperatureScaler()) if calibrated else {}))


def run(pm, name, xy, rule, method=None, n_epochs=4, preliminary=True, callbacks=None, **ck):
    kw = {}
    if name == "swag":
        n_epochs = max(n_epochs, 3)  # the rank needs that many
    if preliminary and (name in ("laplace", "swag") or (SETS[rule] is not None and name != "map")):
        kw["map_fit_config"] = T.config(optax.adam(1e-2), 2)
    pm.train(T.loader(xy, 8), fit_config=T.config(method or optax.adam(1e-2), n_epochs, freeze_fun=SETS[rule], callbacks=callbacks, **ck), **kw)


def states(pm, name):
    return [pm.posterior.state.get(i) for i in range(2)] if name in MANY else [pm.posterior.state.get()]


LABELS = {"advi": "log_std", "laplace": "hess_lik_diag"}


def split_state(name, s):
    """value (or mean) of every parameter, and its log-standard-deviation or curvature where there is one"""
    flat = T.flat_dict(T.host(s.params))
    if name not in LABELS:
        return flat, {}
    val, second = {}, {}
    for p, v in flat.items():
        # (..., "params", "mean", layer, leaf) when all are trainable, (..., layer, leaf, "mean") otherwise
        for l, d in (("mean", val), (LABELS[name], second)):
            if l in p:
                d[tuple(q for q in p if q != l)] = v
                break
        else:
            val[p] = v
    return val, second


def hand_over(ctx, way, pm, name, d, **kw):
    """the model that continues and the arguments that tell it where from"""
    if way == "current":
        return pm, dict(start_from_current_state=True)
    other = model(name, seed=99, **kw)
    if way == "checkpoint":
        return other, dict(restore_checkpoint_path=d + "/a")
    pm.save_state(d + "/b")
    other.load_state(d + "/b")
    return other, dict(start_from_current_state=True)


def fingerprint(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = hashlib.sha1(open(os.path.join(r, f), "rb").read()).hexdigest()
    return out


def near(ctx, got, want, keys, mech, msg=""):
    for k in keys:
        ctx.check(k in got and np.array_equal(np.asarray(got[k]), np.asarray(want[k])), mech, f"{msg} {k}: {got.get(k)} instead of {want[k]}")


@suite.scenario(quick=30, thorough=300)
def starts_where_it_stopped(ctx):
    """the second run starts from the state the first one left, with the same trainable parameters"""
    name = sorted(APPROX)[ctx.i % 7]
    way = ["current", "checkpoint", "saved"][(ctx.i // 7 + ctx.i) % 3]
    rule = ctx.choice(["all", "first", "last", "biases"])
    bn = name != "laplace" and ctx.i % 5 == 4
    cal = ctx.i % 4 == 3
    xy = T.data(ctx, "cls", 2, 16)
    ctx.note(name=name, way=way, rule=rule, batch_norm=bn, calibrated=cal)
    with tempfile.TemporaryDirectory() as d:
        pm = model(name, seed=ctx.integers(0, 50), bn=bn, calibrated=cal)
        r1, r2 = Rec(), Rec()
        run(pm, name, xy, rule, callbacks=[r1], **(dict(save_checkpoint_dir=d + "/a", dump_state=True) if way == "checkpoint" else {}))
        if cal and way != "checkpoint":  # give the stored state a calibration of its own
            for s in range(2 if name in MANY else 1):
                st = states(pm, name)[s]
                c = jax.tree_util.tree_map(lambda v: v + 0.25 * (s + 1), st.calib_params)
                pm.posterior.state.update(dict(calib_params=c), **(dict(i=s) if name in MANY else {}))
        old = states(pm, name)
        if way == "checkpoint" and name in ("sghmc", "sgld"):
            # the chain continues from its last step, which need not be one of its samples
            old = [model(name).posterior.restore_checkpoint(d + "/a/c")]
        q, ck = hand_over(ctx, way, pm, name, d, bn=bn, calibrated=cal)
        src = fingerprint(d)
        zero = optax.sgd(0.0)
        run(q, name, xy, rule, method=zero, n_epochs=4, preliminary=False, callbacks=[r2], **ck)
        if way != "current":
            ctx.check(fingerprint(d) == src, "source-changed", f"{name} {way}")
            ctx.event("source-untouched")
        new = states(q, name)
        if name in ("sghmc", "sgld"):
            val, _ = split_state(name, old[-1])
            got = r2.starts[0]["params"]
            want = {k for k in val if trains(rule, k)}
            ctx.check(set(got) == want, "trainable-set", f"{sorted(got)} instead of {sorted(want)}")
            near(ctx, got, val, want, "start", f"{name} {way}")
            for n in new:  # what was frozen is still what it was
                near(ctx, split_state(name, n)[0], val, set(val) - want, "frozen", f"{name} {way}")
        else:
            for a, b in zip(old, new):
                va, sa = split_state(name, a)
                vb, sb = split_state(name, b)
                ctx.check(va.keys() == vb.keys() and sa.keys() == sb.keys(), "structure", f"{sorted(vb)} {sorted(sb)}")
                near(ctx, vb, va, va, "start", f"{name} {way}")
                if name == "laplace":
                    for k in sa if not cal else ():  # the calibration given above changes the curvature
                        ctx.close(sb[k], sa[k], "curvature", rtol=1e-3, atol=1e-4, msg=str(k))
                else:
                    near(ctx, sb, sa, sa, "start-spread", f"{name} {way}")
            if name == "ensemble":
                if rule != "biases":  # these all start from zero
                    ctx.check(any(not np.array_equal(u, v) for u, v in zip(T.leaves(new[0].params), T.leaves(new[1].params))), "members-alike")
                ctx.event("ensemble-members")
        if bn:
            m = T.flat_dict(T.host(old[-1].mutable))
            ctx.check(len(m) > 0 and m.keys() == r2.starts[-1]["mutable"].keys(), "running-statistics", str(sorted(m)))
            near(ctx, r2.starts[-1]["mutable"], m, m, "running-statistics", f"{name} {way}")
            ctx.event("mutable")
        if cal:
            for a, b in zip(old[-len(new):], new) if name not in ("sghmc", "sgld") else [(old[-1], n) for n in new]:
                ctx.check(a.calib_params is not None and T.same_tree(a.calib_params, b.calib_params), "calibration", f"{name} {way}: {b.calib_params}")
            ctx.event("calibrated")
        # and it does train when the learning rate is not zero
        if name in GRADIENT:
            run(q, name, xy, rule, method=optax.adam(0.05), n_epochs=2, preliminary=False, start_from_current_state=True)
            for b, c in zip(new, states(q, name)):
                vb, vc = split_state(name, b)[0], split_state(name, c)[0]
                moved = {k for k in vb if not np.array_equal(vb[k], vc[k])}
                want = {k for k in vb if trains(rule, k)}
                ctx.check(moved == want, "moved", f"{sorted(moved)} instead of {sorted(want)}")
    ctx.key(name, way, rule, *[np.asarray(v).tobytes() for v in T.leaves(new[0].params)])
    ctx.event("unchanged")


@suite.scenario(quick=12, thorough=150)
def other_trainable_set(ctx):
    """continuing with other trainable parameters: what was learned is kept, whichever parameters train now"""
    name = ["advi", "map", "advi", "laplace", "swag", "ensemble"][ctx.i % 6]
    way = ctx.choice(["current", "checkpoint", "saved"])
    a, b = [("first", "all"), ("all", "last"), ("first", "last"), ("biases", "first")][(ctx.i // 6 + ctx.i) % 4]
    xy = T.data(ctx, "cls", 2, 16)
    ctx.note(name=name, way=way, sets=[a, b])
    with tempfile.TemporaryDirectory() as d:
        pm = model(name, seed=ctx.integers(0, 50))
        run(pm, name, xy, a, **(dict(save_checkpoint_dir=d + "/a", dump_state=True) if way == "checkpoint" else {}))
        old = states(pm, name)
        q, ck = hand_over(ctx, way, pm, name, d)
        run(q, name, xy, b, method=optax.sgd(0.0), preliminary=False, n_epochs=1, **ck)
        new = states(q, name)
        for s, t in zip(old, new):
            va, sa = split_state(name, s)
            vb, sb = split_state(name, t)
            ctx.check(va.keys() == vb.keys(), "structure", str(sorted(vb)))
            near(ctx, vb, va, va, "start", f"{name} {way} {a} -> {b}")
            if name == "advi":
                ctx.check(set(sb) == {k for k in va if trains(b, k)}, "trainable-set", str(sorted(sb)))
                near(ctx, sb, sa, set(sa) & set(sb), "start-spread", f"{way} {a} -> {b}")
                ctx.check(all(np.all(np.isfinite(v)) for v in sb.values()), "spread-not-finite")
            if name == "laplace":
                ctx.check(set(sb) == {k for k in va if trains(b, k)}, "trainable-set", str(sorted(sb)))
                for k in set(sa) & set(sb):
                    ctx.close(sb[k], sa[k], "curvature", rtol=1e-3, atol=1e-4, msg=str(k))
        # samples: exactly the parameters that train now vary
        smp = [T.flat_dict(T.host(q.posterior.sample(rng=jax.random.PRNGKey(k), inputs=xy[0]).params)) for k in range(3)]
        ctx.check(all(np.all(np.isfinite(v)) for s in smp for v in s.values()), "samples-not-finite")
        if name in ("advi", "laplace"):
            vary = {k for k in smp[0] if not all(np.array_equal(smp[0][k], s[k]) for s in smp)}
            ctx.check(vary == {k for k in smp[0] if trains(b, k)}, "samples-vary", str(sorted(vary)))
    ctx.key(name, way, a, b, *[np.asarray(v).tobytes() for v in T.leaves(new[0].params)])
    ctx.event("changed-set")


@suite.scenario(quick=4, thorough=60)
def split_ensemble(ctx):
    """an ensemble trained for a few epochs and then for a few more is the one trained at once, member by member"""
    way = ["current", "checkpoint", "saved"][ctx.i % 3]
    rule = ctx.choice(["all", "all", "last"])
    a, b = ctx.choice([1, 2]), ctx.choice([1, 3])
    xy = T.data(ctx, "cls", 2, 16)
    seed = ctx.integers(0, 50)
    sgd = optax.sgd(0.01)
    ctx.note(way=way, rule=rule, epochs=[a, b])
    whole = model("ensemble", seed=seed)
    run(whole, "ensemble", xy, rule, method=sgd, n_epochs=a + b)
    with tempfile.TemporaryDirectory() as d:
        pm = model("ensemble", seed=seed)
        run(pm, "ensemble", xy, rule, method=sgd, n_epochs=a, **(dict(save_checkpoint_dir=d + "/a", dump_state=True) if way == "checkpoint" else {}))
        q, ck = hand_over(ctx, way, pm, "ensemble", d)
        run(q, "ensemble", xy, rule, method=sgd, n_epochs=b, preliminary=False, **ck)
        for i, (s, t) in enumerate(zip(states(whole, "ensemble"), states(q, "ensemble"))):
            u, v = T.flat_dict(T.host(s.params)), T.flat_dict(T.host(t.params))
            for k in u:
                ctx.close(v[k], u[k], "split-run", rtol=1e-4, atol=1e-5, msg=f"member {i} {k}")
            ctx.check(int(s.step) == int(t.step), "step", f"{t.step} instead of {s.step}")
    ctx.key(way, *[np.asarray(v).tobytes() for v in T.leaves(t.params)])
    ctx.event("split")


@suite.scenario(quick=6, thorough=60)
def from_a_point_estimate(ctx):
    """the approximations built around a point estimate take it from the checkpoint of another model"""
    name = ["advi", "laplace", "swag"][ctx.i % 3]
    rule = ctx.choice(["all", "last"])
    xy, xy2 = T.data(ctx, "cls", 2, 16), T.data(ctx, "cls", 2, 16)
    ctx.note(name=name, rule=rule)
    with tempfile.TemporaryDirectory() as d:
        pm = model("map", seed=ctx.integers(0, 50))
        run(pm, "map", xy, "all", save_checkpoint_dir=d + "/a", dump_state=True)
        val = T.flat_dict(T.host(pm.posterior.state.get().params))
        q = model(name, seed=3)
        run(q, name, xy, rule, method=optax.sgd(0.0), n_epochs=1, preliminary=False, restore_checkpoint_path=d + "/a")
        v, s = split_state(name, states(q, name)[0])
        near(ctx, v, val, val, "start", name)
        if name == "laplace":
            # going on from the Laplace state on other data: the same centre, the curvature of the other data
            run(q, name, xy2, rule, preliminary=False, start_from_current_state=True)
            w = model(name, seed=4)
            run(w, name, xy2, rule, preliminary=False, restore_checkpoint_path=d + "/a")
            (v1, s1), (v2, s2) = (split_state(name, states(m, name)[0]) for m in (q, w))
            near(ctx, v1, val, val, "start", name)
            near(ctx, v2, val, val, "start", name)
            ctx.check(s1.keys() == s2.keys() == s.keys(), "structure")
            for k in s1:
                ctx.close(s1[k], s2[k], "curvature", rtol=1e-4, atol=1e-5, msg=str(k))
            ctx.check(any(not np.allclose(s[k], s1[k], rtol=1e-3) for k in s), "curvature-of-the-old-data")
            ctx.event("laplace")
    ctx.key(name, rule, *[np.asarray(u).tobytes() for u in v.values()])
    ctx.event("chain")


@suite.scenario(quick=3, thorough=24)
def moving_folders(ctx):
    """an ensemble continues into another folder, or from a folder into memory: the old folder keeps what it had"""
    xy = T.data(ctx, "cls", 2, 16)
    to = [True, False][ctx.i % 2]
    start = ctx.i % 3  # dumped, loaded, in memory
    ctx.note(to_folder=to, start=["dumped", "loaded", "memory"][start])
    with tempfile.TemporaryDirectory() as d:
        pm = model("ensemble", seed=ctx.integers(0, 50))
        run(pm, "ensemble", xy, "all", **(dict(save_checkpoint_dir=d + "/a", dump_state=True) if start != 2 else {}))
        if start == 1:
            pm = model("ensemble", seed=1)
            pm.load_state(d + "/a")
        old = [T.flat_dict(T.host(s.params)) for s in states(pm, "ensemble")]
        src = fingerprint(d)
        run(pm, "ensemble", xy, "all", method=optax.sgd(0.0), n_epochs=1, start_from_current_state=True, **(dict(save_checkpoint_dir=d + "/b", dump_state=True) if to else {}))
        for i, s in enumerate(states(pm, "ensemble")):
            near(ctx, T.flat_dict(T.host(s.params)), old[i], old[i], "start", f"member {i}")
        now = fingerprint(d)
        ctx.check(all(now.get(k) == v for k, v in src.items()), "old-folder-changed")
        ctx.check(to == any(k.startswith("b") for k in now), "new-folder", str(sorted(now))[:300])
        if to:
            q = model("ensemble", seed=2)
            q.load_state(d + "/b")
            for i, s in enumerate(states(q, "ensemble")):
                near(ctx, T.flat_dict(T.host(s.params)), old[i], old[i], "dumped", f"member {i}")
    ctx.key(to, start, *[v.tobytes() for v in old[0].values()])
    ctx.event("moved-folder")


REFUSED = [("map", "advi"), ("map", "laplace"), ("laplace", "advi"), ("swag", "advi"), ("swag", "laplace"), ("advi", "laplace")]


@suite.scenario(quick=6, thorough=18)
def foreign_states(ctx):
    """a state of a kind that the approximation cannot start from is refused and the model keeps its own"""
    name, other = REFUSED[ctx.i % len(REFUSED)]
    xy = T.data(ctx, "cls", 2, 16)
    ctx.note(name=name, other=other)
    with tempfile.TemporaryDirectory() as d:
        run(model(other), other, xy, "all", n_epochs=1, save_checkpoint_dir=d + "/a", dump_state=True)
        pm = model(name, seed=1)
        run(pm, name, xy, "all", n_epochs=1)
        before = T.flat_dict(T.host(states(pm, name)[0].params))
        ctx.raises(ValueError, lambda: run(pm, name, xy, "all", n_epochs=1, preliminary=False, restore_checkpoint_path=d + "/a"), "foreign-state")
        near(ctx, T.flat_dict(T.host(states(pm, name)[0].params)), before, before, "state-after-refusal")
    ctx.key(name, other)
    ctx.event("refused")


def reseed(obj, seed):
    """every random number generator that the model reaches restarts, so that a used and a new model draw the same numbers"""
    fresh, seen, stack, n = RandomNumberGenerator(seed), set(), [obj], 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, RandomNumberGenerator):
            vars(o).update(vars(fresh))
            n += 1
        elif isinstance(o, (list, tuple)):
            stack += list(o)
        elif isinstance(o, dict):
            stack += list(o.values())
        elif type(o).__module__.startswith("fortuna"):
            stack += list(vars(o).values())
    return n


@suite.scenario(quick=14, thorough=160)
def starts_afresh(ctx):
    """a run that is not told to continue gives what it gives on a new model, whatever the model did before"""
    name = sorted(APPROX)[ctx.i % 7]
    bn, cal = name != "laplace" and ctx.i % 2 == 0, ctx.i % 3 == 0
    first_rule, rule = [("first", "all"), ("all", "first"), ("last", "first"), ("biases", "last"), ("all", "all")][(ctx.i // 7 + ctx.i) % 5]
    xz, xy = T.data(ctx, "cls", 2, 16), T.data(ctx, "cls", 2, 16)
    seed = ctx.integers(0, 50)
    ctx.note(name=name, rules=(first_rule, rule), batch_norm=bn, calibrated=cal)
    used, new = model(name, seed, bn=bn, calibrated=cal), model(name, seed, bn=bn, calibrated=cal)
    with tempfile.TemporaryDirectory() as d:
        run(used, name, xz, first_rule, n_epochs=ctx.integers(4, 5), **(dict(save_checkpoint_dir=d + "/a", dump_state=ctx.i % 4 < 2) if ctx.i % 2 else {}))
        used.predictive.mean(T.loader(xz, 8).to_inputs_loader(), n_posterior_samples=2)
        if cal:
            used.calibrate(T.loader(xz, 8), calib_config=CalibConfig(monitor=CalibMonitor(verbose=False)))
        for s in (11, 12):  # the second run, and what is drawn from it
            for m in (used, new):
                reseed(m, s)
                if s == 11:
                    run(m, name, xy, rule)
        a, b = states(used, name), states(new, name)
        for i, (u, v) in enumerate(zip(a, b)):
            for part in ("params", "mutable", "calib_params", "calib_mutable"):
                u_, v_ = (T.flat_dict(T.host(getattr(w, part))) if getattr(w, part, None) else {} for w in (u, v))
                ctx.check(set(u_) == set(v_), "afresh-names", f"{name} state {i} {part}: {sorted(set(u_) ^ set(v_))}")
                for k in v_:
                    ctx.close(u_[k], v_[k], "afresh-state", f"{name} state {i} {part} {k}", rtol=1e-6, atol=1e-7)
        x = T.loader(xy, 8).to_inputs_loader()
        p, q = (np.asarray(m.predictive.mean(x, n_posterior_samples=4, rng=jax.random.PRNGKey(3))) for m in (used, new))
        ctx.close(p, q, "afresh-predictions", name, rtol=1e-5, atol=1e-6)
    ctx.key(name, p.tobytes())
    ctx.event("afresh")
