import logging

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.prob_model import CyclicalSGLDPosteriorApproximator, SGHMCPosteriorApproximator
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import identity_preconditioner, rmsprop_preconditioner
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import (
    constant_schedule, constant_schedule_with_cosine_burnin, cosine_schedule, cyclical_cosine_schedule_with_const_burnin,
    polynomial_schedule)
from fortuna.training.trainer import TrainerABC
from vf.core import Suite
from vf.props import trainrig as T

suite = Suite(
    "C27",
    rule="case = (schedule | preconditioner | gradient history | training configuration); distinct = distinct step-size "
         "sequences, update histories and sampled chains",
    assumptions=["the recurrences are those of the class documentation: M(omentum) <- decay M + g sqrt(eps) + sqrt(2(1-decay)) P^(1/2) z, "
                 "step P^(-1) M sqrt(eps)", "the noise is recovered from two runs and tested at |z| < 6.5"],
    required={"sghmc-run": 3, "cyclical-run": 3, "frozen-run": 2, "rejected-budget": 1, "rmsprop": 5, "zero-burnin": 1, "sgd-steps": 20,
              "sgld-steps": 20, "noise-draws": 5000},
)


def tmap(f, *t):
    return jax.tree_util.tree_map(f, *t)


def flat(t):
    return np.concatenate([np.asarray(v, np.float64).reshape(-1) for v in T.leaves(t)])


# ----------------------------------------------------------------------------------------------------- schedules
def positions(ctx, length):
    """steps of interest around the boundaries of a schedule"""
    s = {0, 1, 2, length - 1, length, length + 1, length + 2, 2 * length, 3 * length + 1}
    s |= set(ctx.rng.integers(0, 4 * length + 3, size=6).tolist())
    return sorted(v for v in s if v >= 0)


@suite.scenario(quick=60, thorough=1500)
def schedules(ctx):
    kind = ctx.choice(["constant", "cosine", "polynomial", "burnin", "cyclical"])
    e0 = float(ctx.choice([0.0, 1e-6, 1e-3, 0.3]))
    n = ctx.choice([1, 2, 3, 7, 100])
    burn = ctx.choice([0, 1, 4, 50])
    ctx.note(kind=kind, init=e0, length=n, burnin=burn)
    steps = positions(ctx, max(n, burn))
    if kind == "constant":
        f, want = constant_schedule(e0), lambda t: e0
    elif kind == "cosine":
        f, want = cosine_schedule(e0, n), lambda t: 0.5 * e0 * (1 + np.cos(np.pi * t / n))
        steps = [t for t in steps if t <= n]
    elif kind == "polynomial":
        a, b, g = float(ctx.rng.uniform(1e-4, 1)), float(ctx.rng.uniform(0.5, 50)), float(ctx.rng.uniform(0.501, 1.0))
        f, want = polynomial_schedule(a, b, g), lambda t: a * (b + t) ** (-g)
    elif kind == "burnin":
        e1 = float(ctx.choice([0.0, 1e-5, 0.1]))
        f = constant_schedule_with_cosine_burnin(e0, e1, burn)
        if burn == 0:
            ctx.event("zero-burnin")

        def want(t):
            c = 0.5 * (1 + np.cos(np.pi * min(t / burn, 1.0))) if burn else 0.0
            return c * e0 + (1 - c) * e1
    else:
        f = cyclical_cosine_schedule_with_const_burnin(e0, burn, n)
        want = lambda t: 0.5 * e0 * (1 + np.cos(np.pi * ((max(t - burn - 1, 0) % n) / n)))
    jf = jax.jit(f)
    got = [float(np.asarray(f(t))) for t in steps]
    traced = [float(np.asarray(jf(jnp.asarray(t, jnp.int32)))) for t in steps]
    ctx.key(kind, np.array(got))
    ctx.check(np.all(np.isfinite(got)), "step-size-finite", f"{kind} at {steps}: {got}", fatal=True)
    ctx.close(got, [want(t) for t in steps], "step-size-formula", rtol=1e-3, atol=1e-6 * max(e0, 1e-9))
    ctx.close(traced, got, "step-size-under-jit", rtol=1e-4, atol=1e-6 * max(e0, 1e-9))
    ctx.check(min(got) >= -1e-9, "step-size-non-negative", f"{got}")


@suite.scenario(quick=4, thorough=20)
def invalid_schedules(ctx):
    bad = -float(ctx.rng.uniform(1e-9, 1))
    for f in (lambda: constant_schedule(bad), lambda: cosine_schedule(bad, 3), lambda: cosine_schedule(0.1, 0),
              lambda: cosine_schedule(0.1, -3), lambda: polynomial_schedule(gamma=0.5), lambda: polynomial_schedule(gamma=1.01),
              lambda: constant_schedule_with_cosine_burnin(bad, 0.1, 3), lambda: constant_schedule_with_cosine_burnin(0.1, bad, 3),
              lambda: constant_schedule_with_cosine_burnin(0.1, 0.1, -1), lambda: constant_schedule(float("nan")),
              lambda: cyclical_cosine_schedule_with_const_burnin(bad, 1, 3), lambda: cyclical_cosine_schedule_with_const_burnin(0.1, -1, 3),
              lambda: SGHMCPosteriorApproximator(step_schedule="fast")):
        ctx.raises(ValueError, f, "invalid-schedule-rejected")
    ctx.key(bad)


# ------------------------------------------------------------------------------------------------- preconditioners
def gradients(ctx, steps, scale=1.0):
    sh = ctx.choice([{"a": (2, 3), "b": (4,)}, {"a": (5,), "b": (1, 2)}])
    return [{"m": {"a": jnp.asarray(scale * ctx.rng.normal(size=sh["a"]), jnp.float32)},
             "b": jnp.asarray(scale * ctx.rng.normal(size=sh["b"]), jnp.float32)} for _ in range(steps)]


class P:
    """numpy twin of the two preconditioners"""

    def __init__(self, rms, a=0.99, eps=1e-7):
        self.rms, self.a, self.eps = rms, a, eps
        self.e = 0.0

    def update(self, g):
        self.e = self.a * self.e + (1 - self.a) * g ** 2

    def m(self, p):
        return (self.eps + np.sqrt(self.e)) ** p if self.rms else 1.0


def preconditioner(ctx):
    if ctx.rng.random() < 0.35:
        return identity_preconditioner(), P(False)
    a, eps = float(ctx.choice([0.99, 0.9, 0.5])), float(ctx.choice([1e-7, 1e-3, 0.1]))
    ctx.event("rmsprop")
    return rmsprop_preconditioner(a, eps), P(True, a, eps)


@suite.scenario(quick=16, thorough=400)
def preconditioners(ctx):
    pre, ref = preconditioner(ctx)
    gs = gradients(ctx, 4, float(10 ** ctx.rng.uniform(-2, 2)))
    v = gradients(ctx, 1)[0]
    if v["b"].shape != gs[0]["b"].shape:
        v = tmap(lambda x: x * 0 + 1, gs[0])
    s = pre.init(gs[0])
    for g in gs:
        s = pre.update_preconditioner(g, s)
        ref.update(flat(g))
        ctx.close(flat(pre.multiply_by_m_sqrt(v, s)), flat(v) * ref.m(0.5), "multiply-by-sqrt", rtol=1e-3)
        ctx.close(flat(pre.multiply_by_m_inv(v, s)), flat(v) * ref.m(-1), "multiply-by-inverse", rtol=1e-3)
        ctx.close(flat(pre.multiply_by_m_sqrt_inv(v, s)), flat(v) * ref.m(-0.5), "multiply-by-inverse-sqrt", rtol=1e-3)
    ctx.key(flat(gs[-1]), ref.m(-1))


# --------------------------------------------------------------------------------------------------- integrators
def play(tx, gs):
    s = tx.init(gs[0])
    upd = jax.jit(tx.update)
    out = []
    for g in gs:
        u, s = upd(g, s)
        out.append(flat(u))
    return np.array(out), s


def gaussian(ctx, z, mech):
    """the recovered noise is standard normal, and uncorrelated across steps and coordinates"""
    z = np.asarray(z)
    ctx.event("noise-draws", z.size)
    n = z.size
    ctx.check(np.all(np.isfinite(z)), mech + "-finite", fatal=True)
    ctx.check(abs(z.mean()) * np.sqrt(n) < 6.5, mech + "-mean", f"mean {z.mean()} over {n}")
    ctx.check(abs((z ** 2).mean() - 1) * np.sqrt(n / 2) < 6.5, mech + "-variance", f"second moment {(z**2).mean()} over {n}")
    if len(z) > 4:
        lag = (z[1:] * z[:-1])
        ctx.check(abs(lag.mean()) * np.sqrt(lag.size) < 6.5, mech + "-independent-across-steps", f"{lag.mean()}")
    ctx.check(len(np.unique(np.round(z, 6))) > 0.98 * n, mech + "-distinct-draws", f"{len(np.unique(np.round(z, 6)))} of {n}")
    for k in range(1, min(4, z.shape[1])):
        pr = z[:, k:] * z[:, :-k]
        ctx.check(abs(pr.mean()) * np.sqrt(pr.size) < 6.5, mech + "-independent-across-coordinates", f"lag {k}: {pr.mean()}")


@suite.scenario(quick=14, thorough=250)
def sghmc_recurrence(ctx):
    """noise recovered with and without gradients must coincide, and be standard normal"""
    pre, ref = preconditioner(ctx)
    decay = float(ctx.choice([0.0, 0.01, 0.5, 0.9]))
    e0 = float(ctx.choice([1e-4, 1e-2, 0.2]))
    resample = ctx.choice([None, None, 1, 3, 5])
    eps = ctx.choice([lambda t: e0, lambda t: e0 / (1.0 + t)])
    gs = gradients(ctx, 40, float(ctx.choice([1.0, 10.0])))
    ctx.note(decay=decay, step=e0, resample=resample, rmsprop=ref.rms)
    key = jax.random.PRNGKey(ctx.integers(0, 10**6))
    tx = sghmc_integrator(decay, resample, key, eps, pre)
    got, s = play(tx, gs)
    ctx.check(int(s.count) == len(gs), "step-count")
    m, z = 0.0, []
    for t, (u, g) in enumerate(zip(got, gs)):
        g = flat(g)
        ref.update(g)
        e = float(np.asarray(eps(t)))
        if resample is not None and t % resample == 0:
            m = 0.0
        new = u / np.sqrt(e) * ref.m(1)
        z.append((new - decay * m - g * np.sqrt(e)) / np.sqrt(2 * (1 - decay)) / ref.m(0.5))
        m = new
    z = np.array(z)
    # same key, no gradients, plain preconditioner: the same noise
    plain, _ = play(sghmc_integrator(0.0, None, key, constant_schedule(1.0), identity_preconditioner()), [tmap(jnp.zeros_like, g) for g in gs])
    z0 = plain / np.sqrt(2)
    gaussian(ctx, z0, "noise")
    ctx.close(z, z0, "recurrence", rtol=0, atol=5e-2, msg="noise implied by the updates")
    again, _ = play(tx, gs)
    ctx.equal(again, got, "deterministic-given-key")
    other, _ = play(sghmc_integrator(decay, resample, jax.random.PRNGKey(10**7), eps, pre), gs)
    ctx.check(not np.allclose(other, got), "key-is-used")
    ctx.key(got)


@suite.scenario(quick=14, thorough=250)
def cyclical_recurrence(ctx):
    pre, ref = preconditioner(ctx)
    cyc, ratio = ctx.choice([(5, 0.4), (4, 0.5), (8, 0.25), (3, 0.0), (6, 1.0), (1, 0.5)])
    e0 = float(ctx.choice([1e-3, 0.1]))
    gs = gradients(ctx, 30, float(ctx.choice([1.0, 10.0])))
    ctx.note(cycle=cyc, ratio=ratio, step=e0, rmsprop=ref.rms)
    key = jax.random.PRNGKey(ctx.integers(0, 10**6))
    got, _ = play(cyclical_sgld_integrator(key, e0, cyc, ratio, pre), gs)
    eps = lambda t: 0.5 * e0 * (1 + np.cos(np.pi * ((max(t - 1, 0) % cyc) / cyc)))
    z = []
    for t, (u, g) in enumerate(zip(got, gs)):
        g = flat(g)
        ref.update(g)
        e = eps(t)
        drift = e * g * ref.m(-1)
        if (t % cyc) / cyc >= ratio:
            ctx.event("sgld-steps")
            z.append((u - drift) / np.sqrt(2 * e) / ref.m(-0.5))
        else:
            ctx.event("sgd-steps")
            ctx.close(u, drift, "exploration-step-is-noiseless", rtol=1e-3, atol=1e-5 * e0 * max(1, np.abs(g).max()), msg=f"step {t}")
    if z:
        plain, _ = play(sghmc_integrator(0.0, None, key, constant_schedule(1.0), identity_preconditioner()),
                        [tmap(jnp.zeros_like, g) for g in gs[: len(z)]])
        gaussian(ctx, z, "langevin-noise")
        ctx.check(np.isfinite(plain).all(), "finite")
    ctx.key(got)


# --------------------------------------------------------------------------------------------------- sampled chains
class Spy:
    """adds a recorder to every training run started while it is active"""

    def __enter__(self):
        self.rec, self.train = T.Recorder(), TrainerABC.train
        spy = self

        def train(me, *a, callbacks=None, **kw):
            return spy.train(me, *a, callbacks=list(callbacks or []) + [spy.rec], **kw)

        TrainerABC.train = train
        return self.rec

    def __exit__(self, *a):
        TrainerABC.train = self.train


def frozen(path, v):
    return "trainable" if "output_subnet" in path else "frozen"


@suite.scenario(quick=22, thorough=160)
def chains(ctx):
    algo = ["sghmc", "cyclical"][ctx.i % 2]
    n_batches, epochs = ctx.choice([1, 2, 3]), ctx.choice([3, 4, 6])
    total = n_batches * epochs
    thin, n_samples = ctx.choice([1, 1, 2, 3]), ctx.choice([1, 2, 3, 5])
    enough = lambda due: n_samples if ctx.i % 5 == 3 else max(1, min(n_samples, len(due)))  # most budgets suffice
    if algo == "sghmc":
        burn = ctx.choice([0, 1, 3, total - 1])
        due = [t for t in range(1, total + 1) if t > burn and (t - burn) % thin == 0]
        n_samples = enough(due)
        ap = SGHMCPosteriorApproximator(n_samples=n_samples, n_thinning=thin, burnin_length=burn, momentum_decay=ctx.choice([0.01, 0.5]),
                                        step_schedule=1e-4)
        ctx.note(burnin=burn)
    else:
        cyc, ratio = ctx.choice([(2, 0.5), (3, 0.3), (4, 0.5), (5, 0.2), (6, 0.9)])
        due = [t for t in range(1, total + 1) if (t % cyc) / cyc >= ratio and (t % cyc) % thin == 0]
        n_samples = enough(due)
        ap = CyclicalSGLDPosteriorApproximator(n_samples=n_samples, n_thinning=thin, cycle_length=cyc, exploration_ratio=ratio, init_step_size=1e-4)
        ctx.note(cycle=cyc, ratio=ratio)
    freeze = frozen if ctx.i % 3 == 0 else None
    ctx.note(algorithm=algo, steps=total, thinning=thin, n_samples=n_samples, due=due, frozen=freeze is not None)
    pm = T.make("cls", 2, approx=ap, seed=ctx.integers(0, 1000))
    x, y = T.data(ctx, "cls", 2, 4 * n_batches)
    ld = T.loader((x, y), 4)
    cfg = T.config(None, epochs, freeze_fun=freeze)
    map_cfg = T.config(optax.adam(1e-2), 1) if freeze else None
    go = lambda: pm.train(ld, fit_config=cfg, **({"map_fit_config": map_cfg} if freeze else {}))
    if len(due) < n_samples:
        ctx.event("rejected-budget")
        ctx.raises(ValueError, go, "insufficient-budget-rejected", f"{len(due)} samples are due, {n_samples} requested")
        ctx.key(algo, total, thin, n_samples, tuple(due))
        return
    with Spy() as rec:
        go()
    ctx.event(algo + "-run")
    steps = {t: p for e, t, p in rec.log if e == "step"}
    runs = [i for i, (e, t, p) in enumerate(rec.log) if e == "step" and t == 1]
    log = rec.log[runs[-1]:]  # the last training run: the chain (a MAP run may come first)
    steps = {}
    for k, (t, p) in enumerate([(t, p) for e, t, p in log if e == "step"], 1):
        steps[k] = p
    ctx.check(sorted(steps) == list(range(1, total + 1)), "every-step-runs", f"{sorted(steps)}", fatal=True)
    got = pm.posterior.state.get()
    ctx.check(len(got) == n_samples, "number-of-samples", f"{len(got)}", fatal=True)
    for i, st in enumerate(got):
        a, b = T.flat_dict(st.params), T.flat_dict(steps[due[i]])
        if freeze:
            ctx.event("frozen-run")
            ctx.check(set(b) <= set(a), "frozen-chain-trains-a-subset")
            ctx.check(all("output_subnet" in k for k in b), "only-trainable-parameters-move", f"{list(b)}")
        else:
            ctx.check(a.keys() == b.keys(), "sample-has-every-parameter")
        ctx.check(all(np.array_equal(a[k], b[k]) for k in b), "sample-is-the-scheduled-state", f"sample {i}, due at step {due[i]}")
        one = T.flat_dict(pm.posterior.state.get(i=i).params)
        ctx.check(all(np.array_equal(a[k], one[k]) for k in a), "get-one-equals-get-all")
    if freeze:
        base = T.flat_dict(got[0].params)
        for st in got[1:]:
            o = T.flat_dict(st.params)
            ctx.check(all(np.array_equal(base[k], o[k]) for k in o if "output_subnet" not in k), "frozen-parameters-shared")
    ctx.check(len({flat(s.params).tobytes() for s in got}) == n_samples, "samples-differ")
    drawn = {flat(pm.posterior.sample(rng=jax.random.PRNGKey(k)).params).tobytes() for k in range(6 * n_samples)}
    ctx.check(drawn <= {flat(s.params).tobytes() for s in got}, "posterior-sample-is-a-member")
    ctx.check(n_samples == 1 or len(drawn) > 1, "every-member-reachable", f"{len(drawn)} of {n_samples}")
    ctx.key(*[flat(s.params) for s in got])


@suite.scenario(quick=4, thorough=40)
def chain_follows_the_log_joint(ctx):
    """the noise implied by the recorded chain and the gradients of the log joint density is standard normal"""
    algo = ctx.choice(["sghmc", "cyclical"])
    kind = ctx.choice(["cls", "reg"])
    dim = 2 if kind == "cls" else 1
    nb, epochs, e0, decay = 2, 20, 2e-3, float(ctx.choice([0.0, 0.3]))
    if algo == "sghmc":
        ap = SGHMCPosteriorApproximator(n_samples=1, burnin_length=5, momentum_decay=decay, step_schedule=e0)
    else:
        decay = 0.0
        ap = CyclicalSGLDPosteriorApproximator(n_samples=1, cycle_length=5, exploration_ratio=0.4, init_step_size=e0)
    pm = T.make(kind, dim, approx=ap, seed=ctx.integers(0, 1000))
    x, y = T.data(ctx, kind, dim, 4 * nb)
    ctx.note(algorithm=algo, kind=kind, decay=decay)
    with Spy() as rec:
        pm.train(T.loader((x, y), 4), fit_config=T.config(None, epochs))
    ps = [rec.log[0][2]] + [p for e, t, p in rec.log if e == "step"]
    ctx.check(len(ps) == nb * epochs + 1, "every-step-runs", fatal=True)
    ref = T.reference_loss(pm, kind)
    m, z, drift = 0.0, [], []
    for t in range(nb * epochs):
        sl = slice((t % nb) * 4, (t % nb) * 4 + 4)
        _, g = ref(tmap(jnp.asarray, ps[t]), x[sl], y[sl], float(4 * nb))
        g = -flat(g)
        d = flat(ps[t + 1]) - flat(ps[t])
        if algo == "sghmc":
            new = d / np.sqrt(e0)
            z.append((new - decay * m - g * np.sqrt(e0)) / np.sqrt(2 * (1 - decay)))
            m = new
        else:
            e = 0.5 * e0 * (1 + np.cos(np.pi * ((max(t - 1, 0) % 5) / 5)))
            if (t % 5) / 5 >= 0.4:
                z.append((d - e * g) / np.sqrt(2 * e))
                ctx.event("sgld-steps")
            else:
                ctx.event("sgd-steps")
                ctx.close(d, e * g, "exploration-follows-the-gradient", rtol=5e-3, atol=1e-5, msg=f"step {t}")
        drift.append(np.abs(g).mean())
    gaussian(ctx, z, "implied-noise")
    ctx.key(*z[:3])
