"""A fitted probabilistic model whose posterior draws are observed at run time.

`posterior.sample` of a real ProbClassifier / ProbRegressor is replaced by one that picks one of K
known members from the key and reports the pick through a host callback, so the oracle knows which
members every predictive statistic really averaged, per batch shard, however the code schedules it.
"""
import os

os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=2 " + os.environ.get("XLA_FLAGS", "")

from collections import defaultdict  # noqa: E402

import flax.linen as nn  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from flax.core import FrozenDict  # noqa: E402
from scipy import special, stats  # noqa: E402

from fortuna.data.loader import DataLoader, InputsLoader  # noqa: E402
from fortuna.model.mlp import MLP  # noqa: E402
from fortuna.prob_model import MAPPosteriorApproximator, ProbClassifier, ProbRegressor  # noqa: E402
from fortuna.prob_model.joint.state import JointState  # noqa: E402

_pm = {}


def prob_model(kind, dim):
    if (kind, dim) not in _pm:
        m = MLP(dim, widths=(4,), activations=(nn.tanh,))
        if kind == "cls":
            pm = ProbClassifier(model=m, posterior_approximator=MAPPosteriorApproximator())
        else:
            pm = ProbRegressor(model=m, likelihood_log_variance_model=MLP(dim, widths=(3,), activations=(nn.tanh,)),
                               posterior_approximator=MAPPosteriorApproximator())
        _pm[kind, dim] = (pm, pm.joint.init((3,)))
    return _pm[kind, dim]


class Rig:
    def __init__(self, ctx, kind, dim, members=4, scale=1.0, n=None, bs=None, n_dev_ok=True, log_var_shift=0.0):
        self.kind, self.dim, self.K = kind, dim, members
        pm, st = prob_model(kind, dim)
        self.pm = pm
        g = ctx.rng
        self.params = jax.tree_util.tree_map(
            lambda v: jnp.asarray(g.normal(size=(members, *v.shape)) * 0.8 * scale, v.dtype), st.params)
        if kind == "reg":
            b = self.params.unfreeze()
            last = jax.tree_util.tree_map(lambda v: v / scale * 0.6, b["lik_log_var"]["params"])
            head = last["output_subnet"]
            for k in head:
                head[k]["bias"] = head[k]["bias"] + log_var_shift
            b["lik_log_var"]["params"] = last
            self.params = FrozenDict(b)
        self.temps = np.float32(g.normal(size=members) * 0.4)
        self.n = n or ctx.choice([2, 6, 8, 12])
        self.bs = bs or ctx.choice([2, 4, 12])
        self.x = g.normal(size=(self.n, 3)).astype("float32")
        ids = np.arange(self.n)
        self.x[:, 0] = ids / 8.0  # the first coordinate identifies the row
        self.y = g.integers(0, dim, size=self.n) if kind == "cls" else g.normal(size=(self.n, dim)).astype("float32")
        sizes = [min(self.bs, self.n - i) for i in range(0, self.n, self.bs)]
        even = all(s % 2 == 0 for s in sizes)
        self.distribute = bool(even and n_dev_ok and g.random() < 0.5)
        self.key = jax.random.PRNGKey(int(g.integers(0, 2 ** 31 - 1)))
        self.log = []
        self.outs = self._outputs()
        pm.posterior.sample = self.sample
        pm.predictive.posterior.sample = self.sample
        ctx.note(kind=kind, dim=dim, members=members, n=self.n, batch_size=self.bs, distribute=self.distribute,
                 key=np.asarray(self.key))
        if self.distribute:
            ctx.event("distributed")
        if len(sizes) > 1:
            ctx.event("several-batches")

    # -- the observed posterior
    def sample(self, rng=None, *a, inputs=None, **kw):
        if rng is None:
            rng = self.pm.posterior.rng.get()
        idx = jax.random.randint(rng, (), 0, self.K)
        tag = inputs.reshape(-1)[0] if inputs is not None else jnp.float32(-1.0)
        jax.debug.callback(lambda i, t: self.log.append((round(float(t) * 8), int(i))), idx, tag)
        pick = lambda v: v[idx]
        return JointState(
            params=jax.tree_util.tree_map(pick, self.params),
            calib_params=FrozenDict(output_calibrator=FrozenDict(
                params=FrozenDict(log_temp=jnp.asarray(self.temps)[idx][None]))),
            calib_mutable=FrozenDict(output_calibrator=None))

    def observe(self, fn):
        """runs fn and returns (result, {first row of shard: [members drawn]})"""
        jax.effects_barrier()
        self.log.clear()
        res = fn()
        res = jax.tree_util.tree_map(lambda v: v, res)
        jax.block_until_ready(jax.tree_util.tree_leaves(res))
        jax.effects_barrier()
        d = defaultdict(list)
        for t, i in self.log:
            d[t].append(i)
        return res, dict(d)

    # -- reference
    def _outputs(self):
        """calibrated and raw outputs of every member, one example at a time in float64-friendly numpy"""
        mm = self.pm.joint.likelihood.model_manager
        raw = []
        for k in range(self.K):
            p = jax.tree_util.tree_map(lambda v: v[k], self.params)
            o = np.asarray(mm.model.apply(p["model"], self.x), float)
            if self.kind == "reg":
                o = np.concatenate([o, np.asarray(mm.likelihood_log_variance_model.apply(p["lik_log_var"], self.x), float)], -1)
            raw.append(o)
        self.raw = np.array(raw)
        out = self.raw.copy()
        if self.kind == "cls":
            out *= np.exp(-self.temps.astype(float))[:, None, None]
        else:
            out[..., self.dim:] += self.temps.astype(float)[:, None, None]
        return out

    def logp(self, y=None):
        y = self.y if y is None else y
        if self.kind == "cls":
            lp = special.log_softmax(self.outs, -1)
            return lp[:, np.arange(self.n), y]
        return stats.norm.logpdf(y, self.outs[..., :self.dim], np.exp(self.outs[..., self.dim:] / 2)).sum(-1)

    def means(self):
        return special.softmax(self.outs, -1) if self.kind == "cls" else self.outs[..., :self.dim]

    def variances(self):
        if self.kind == "cls":
            p = self.means()
            return p * (1 - p)
        return np.exp(self.outs[..., self.dim:])

    def shards(self):
        """first row -> rows of the shard, as the code is documented to deliver them"""
        out = {}
        for i in range(0, self.n, self.bs):
            rows = np.arange(i, min(i + self.bs, self.n))
            for part in np.split(rows, 2) if self.distribute else [rows]:
                out[int(part[0])] = part
        return out

    def per_row(self, drawn, per_member):
        """per_member: (K, N, ...) -> list over rows of the (S, ...) values really drawn for that row"""
        res = [None] * self.n
        for t, rows in self.shards().items():
            for r in rows:
                res[r] = per_member[drawn.get(t, [])][:, r]
        return res

    def monitor_draws(self, ctx, drawn, m, mech="draw-count"):
        want = {t: m for t in self.shards()}
        got = {t: len(v) for t, v in drawn.items()}
        ctx.event("draws", sum(got.values()))
        return ctx.check(got == want, mech, f"posterior draws per shard {got}, want {want}", fatal=True)

    def loaders(self):
        return (DataLoader.from_array_data((self.x, self.y), batch_size=self.bs),
                InputsLoader.from_array_inputs(self.x, batch_size=self.bs))
