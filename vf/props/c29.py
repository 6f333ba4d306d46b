import os
import shutil
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.prob_model import DeepEnsemblePosteriorApproximator, SGHMCPosteriorApproximator
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository import SGMCMCPosteriorStateRepository
from vf.core import Suite
from vf.props import trainrig as T

suite = Suite(
    "C29",
    rule="case = history of put/get/pull/update/extract operations on a repository in memory or on disk, or a trained ensemble; "
         "distinct = distinct histories and ensembles",
    assumptions=["on disk the newest step is the current state, saving a step discards newer ones and keeps the last k; "
                 "in memory pulling leaves the state in place"],
    required={"disk": 6, "memory": 6, "multi": 5, "partial": 4, "update": 20, "pull": 10, "ensemble": 2},
)
FIELDS = ("params", "mutable", "calib_params", "calib_mutable")


def arr(ctx):
    return jnp.asarray(ctx.rng.normal(size=ctx.choice([(), (3,), (2, 2)])), jnp.float32)


def fresh(ctx, step, cls=MAPState, which=None):
    params = FrozenDict({"model": {"params": {"l1": {"kernel": arr(ctx), "bias": arr(ctx)}, "head": {"kernel": arr(ctx)}}}})
    opt = lambda p=0.5: FrozenDict({"m": {"v": arr(ctx)}}) if ctx.rng.random() < p else None
    kw = dict(params=params, mutable=opt(), calib_params=opt(), calib_mutable=opt(), optimizer=optax.sgd(0.1), step=step)
    if cls is SGHMCState:
        from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy as enc
        kw["_encoded_which_params"] = enc(which)
    return cls.init(**kw)


def snap(state):
    d = {"step": int(state.step), "type": type(state).__name__}
    for f in FIELDS:
        v = getattr(state, f)
        d[f] = None if v is None else {k: np.array(a) for k, a in T.flat_dict(v).items()}
    return d


def diff(a, b):
    out = []
    for k in b:
        x, y = a[k], b[k]
        if isinstance(y, dict) or isinstance(x, dict):
            if x is None or y is None or x.keys() != y.keys() or not all(np.array_equal(x[i], y[i]) for i in y):
                out.append(k)
        elif x != y:
            out.append(k)
    return out


class Slot:
    """what one index of a repository should hold"""

    def __init__(self, disk):
        self.disk, self.d = disk, {}

    def put(self, s, keep):
        if not self.disk:
            self.d = {0: s}
            return
        self.d = {k: v for k, v in self.d.items() if k < s["step"]}
        self.d[s["step"]] = s
        self.d = {k: self.d[k] for k in sorted(self.d)[-keep:]}

    def get(self):
        return self.d[max(self.d)] if self.d else None

    def pull(self):
        s = self.get()
        if s is not None and self.disk:
            del self.d[max(self.d)]
        return s

    def update(self, variables, keep):
        s = dict(self.pull() if not self.disk else self.get(), **variables)
        self.put(s, keep)


def history(ctx, repo, slots, root, which=None, base=None):
    """drives the repository with a random history and compares every answer with the model"""
    multi = len(slots) > 1 or not isinstance(repo, PosteriorStateRepository)
    cls = SGHMCState if which is not None else MAPState
    ops = []
    step = 0
    for _ in range(ctx.choice([6, 12, 20])):
        i = ctx.integers(0, len(slots) - 1)
        everyone = multi and ctx.rng.random() < 0.2
        idx = range(len(slots)) if everyone else [i]
        ikw = {} if not multi or everyone else {"i": i}
        op = ctx.choice(["put", "put", "put", "get", "get", "pull", "update", "update", "extract"])
        missing = any(slots[j].get() is None for j in idx)
        if missing and op != "put":
            if everyone:
                continue
            ops.append((op, i, "missing"))
            f = {"get": lambda: repo.get(**ikw), "pull": lambda: repo.pull(**ikw),
                 "update": lambda: repo.update({"mutable": None}, **ikw), "extract": lambda: repo.extract(["params"], **ikw)}[op]
            ctx.raises(ValueError, f, "missing-state-rejected", f"{op} at index {i}")
            continue
        ops.append((op, -1 if everyone else i))
        ctx.event(op)
        if op == "put":
            step = max(0, step + ctx.choice([1, 1, 1, 0, -1, 3]))
            keep = ctx.choice([1, 1, 2, 3])
            s = fresh(ctx, step, cls, which)
            if which is not None:  # only the selected parameters are stored, the rest is shared
                s = s.replace(params=merge(base, s.params, which))
            before = snap(s)
            repo.put(s, keep=keep, **ikw)
            ctx.check(not diff(snap(s), before), "put-leaves-its-argument-alone")
            for j in idx:
                slots[j].put(before, keep)
        elif op in ("get", "pull"):
            out = getattr(repo, op)(**ikw)
            out = list(out) if everyone else [out]
            ctx.check(len(out) == len(list(idx)), "one-state-per-index", f"{len(out)}")
            for j, st in zip(idx, out):
                want = slots[j].pull() if op == "pull" else slots[j].get()
                bad = diff(snap(st), want)
                ctx.check(not bad, "returns-the-latest-state", f"{op} index {j}: fields {bad} differ; step {st.step} vs {want['step']}; history {ops}")
        elif op == "update":
            v = {}
            for f in ("mutable", "calib_params", "calib_mutable"):
                if ctx.rng.random() < 0.6:
                    v[f] = FrozenDict({"n": {"w": arr(ctx)}}) if ctx.rng.random() < 0.8 else None
            keep = ctx.choice([1, 2])
            repo.update(v, keep=keep, **ikw)
            for j in idx:
                slots[j].update({k: None if x is None else {p: np.array(a) for p, a in T.flat_dict(x).items()} for k, x in v.items()}, keep)
        else:
            keys = list(ctx.rng.permutation(["params", "mutable", "calib_params", "calib_mutable", "step"])[: ctx.integers(1, 4)])
            keys = [str(k) for k in keys]
            out = repo.extract(keys, **ikw)
            for j, d in zip(idx, out if everyone else [out]):
                ctx.check(set(d) == set(keys), "extract-exactly-the-keys", f"{set(d)}")
                want = slots[j].get()
                for k in keys:
                    g = d[k]
                    g = int(g) if k == "step" else (None if g is None else T.flat_dict(g))
                    ctx.check(not diff({k: g}, {k: want[k]}), "extract-returns-the-latest-state", f"{k} at index {j}; history {ops}")
        if ctx.violations:
            break
    for j, sl in enumerate(slots):
        kw = {"i": j} if multi else {}
        if sl.get() is None:
            ctx.raises(ValueError, lambda: repo.get(**kw), "missing-state-rejected")
        else:
            ctx.check(not diff(snap(repo.get(**kw)), sl.get()), "final-state", f"index {j}; history {ops}")
            ctx.check(not diff(snap(repo.get(**kw)), sl.get()), "reading-twice", f"index {j}")
        if sl.disk and root is not None:
            d = os.path.join(root, str(j)) if multi else root
            files = sorted(f for f in os.listdir(d)) if os.path.isdir(d) else []
            ctx.check(sorted(files) == sorted(f"checkpoint_{k}" for k in sl.d), "files-on-disk", f"{files} vs {sorted(sl.d)}; history {ops}")
    ctx.note(history=[f"{o[0]}@{o[1]}" for o in ops])
    ctx.key(str(ops), step)


def merge(base, params, which):
    from flax.traverse_util import flatten_dict, unflatten_dict
    a, b = flatten_dict(base.unfreeze()), flatten_dict(params.unfreeze())
    return FrozenDict(unflatten_dict({k: b[k] if list(k) in [list(w) for w in which] else a[k] for k in a}))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf29-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


@suite.scenario(quick=24, thorough=500)
def single(ctx):
    disk = ctx.rng.random() < 0.5
    ctx.event("disk" if disk else "memory")
    with Scratch() as d:
        root = os.path.join(d, "r") if disk else None
        history(ctx, PosteriorStateRepository(checkpoint_dir=root), [Slot(disk)], root)


@suite.scenario(quick=24, thorough=500)
def several(ctx):
    disk = ctx.rng.random() < 0.5
    ctx.event("disk" if disk else "memory")
    ctx.event("multi")
    n = ctx.choice([1, 2, 4])
    with Scratch() as d:
        root = os.path.join(d, "r") if disk else None
        history(ctx, PosteriorMultiStateRepository(size=n, checkpoint_dir=root), [Slot(disk) for _ in range(n)], root)


@suite.scenario(quick=16, thorough=300)
def partial_parameters(ctx):
    """the repository of sampled chains stores only the trained parameters and returns full states"""
    disk = ctx.rng.random() < 0.5
    ctx.event("disk" if disk else "memory")
    ctx.event("partial")
    n = ctx.choice([1, 3])
    paths = [["model", "params", "l1", "kernel"], ["model", "params", "l1", "bias"], ["model", "params", "head", "kernel"]]
    which = tuple(paths[i] for i in ctx.rng.permutation(3)[: ctx.choice([1, 2, 3])])
    base = fresh(ctx, 0).params
    with Scratch() as d:
        root = os.path.join(d, "r") if disk else None
        repo = SGMCMCPosteriorStateRepository(size=n, checkpoint_dir=root, all_params=base, which_params=which)
        history(ctx, repo, [Slot(disk) for _ in range(n)], root, which, base)


@suite.scenario(quick=6, thorough=60)
def copies(ctx):
    """an explicit path is honoured, and two repositories never share states"""
    with Scratch() as d:
        a, b = PosteriorStateRepository(), PosteriorStateRepository(checkpoint_dir=os.path.join(d, "b"))
        s, t = fresh(ctx, 3), fresh(ctx, 5)
        a.put(s)
        b.put(t)
        a.put(t, checkpoint_path=os.path.join(d, "c"))
        ctx.check(not diff(snap(a.get()), snap(s)), "memory-unaffected-by-a-path")
        ctx.check(not diff(snap(a.get(checkpoint_path=os.path.join(d, "c"))), snap(t)), "explicit-path")
        ctx.check(not diff(snap(b.get()), snap(t)), "repositories-independent")
        got = a.get()
        a.put(t)
        ctx.check(not diff(snap(got), snap(s)), "returned-state-is-a-copy")
        c = a.extract_calib_keys()
        ctx.check(set(c) == {"calib_params", "calib_mutable"}, "calibration-keys")
        ctx.raises(ValueError, lambda: PosteriorStateRepository().get(), "empty-repository")
        ctx.raises(ValueError, lambda: PosteriorStateRepository(checkpoint_dir=os.path.join(d, "none")).get(), "empty-directory")
    ctx.key(snap(s)["params"][("model", "params", "l1", "kernel")])


@suite.scenario(quick=5, thorough=60)
def ensembles(ctx):
    size = ctx.choice([1, 2, 3, 5])
    net = ctx.rng.random() < 0.5
    model = T.Net(2, 0.2) if net else None
    pm = T.make("cls", 2, approx=DeepEnsemblePosteriorApproximator(ensemble_size=size), seed=ctx.integers(0, 1000), model=model)
    x, y = T.data(ctx, "cls", 2, 8)
    frz = (lambda p, v: "trainable" if "output_subnet" in p else "frozen") if not net and ctx.rng.random() < 0.4 else None
    cfg = T.config(optax.adam(1e-2), 2, freeze_fun=frz)
    kw = {"map_fit_config": T.config(optax.adam(1e-2), 2)} if frz else {}
    st = pm.train(T.loader((x, y), 4), fit_config=cfg, **kw)["fit_status"]
    ctx.event("ensemble")
    ctx.note(size=size, batch_statistics=net, frozen=frz is not None)
    members = [snap(s) for s in pm.posterior.state.get()]
    ctx.check(len(members) == size, "number-of-members", fatal=True)
    if not frz:
        ctx.check(len(st) == size, "one-status-per-member", f"{len(st)}")
    keys = [np.concatenate([v.reshape(-1) for v in m["params"].values()]).tobytes() for m in members]
    ctx.check(len(set(keys)) == size, "members-differ")
    if frz:
        for m in members[1:]:
            ctx.check(all(np.array_equal(v, members[0]["params"][k]) for k, v in m["params"].items() if "output_subnet" not in k), "frozen-parameters-shared")
    n = 60 * size
    count = np.zeros(size)
    for k in range(n):
        rng = jax.random.fold_in(jax.random.PRNGKey(ctx.i), k)
        s = pm.posterior.sample(rng=rng)
        p = {f: None if getattr(s, f) is None else T.flat_dict(getattr(s, f)) for f in FIELDS}
        hit = [j for j, m in enumerate(members) if not diff(p, {f: m[f] for f in FIELDS})]
        if not ctx.check(len(hit) == 1, "sample-is-one-member-in-full", f"matches {hit}"):
            return
        count[hit[0]] += 1
        if k < 5:
            s2 = pm.posterior.sample(rng=rng)
            ctx.check(T.same_tree(s.params, s2.params), "sample-deterministic")
    chi = float(((count - n / size) ** 2 / (n / size)).sum())
    ctx.check(chi < 30 + 6 * size, "members-equally-likely", f"{count}")
    ctx.key(*keys)
