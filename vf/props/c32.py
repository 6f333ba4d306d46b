import copy

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict
from flax.serialization import msgpack_restore, msgpack_serialize, to_state_dict
from flax.traverse_util import flatten_dict, unflatten_dict

from fortuna.utils.freeze import freeze_optimizer, get_frozen_paths, get_paths_with_label, get_trainable_paths
from fortuna.utils.nested_dicts import (find_one_path_to_key, nested_get, nested_pair, nested_set, nested_unpair,
                                        nested_update)
from fortuna.utils.optimizer import decay_mask_without_layer_norm_fn
from fortuna.utils.strings import (decode_encoded_tuple_of_lists_of_strings_to_array as decode,
                                   encode_tuple_of_lists_of_strings_to_numpy as encode)
from vf.core import Suite

suite = Suite(
    "C32",
    rule="case = (tree, paths/predicate, objects); distinct = distinct (tree, selection) pairs",
    assumptions=["string keys; the leaves are arrays"],
    required={"many-paths": 5},
)
NAMES = ["params", "model", "kernel", "bias", "l1", "l2", "hidden1", "dfe_subnet", "a", "b", "Dense_0", "Dense_10", "z"]


def tree(ctx, depth=0, wide=False):
    d = {}
    for k in ctx.rng.permutation(NAMES)[: ctx.integers(3 if wide else 1, 6 if wide else 4)]:
        if depth < 3 and ctx.rng.random() < (0.6 if depth == 0 else 0.4):
            d[str(k)] = tree(ctx, depth + 1, wide)
        else:
            d[str(k)] = leaf(ctx)
    return d


def leaf(ctx):
    return ctx.rng.normal(size=ctx.choice([(), (2,), (1, 3)])).astype("float32")


def flat(d):
    return {k: np.array(v) for k, v in flatten_dict(d.unfreeze() if isinstance(d, FrozenDict) else d).items()}


def same(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)


def subset(ctx, keys):
    keys = list(keys)
    m = ctx.choice([0, 1, len(keys), ctx.integers(0, len(keys))])
    return [keys[i] for i in ctx.rng.permutation(len(keys))[:m]]


def case(ctx):
    t = tree(ctx, wide=ctx.rng.random() < 0.3)
    f = flat(t)
    sel = subset(ctx, f)
    ctx.note(leaves=["/".join(k) for k in f], selected=["/".join(k) for k in sel])
    ctx.key(str(sorted(f)), str(sel), str(list(f.values())))
    if len(sel) > 10:
        ctx.event("many-paths")
    return t, f, sel


@suite.scenario(quick=150, thorough=6000)
def get_and_set(ctx):
    t, f, sel = case(ctx)
    before = copy.deepcopy(t)
    for k in f:
        ctx.check(np.array_equal(nested_get(t, list(k)), f[k]), "get")
        ctx.check(np.array_equal(nested_get(FrozenDict(t), list(k)), f[k]), "get-frozen")
    paths = tuple(list(k) for k in sel)
    ctx.check(same(flat(nested_set(t, paths, tuple(nested_get(t, p) for p in paths))), f), "set-of-get-is-identity")
    objs = tuple(leaf(ctx) for _ in sel)
    out = nested_set(t, paths, objs)
    ctx.check(same(flat(out), {**f, **dict(zip(sel, objs))}), "set-only-addressed")
    ctx.check(same(flat(t), flat(before)), "argument-untouched")
    for v in jax.tree_util.tree_leaves(t):  # the result does not share storage with the source
        if v.ndim:
            v += 1
    ctx.check(same(flat(out), {**f, **dict(zip(sel, objs))}) if not sel or all(o.ndim for o in objs) else True, "no-aliasing")
    t = before
    bad = list(ctx.choice(list(f)))
    bad[ctx.integers(0, len(bad) - 1)] = "missing"
    ctx.raises(KeyError, lambda: nested_set(t, (bad,), (1.0,)), "unknown-path-rejected")
    ctx.raises((KeyError, TypeError), lambda: nested_get(t, bad), "unknown-path-rejected")
    grown = nested_set(t, (bad,), (np.float32(7),), allow_nonexistent=True)
    ctx.check(same(flat(grown), {**f, tuple(bad): np.float32(7)}), "path-created", str(bad))
    ctx.raises(TypeError, lambda: nested_set(t, [bad], (1.0,)), "wrong-type-rejected")
    ctx.raises(ValueError, lambda: nested_set(t, (bad, bad), (1.0,)), "wrong-length-rejected")
    ctx.raises(ValueError, lambda: nested_get(t, []), "empty-path-rejected")


@suite.scenario(quick=120, thorough=5000)
def pair_and_unpair(ctx):
    t, f, sel = case(ctx)
    before = copy.deepcopy(t)
    paths = tuple(list(k) for k in sel)
    objs = tuple(leaf(ctx) for _ in sel)
    labels = ctx.choice([("mean", "std"), ("mean", "log_std"), ("kernel", "bias")])
    paired = nested_pair(t, paths, objs, labels)
    want = {k: v for k, v in f.items() if k not in sel}
    for k, o in zip(sel, objs):
        want[k + (labels[0],)], want[k + (labels[1],)] = f[k], o
    ctx.check(same(flat(paired), want), "pair")
    ctx.check(same(flat(t), flat(before)), "argument-untouched")
    again = copy.deepcopy(paired)
    a, b = nested_unpair(paired, paths, labels)
    ctx.check(same(flat(a), f), "unpair-first")
    ctx.check(same(flat(b), dict(zip(sel, objs))), "unpair-second")
    ctx.check(same(flat(paired), flat(again)), "argument-untouched")
    bad = ["missing"]
    ctx.raises(KeyError, lambda: nested_pair(t, (bad,), (1.0,), labels), "unknown-path-rejected")
    ctx.raises(KeyError, lambda: nested_unpair(t, (bad,), labels), "unknown-path-rejected")
    ctx.raises(ValueError, lambda: nested_pair(t, (), (), ("a",)), "wrong-length-rejected")


@suite.scenario(quick=100, thorough=4000)
def update_and_search(ctx):
    t, f, sel = case(ctx)
    before = copy.deepcopy(t)
    new = {k: leaf(ctx) for k in sel}
    for _ in range(ctx.integers(0, 2)):
        new[("new", str(ctx.integers(0, 3)))] = leaf(ctx)
    out = nested_update(t, unflatten_dict(new))
    ctx.check(same(flat(out), {**f, **new}), "update")
    ctx.check(same(flat(t), flat(before)), "argument-untouched")
    more = {k: leaf(ctx) for k in subset(ctx, f)}
    ctx.check(same(flat(nested_update(t, unflatten_dict(new), unflatten_dict(more))), {**f, **new, **more}), "update-in-order")
    present = {k for p in f for k in p}
    for name in NAMES:
        for d in (t, FrozenDict(t)):
            p = find_one_path_to_key(d, name)
            if name in present:
                ctx.check(p and p[-1] == name and any(q[: len(p)] == tuple(p) for q in f), "found-path", f"{name}: {p}")
            else:
                ctx.check(len(p) == 0, "absent-key", f"{name}: {p}")


@suite.scenario(quick=100, thorough=4000)
def partition(ctx):
    t, f, sel = case(ctx)
    chosen = set(sel)
    p = FrozenDict(t) if ctx.rng.random() < 0.5 else t
    seen = {}

    def fun(path, v):
        seen[tuple(path)] = np.asarray(v)
        return "trainable" if tuple(path) in chosen else "frozen"
    tr, fr = get_trainable_paths(p, fun), get_frozen_paths(p, fun)
    ctx.check(same(seen, f), "every-leaf-offered")
    ctx.check(sorted(map(tuple, tr)) == sorted(chosen), "trainable-paths", str(tr))
    ctx.check(sorted(map(tuple, fr)) == sorted(set(f) - chosen), "frozen-paths", str(fr))
    ctx.check(all(isinstance(k, list) for k in tr + fr), "paths-are-lists")
    lab = get_paths_with_label(p, lambda k, v: tuple(k) in chosen, True, [True, False])
    ctx.check(sorted(map(tuple, lab)) == sorted(chosen), "labelled-paths")
    # without a freeze function everything is trainable and nothing is frozen
    ctx.check(sorted(map(tuple, get_trainable_paths(p, None))) == sorted(f), "all-trainable", str(get_trainable_paths(p, None)))
    ctx.check(len(get_frozen_paths(p, None)) == 0, "none-frozen", str(get_frozen_paths(p, None)))
    odd = ctx.choice(list(f))
    badfun = lambda k, v: "wrong" if tuple(k) == odd else "trainable"
    ctx.raises(ValueError, lambda: get_trainable_paths(p, badfun), "label-rejected")
    ctx.raises(ValueError, lambda: freeze_optimizer(p, optax.sgd(0.1), badfun), "label-rejected")


@suite.scenario(quick=15, thorough=300)
def frozen_optimizer(ctx):
    t, f, sel = case(ctx)
    chosen = set(sel)
    p = jax.tree_util.tree_map(jnp.asarray, FrozenDict(t))
    fun = lambda k, v: "trainable" if tuple(k) in chosen else "frozen"
    base = ctx.choice([optax.sgd(0.3), optax.adam(1e-2), optax.sgd(0.1, momentum=0.9)])
    opt = freeze_optimizer(p, base, fun)
    ctx.check(freeze_optimizer(p, base, None) is base, "no-freezing-no-change")
    q, sub = p, {k: jnp.asarray(f[k]) for k in chosen}
    s, s0 = opt.init(p), base.init(sub)
    for _ in range(3):
        g = jax.tree_util.tree_map(lambda v: jnp.asarray(ctx.rng.normal(size=v.shape), jnp.float32), p)
        u, s = opt.update(g, s, q)
        q = optax.apply_updates(q, u)
        gf = flatten_dict(g.unfreeze())
        u0, s0 = base.update({k: gf[k] for k in chosen}, s0, sub)
        sub = optax.apply_updates(sub, u0)
        got = flat(q)
        for k in f:
            if k in chosen:
                ctx.close(got[k], sub[k], "trainable-step", rtol=1e-5, atol=1e-6)
            else:
                ctx.check(np.array_equal(got[k], f[k]), "frozen-unchanged")


@suite.scenario(quick=80, thorough=3000)
def path_codec(ctx):
    t, f, sel = case(ctx)
    paths = tuple(list(k) for k in sel)
    enc = encode(paths)
    got = decode(enc)
    ctx.check(got is None if paths is None else tuple(map(list, got)) == paths, "decode-of-encode", str(got))
    ctx.check(encode(None) is None and decode(None) is None, "none")
    # the way a checkpoint stores it
    stored = msgpack_restore(msgpack_serialize(to_state_dict({"w": enc})))["w"]
    if len(paths):
        got = decode(stored)
        ctx.check(tuple(map(list, got)) == paths, "decode-of-stored", f"{got} vs {paths}")
        if len(paths) > 10:
            ctx.event("many-paths")


@suite.scenario(quick=40, thorough=1000)
def weight_decay_mask(ctx):
    # transformer-like trees: biases and layer norms (by any usual name) are not decayed, all else is
    d, want = {}, {}
    for i in range(ctx.integers(1, 4)):
        blk = ("encoder", str(i))
        for part in ("query", "key", "output", "mlp"):
            d[blk + (part, "kernel")], want[blk + (part, "kernel")] = np.ones(2), True
            d[blk + (part, "bias")], want[blk + (part, "bias")] = np.ones(2), False
        for part in ctx.choice([["LayerNorm"], ["layer_norm", "ln_1"], ["final_layer_norm"]]):
            for w in ("scale", "bias"):
                d[blk + (part, w)], want[blk + (part, w)] = np.ones(2), False
    ctx.key(str(sorted(d)))
    t = unflatten_dict(d)
    got = decay_mask_without_layer_norm_fn(t)
    ctx.check({k: bool(v) for k, v in flat(got).items()} == want, "decay-mask")
