import copy

import jax
import numpy as np

from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
from fortuna.data.loader.base import (
    BaseInputsLoader,
    BaseTargetsLoader,
    ConcatenatedLoader,
    DeviceDimensionAugmentedLoader,
)
from fortuna.data.loader.huggingface_loaders import HuggingFaceDataLoader
from vf.core import Suite
from vf.props.c11 import rid

suite = Suite(
    "C12",
    rule="case = (loader, operation, parameters); distinct = distinct delivered streams",
    assumptions=["data is non-empty; the transform returns equally many inputs and targets"],
    required={"composed": 20, "prefetched": 5},
)


def build(ctx, n=None):
    n = n or ctx.integers(1, 50)
    shape = ctx.choice([(1,), (3,), (2, 2)])
    x = ctx.rng.normal(size=(n, *shape)).astype("float32")
    x.reshape(n, -1)[:, 0] = np.arange(n)
    y = np.arange(n)
    bs = ctx.choice([1, 2, 3, 4, 7, 16, n, n + 3])
    ctx.note(n=n, batch_size=bs, shape=x.shape)
    return x, y, bs, DataLoader.from_array_data((x, y), batch_size=bs)


def chunks(a, bs):
    return [a[i:i + bs] for i in range(0, len(a), bs)]


def same(ctx, loader, want, mech, passes=2):
    """every pass over the loader delivers exactly the wanted batches"""
    for _ in range(passes):
        got = list(loader)
        ok = len(got) == len(want)
        if ok:
            for g, w in zip(got, want):
                if isinstance(w, tuple):
                    ok &= isinstance(g, tuple) and all(np.array_equal(u, v) for u, v in zip(g, w))
                else:
                    ok &= np.array_equal(g, w)
        ctx.check(ok, mech, f"got {[np.shape(g[0]) if isinstance(g, tuple) else np.shape(g) for g in got]} "
                            f"want {[np.shape(w[0]) if isinstance(w, tuple) else np.shape(w) for w in want]}")
    for w in want:
        ctx.key(mech, w[0] if isinstance(w, tuple) else w)


def parts(x, y, bs):
    return {"data": list(zip(chunks(x, bs), chunks(y, bs))), "inputs": chunks(x, bs), "targets": chunks(y, bs)}


def as_kind(loader, kind):
    return {"data": lambda: loader, "inputs": loader.to_inputs_loader, "targets": loader.to_targets_loader}[kind]()


@suite.scenario(quick=100, thorough=3000)
def conversions(ctx):
    x, y, bs, loader = build(ctx)
    p = parts(x, y, bs)
    same(ctx, loader.to_inputs_loader(), p["inputs"], "to-inputs")
    same(ctx, loader.to_targets_loader(), p["targets"], "to-targets")
    same(ctx, InputsLoader.from_data_loader(loader), p["inputs"], "inputs-from-data")
    same(ctx, TargetsLoader.from_data_loader(loader), p["targets"], "targets-from-data")
    a, b = loader.to_array_data()
    ctx.equal(a, x, "to-arrays")
    ctx.equal(b, y, "to-arrays")
    ctx.equal(loader.to_array_inputs(), x, "to-array-inputs")
    ctx.equal(loader.to_array_targets(), y, "to-array-targets")
    il, tl = InputsLoader.from_data_loader(loader), TargetsLoader.from_data_loader(loader)
    # a converted loader has the capabilities of its class
    ctx.check(isinstance(il, InputsLoader), "converted-type", type(il).__name__)
    ctx.check(isinstance(tl, TargetsLoader), "converted-type", type(tl).__name__)
    ctx.check(isinstance(BaseTargetsLoader.from_data_loader(loader), BaseTargetsLoader), "converted-type")
    ctx.check(isinstance(BaseInputsLoader.from_data_loader(loader), BaseInputsLoader), "converted-type")
    for l, full in ((il, x), (tl, y)):
        ctx.check(l.size == len(x) and len(l) == len(p["inputs"]), "converted-size")
        arr = l.to_array_inputs() if isinstance(l, InputsLoader) else l.to_array_targets()
        ctx.equal(arr, full, "converted-arrays")
    same(ctx, loader, p["data"], "source-intact")


@suite.scenario(quick=120, thorough=4000)
def transforms(ctx):
    x, y, bs, loader = build(ctx)
    kind = ctx.choice(["data", "inputs", "targets"])
    a, drop = float(ctx.rng.normal()), ctx.integers(0, 4)
    status = ctx.choice([None, dict(count=0, seen=[])])
    snapshot = copy.deepcopy(status)

    def tr(inputs, targets, status):
        if status is None:
            status = dict(count=0, seen=[])
        status["count"] += 1
        status["seen"].append(len(inputs))
        if drop and status["count"] % (drop + 1) == 0:
            how = status["count"] % 2
            return (None, None, status) if how else (inputs[:0], targets[:0], status)
        return a * inputs + status["count"], targets * 2 + status["count"], status

    want = []
    for k, (xb, yb) in enumerate(parts(x, y, bs)["data"], 1):
        if drop and k % (drop + 1) == 0:
            continue
        xb, yb = a * xb + k, yb * 2 + k
        want.append({"data": (xb, yb), "inputs": xb, "targets": yb}[kind])
    src = as_kind(loader, kind)
    if kind == "data":
        out = src.to_transformed_data_loader(tr, status)
    else:
        one = lambda d, s: (lambda r: (r[0], r[2]))(tr(d, d, s)) if kind == "inputs" else (
            lambda r: (r[1], r[2]))(tr(d, d, s))
        out = (src.to_transformed_inputs_loader if kind == "inputs" else src.to_transformed_targets_loader)(one, status)
    ctx.note(kind=kind, drop_every=drop + 1, status=snapshot)
    # the status restarts at every pass, and the caller's status is untouched
    same(ctx, out, want, "transform", passes=3)
    ctx.check(type(out) is type(src), "transform-type", type(out).__name__)
    ctx.check(status == snapshot, "status-untouched", status)
    same(ctx, src, parts(x, y, bs)[kind], "source-intact", passes=1)
    if kind == "data":
        bad = src.to_transformed_data_loader(lambda u, v, s: (u, np.concatenate([v, v]), s))
        ctx.raises(ValueError, lambda: list(bad), "mismatched-transform")


@suite.scenario(quick=120, thorough=4000)
def chop_split(ctx):
    x, y, bs, loader = build(ctx)
    n = len(x)
    kind = ctx.choice(["data", "inputs", "targets"])
    src = as_kind(loader, kind)
    p = parts(x, y, bs)[kind]
    size = lambda b: len(b[0]) if isinstance(b, tuple) else len(b)
    cut = lambda b, s: tuple(u[s] for u in b) if isinstance(b, tuple) else b[s]
    d = ctx.integers(1, 6)
    want = [cut(b, slice(0, size(b) - size(b) % d)) for b in p if size(b) >= d]
    same(ctx, src.chop(d), want, "chop")
    k = ctx.choice([0, 1, bs, 2 * bs, n // 2, max(n - 1, 0), n, n + 5, ctx.integers(0, n)])
    l1, l2 = src.split(k)
    ctx.note(kind=kind, divisor=d, split=k)
    k = min(k, n)
    w1, w2, c = [], [], 0
    for b in p:
        s = size(b)
        h = min(max(k - c, 0), s)
        if h > 0:
            w1.append(cut(b, slice(0, h)))
        if h < s:
            w2.append(cut(b, slice(h, None)))
        c += s
    if ctx.rng.random() < 0.5:
        same(ctx, l2, w2, "split-second")
        same(ctx, l1, w1, "split-first")
    else:
        same(ctx, l1, w1, "split-first")
        same(ctx, l2, w2, "split-second")
    ctx.check(type(l1) is type(src) and type(l2) is type(src), "split-type")
    same(ctx, src, p, "source-intact", passes=1)


@suite.scenario(quick=60, thorough=2000)
def sampling(ctx):
    x, y, bs, loader = build(ctx)
    kind = ctx.choice(["data", "inputs", "targets"])
    src = as_kind(loader, kind)
    m, seed = ctx.integers(1, 80), ctx.integers(0, 1000)
    s = src.sample(seed, m)
    ctx.note(kind=kind, n_samples=m, seed=seed)
    passes = [list(s) for _ in range(2)]
    get = (lambda b: b[0]) if kind == "data" else (lambda b: b)
    ids = [np.concatenate([rid(get(b)) for b in p]) for p in passes]
    ctx.check(len(ids[0]) == m, "sample-count", f"{len(ids[0])} vs {m}")
    ctx.equal(ids[0], ids[1], "sample-deterministic")
    ctx.check(all(len(get(b)) > 0 for b in passes[0]), "sample-nonempty-batches")
    rows = {"data": x, "inputs": x, "targets": y}[kind]
    ctx.equal(np.concatenate([get(b) for b in passes[0]]), rows[ids[0]], "sample-rows")
    if kind == "data":
        ctx.equal(np.concatenate([b[1] for b in passes[0]]), y[ids[0]], "sample-pairs")
    # the stream visits the data in order and no example twice in one sweep
    sweeps = 1 + int(np.sum(np.diff(ids[0]) <= 0))
    ctx.check(np.bincount(ids[0]).max() <= sweeps, "sample-without-repetition-in-a-sweep")
    ctx.check(type(s) is type(src), "sample-type")
    ctx.check(s.size == m, "size")
    ctx.key("sample", ids[0])
    same(ctx, src, parts(x, y, bs)[kind], "source-intact", passes=1)


@suite.scenario(quick=40, thorough=800)
def devices_and_concatenation(ctx):
    x, y, bs, loader = build(ctx)
    nd = jax.local_device_count()
    want = parts(x, y, bs)["data"]
    got = list(DeviceDimensionAugmentedLoader(loader))
    ctx.event("prefetched")
    ctx.check(len(got) == len(want), "device-batches")
    for (a, b), (c, d) in zip(got, want):
        ctx.equal(a, c.reshape((nd, -1) + c.shape[1:]), "device-dimension")
        ctx.equal(b, d.reshape((nd, -1) + d.shape[1:]), "device-dimension")
        ctx.key("device", np.asarray(a))
    x2, y2, bs2, loader2 = build(ctx)
    cat = ConcatenatedLoader([loader, loader2, loader.to_inputs_loader()])
    same(ctx, cat, want + parts(x2, y2, bs2)["data"] + parts(x, y, bs)["inputs"], "concatenated")
    same(ctx, loader, want, "source-intact", passes=1)


@suite.scenario(quick=60, thorough=2000)
def dictionaries(ctx):
    """loaders whose inputs are dictionaries of arrays"""
    n, bs = ctx.integers(1, 30), ctx.choice([1, 2, 4, 7, 40])
    ids = np.arange(n)
    inp = dict(input_ids=ctx.rng.integers(0, 9, size=(n, 5)), attention_mask=np.ones((n, 5), int))
    inp["input_ids"][:, 0] = ids
    bat = [({k: v[i:i + bs] for k, v in inp.items()}, ids[i:i + bs]) for i in range(0, n, bs)]
    loader = HuggingFaceDataLoader.from_iterable(bat)
    ctx.note(n=n, batch_size=bs)

    def eq(got, want, mech):
        ok = len(got) == len(want) and all(
            set(g) == set(w) and all(np.array_equal(g[k], w[k]) for k in w) for g, w in zip(got, want))
        ctx.check(ok, mech)

    for _ in range(2):
        got = list(loader)
        eq([g[0] for g in got], [b[0] for b in bat], "dict-stream")
        ctx.equal(np.concatenate([g[1] for g in got]), ids, "dict-targets")
        eq(list(loader.to_inputs_loader()), [b[0] for b in bat], "dict-to-inputs")
        ctx.equal(np.concatenate(list(loader.to_targets_loader())), ids, "dict-to-targets")
    ctx.equal(loader.to_array_targets(), ids, "dict-array-targets")
    ctx.check(loader.size == n and loader.to_inputs_loader().size == n, "dict-size")
    ctx.check(dict(loader.input_shape) == {k: (5,) for k in inp}, "dict-shape", loader.input_shape)
    ctx.check(dict(loader.to_inputs_loader().input_shape) == {k: (5,) for k in inp}, "dict-shape")
    ctx.check(loader.num_unique_labels == n, "dict-labels")
    # transforms see and may rewrite the whole dictionary
    t = loader.to_transformed_data_loader(
        lambda a, b, s: ({k: v + 1 for k, v in a.items()}, b * 3, s))
    eq([g[0] for g in t], [{k: v + 1 for k, v in b[0].items()} for b in bat], "dict-transform")
    ctx.equal(np.concatenate([g[1] for g in t]), ids * 3, "dict-transform")
    ti = loader.to_inputs_loader().to_transformed_inputs_loader(lambda a, s: ({k: v * 2 for k, v in a.items()}, s))
    eq(list(ti), [{k: v * 2 for k, v in b[0].items()} for b in bat], "dict-transform")
    ctx.key("dict", inp["input_ids"])


@suite.scenario(quick=60, thorough=2000)
def compositions(ctx):
    """random programs of loader operations against a list model"""
    x, y, bs, loader = build(ctx, ctx.integers(2, 40))
    model = parts(x, y, bs)["data"]
    prog = []
    for _ in range(ctx.integers(2, 5)):
        op = ctx.choice(["chop", "split1", "split2", "transform", "filter", "concat"])
        prog.append(op)
        if op == "chop":
            d = ctx.integers(1, 3)
            loader = loader.chop(d)
            model = [(a[:len(a) - len(a) % d], b[:len(b) - len(b) % d]) for a, b in model if len(a) >= d]
        elif op.startswith("split"):
            tot = sum(len(a) for a, _ in model)
            k = ctx.integers(0, tot)
            loader = loader.split(k)[0 if op == "split1" else 1]
            out, c = [], 0
            for a, b in model:
                h = min(max(k - c, 0), len(a))
                c += len(a)
                s = slice(0, h) if op == "split1" else slice(h, None)
                if len(a[s]):
                    out.append((a[s], b[s]))
            model = out
        elif op == "transform":
            loader = loader.to_transformed_data_loader(lambda a, b, s: (a * 2, b + 1, s))
            model = [(a * 2, b + 1) for a, b in model]
        elif op == "filter":
            f = lambda a, b, s: (a[b % 3 != 0], b[b % 3 != 0], s)
            loader = loader.to_transformed_data_loader(f)
            model = [f(a, b, None)[:2] for a, b in model]
            model = [m for m in model if len(m[0])]
        else:
            prev = loader
            loader = DataLoader.from_callable_iterable(lambda prev=prev: ConcatenatedLoader([prev, prev]))
            model = model + model
    ctx.event("composed")
    ctx.note(program=prog)
    ctx.key("program", tuple(prog))
    same(ctx, loader, model, "composition")
    ctx.check(loader.size == sum(len(a) for a, _ in model) and len(loader) == len(model), "composition-size")
