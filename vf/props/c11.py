import threading

import numpy as np

from fortuna.data.loader import DataLoader, InputsLoader, TargetsLoader
from vf.core import Suite

suite = Suite(
    "C11",
    rule="case = (data, batch size, shuffling, prefetching, source kind); distinct = distinct delivered batch streams",
    assumptions=["shuffling without a batch size is out of scope: the whole array is one batch in either order"],
    required={"ragged": 20, "interleaved": 10, "shuffled": 10, "threads": 4},
)


def data(ctx, n=None):
    n = n or ctx.integers(1, 60)
    shape = ctx.choice([(), (1,), (3,), (2, 4), (5, 5, 1)])
    x = ctx.rng.normal(size=(n, *shape)).astype(ctx.choice(["float32", "float64"]))
    # every example is identified by a unique id, readable from both sides
    ids = ctx.rng.permutation(n)
    x.reshape(n, -1)[:, 0] = ids
    y = ids.copy() if ctx.rng.random() < 0.5 else (ids[:, None] + np.array([0.0, 0.5])).astype("float32")
    return x, y


def rid(b):
    return np.asarray(b).reshape(len(b), -1)[:, 0].astype(int)


def stream(loader, kind):
    out = []
    for b in loader:
        out.append((b[0], b[1]) if kind == "data" else (b,))
    return out


def same_stream(a, b):
    return len(a) == len(b) and all(
        len(p) == len(q) and all(np.array_equal(u, v) for u, v in zip(p, q)) for p, q in zip(a, b))


def make(ctx, kind, x, y, bs, shuffle, prefetch):
    if kind == "data":
        return DataLoader.from_array_data((x, y), batch_size=bs, shuffle=shuffle, prefetch=prefetch)
    if kind == "inputs":
        return InputsLoader.from_array_inputs(x, batch_size=bs, shuffle=shuffle, prefetch=prefetch)
    return TargetsLoader.from_array_targets(y, batch_size=bs, shuffle=shuffle, prefetch=prefetch)


def monitor(ctx, out, kind, x, y, bs, shuffle):
    """offline checker of one recorded pass"""
    n = len(x)
    src = {"data": (x, y), "inputs": (x,), "targets": (y,)}[kind]
    sizes = [len(p[0]) for p in out]
    b = n if bs is None else bs
    want = [b] * (n // b) + ([n % b] if n % b else [])
    if n % b and n > b:
        ctx.event("ragged")
    ctx.equal(sizes, want, "batch-sizes")
    for p in out:
        ctx.check(len({len(a) for a in p}) == 1, "aligned-lengths", [len(a) for a in p])
    cat = [np.concatenate([p[k] for p in out]) for k in range(len(src))]
    if kind == "data":
        ctx.equal(rid(cat[0]), rid(cat[1]), "pairs-aligned")
    ids = rid(cat[0])
    ctx.equal(np.sort(ids), np.arange(n), "exactly-once")
    where = np.argsort(rid(src[0]))
    if not shuffle:
        ctx.equal(ids, rid(src[0]), "in-order")
    else:
        ctx.event("shuffled")
    for a, s in zip(cat, src):
        ctx.equal(a, s[where[ids]] if len(ids) == n else s, "values")
        ctx.check(a.dtype == s.dtype, "dtype")
    ctx.key(kind, tuple(sizes), ids)


@suite.scenario(quick=240, thorough=6000)
def arrays(ctx):
    x, y = data(ctx)
    n = len(x)
    kind = ctx.choice(["data", "inputs", "targets"])
    bs = ctx.choice([None, 1, 2, 3, 7, 8, 16, n, n + 1, max(1, n - 1), 200])
    shuffle = bool(ctx.rng.random() < 0.4) and bs is not None
    prefetch = bool(ctx.rng.random() < 0.4)
    ctx.note(kind=kind, n=n, batch_size=bs, shuffle=shuffle, prefetch=prefetch, x=x.shape, y=y.shape)
    x0, y0 = x.copy(), y.copy()
    loader = make(ctx, kind, x, y, bs, shuffle, prefetch)
    passes = [stream(loader, kind) for _ in range(3)]
    for p in passes[:2]:
        monitor(ctx, p, kind, x0, y0, bs, shuffle)
    if shuffle:
        for p in passes[1:]:
            ctx.equal(np.sort(np.concatenate([rid(b[0]) for b in p])), np.arange(n), "re-iterable")
    else:
        ctx.check(all(same_stream(passes[0], p) for p in passes[1:]), "re-iterable")
    ctx.check(loader.size == n, "size", f"{loader.size} vs {n}")
    ctx.check(len(loader) == len(passes[0]), "length", f"{len(loader)} vs {len(passes[0])}")
    if kind != "targets":
        ctx.check(tuple(loader.input_shape) == x.shape[1:], "input-shape", loader.input_shape)
    if kind == "data":
        ctx.check(loader.num_unique_labels == len(np.unique(y0)), "unique-labels")
    ctx.equal(x, x0, "source-unchanged")
    ctx.equal(y, y0, "source-unchanged")


@suite.scenario(quick=80, thorough=2000)
def interleaved(ctx):
    """two or three iterators of the same loader advanced in a random schedule"""
    x, y = data(ctx, ctx.integers(3, 40))
    bs = ctx.choice([1, 2, 3, 5])
    shuffle, prefetch = bool(ctx.rng.random() < 0.4), bool(ctx.rng.random() < 0.5)
    kind = ctx.choice(["data", "inputs", "targets"])
    loader = make(ctx, kind, x, y, bs, shuffle, prefetch)
    its = [iter(loader) for _ in range(ctx.integers(2, 3))]
    logs = [[] for _ in its]
    alive = list(range(len(its)))
    sched = []
    while alive:
        k = int(ctx.rng.choice(alive))
        sched.append(k)
        try:
            b = next(its[k])
            logs[k].append((b[0], b[1]) if kind == "data" else (b,))
        except StopIteration:
            alive.remove(k)
    ctx.event("interleaved")
    ctx.note(kind=kind, n=len(x), batch_size=bs, shuffle=shuffle, prefetch=prefetch, schedule=sched)
    ctx.key("sched", tuple(sched))
    for p in logs:
        monitor(ctx, p, kind, x, y, bs, shuffle)
    # a pass abandoned half way leaves no trace on the next one
    it = iter(loader)
    next(it)
    monitor(ctx, stream(loader, kind), kind, x, y, bs, shuffle)


@suite.scenario(quick=12, thorough=200)
def threads(ctx):
    x, y = data(ctx, ctx.integers(20, 60))
    bs = ctx.choice([1, 2, 5])
    shuffle, prefetch = bool(ctx.rng.random() < 0.5), bool(ctx.rng.random() < 0.5)
    loader = make(ctx, "data", x, y, bs, shuffle, prefetch)
    res, errs = [None] * 4, []

    def go(k):
        try:
            res[k] = stream(loader, "data")
        except Exception as e:  # noqa: BLE001
            errs.append(repr(e))

    ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ctx.check(not errs, "concurrent-iteration", errs)
    ctx.event("threads")
    for p in res:
        if p is not None:
            monitor(ctx, p, "data", x, y, bs, shuffle)


@suite.scenario(quick=60, thorough=1500)
def sources(ctx):
    """callables, iterables and loaders of other frameworks"""
    x, y = data(ctx)
    n = len(x)
    bs = ctx.choice([1, 2, 3, 7, 16, n + 1])
    batches = [(x[i:i + bs], y[i:i + bs]) for i in range(0, n, bs)]
    src = ctx.choice(["callable", "iterable", "torch", "tf", "callable-inputs", "iterable-inputs",
                      "callable-targets", "iterable-targets"])
    ctx.note(source=src, n=n, batch_size=bs)
    kind = "inputs" if src.endswith("inputs") else "targets" if src.endswith("targets") else "data"
    pick = {"data": lambda b: b, "inputs": lambda b: b[0], "targets": lambda b: b[1]}[kind]
    cls = {"data": DataLoader, "inputs": InputsLoader, "targets": TargetsLoader}[kind]
    seq = [pick(b) for b in batches]
    if src.startswith("callable"):
        def fun():
            for b in seq:
                yield b
        loader = cls.from_callable_iterable(fun)
    elif src.startswith("iterable"):
        loader = cls.from_iterable(seq)
    elif src == "torch":
        import torch
        from torch.utils.data import DataLoader as TD, TensorDataset
        loader = DataLoader.from_torch_data_loader(
            TD(TensorDataset(torch.tensor(x), torch.tensor(y)), batch_size=bs, shuffle=False))
    else:
        import tensorflow as tf
        loader = DataLoader.from_tensorflow_data_loader(tf.data.Dataset.from_tensor_slices((x, y)).batch(bs))
    ctx.event("source:" + src)
    for _ in range(2):
        p = stream(loader, kind)
        monitor(ctx, p, kind, x, y, bs, False)
        ctx.check(all(isinstance(a, np.ndarray) for b in p for a in b), "arrays-delivered")
    ctx.check(loader.size == n and len(loader) == len(batches), "size")
    ctx.check(isinstance(loader, cls), "type")


@suite.scenario(quick=60, thorough=1500)
def from_several(ctx):
    """a data loader assembled from one inputs loader per target"""
    k = ctx.integers(1, 4)
    shape = ctx.choice([(2,), (3, 1)])
    xs, loaders, ts = [], [], []
    base = 0
    for j in range(k):
        n = ctx.integers(1, 15)
        x = ctx.rng.normal(size=(n, *shape)).astype("float32")
        x.reshape(n, -1)[:, 0] = np.arange(base, base + n)
        base += n
        bs = ctx.choice([1, 2, 3, 5, 20])
        xs.append((x, bs))
        loaders.append(InputsLoader.from_array_inputs(x, batch_size=bs))
        ts.append(int(ctx.rng.integers(0, 9)))
    how = ctx.choice(["interpose", "concatenate"])
    loader = DataLoader.from_inputs_loaders(loaders, ts, how=how)
    owner = np.concatenate([[t] * len(x) for (x, _), t in zip(xs, ts)])
    chunks = [[x[i:i + b] for i in range(0, len(x), b)] for x, b in xs]
    if how == "concatenate":
        want = [c for cs in chunks for c in cs]
    else:
        m = max(len(c) for c in chunks)
        want = [np.concatenate([cs[i] for cs in chunks if i < len(cs)]) for i in range(m)]
    ctx.note(how=how, sizes=[len(x) for x, _ in xs], batch_sizes=[b for _, b in xs], targets=ts)
    for _ in range(2):
        got = [(a, b) for a, b in loader]
        ctx.check(len(got) == len(want) and all(np.array_equal(a, w) for (a, _), w in zip(got, want)), how)
        ids = rid(np.concatenate([a for a, _ in got]))
        ctx.equal(np.sort(ids), np.arange(base), "exactly-once")
        ctx.equal(np.concatenate([b for _, b in got]), owner[ids], "own-target")
        ctx.key(how, ids)
    ctx.check(loader.size == base, "size")
    ctx.raises(ValueError, lambda: DataLoader.from_inputs_loaders(loaders, ts, how="zip"), "unknown-how")
