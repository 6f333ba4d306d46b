import builtins
import os
import random
import signal
import subprocess
import sys
import time

import flax.io
import jax
import numpy as np
import optax

from fortuna.output_calib_model import (Checkpointer as OCheckpointer, Config as OConfig, Monitor as OMonitor, Optimizer as OOptimizer,
                                        OutputCalibClassifier, Processor as OProcessor)
from fortuna.prob_model import DeepEnsemblePosteriorApproximator, MAPPosteriorApproximator, SGHMCPosteriorApproximator
from vf.core import Suite
from vf.props import c19 as S
from vf.props import postrig as R
from vf.props import trainrig as T

suite = Suite(
    "C20",
    rule="case = (workflow that writes checkpoints, file operation at which it dies) followed by a restart; distinct = distinct (workflow, operation, surviving step)",
    assumptions=["a crash is a stop at a file-system operation under the checkpoint directory (creation, half-done write, rename, removal); renames are atomic; flax writes through the local file system"],
    required={"crash": 60, "op:open": 5, "op:write": 5, "op:rename": 5, "op:remove": 5, "restored": 40, "resumed": 6, "nothing-yet": 2,
              "update": 8, "save-over": 6, "kill": 1, "at-step": 6, "all-steps": 2},
)
flax.io.set_mode(flax.io.BackendMode.DEFAULT)
flax.io.NotFoundError = FileNotFoundError


class Crash(BaseException):
    pass


class Monitor:
    """counts file operations under a directory; the process `dies' at the k-th one (and does nothing to the directory ever after)"""
    current = None

    def __init__(self, root, at=None):
        self.root, self.at, self.n, self.dead, self.ops, self.step = os.path.abspath(root), at, 0, False, [], 0

    def here(self, p):
        if isinstance(p, bytes):
            p = p.decode()
        return isinstance(p, (str, os.PathLike)) and os.path.abspath(os.fspath(p)).startswith(self.root + os.sep)

    def op(self, kind, path):
        if self.dead:
            raise Crash()
        self.n += 1
        self.ops.append((kind, os.path.basename(os.fspath(path)), self.step))
        if self.n == self.at:
            self.dead = True
            if kind == "write":
                return "half"
            raise Crash()

    def __enter__(self):
        Monitor.current = self
        return self

    def __exit__(self, *e):
        Monitor.current = None
        return e and e[0] is Crash


def _hook(event, args):
    m = Monitor.current
    if m is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and m.here(path):
            m.op("open", path)
    elif event in ("os.rename", "os.link"):
        if m.here(args[0]) or m.here(args[1]):
            m.op("rename", args[1])
    elif event in ("os.remove", "os.truncate", "shutil.rmtree"):
        if m.here(args[0]):
            m.op("remove", args[0])


sys.addaudithook(_hook)
_open = builtins.open


class Half:
    """a file whose write may be cut short"""

    def __init__(self, f, m):
        self._f, self._m = f, m

    def write(self, data):
        if self._m.op("write", self._f.name) == "half":
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            raise Crash()
        return self._f.write(data)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __getattr__(self, k):
        return getattr(self._f, k)


def _watched_open(file, mode="r", *a, **kw):
    f = _open(file, mode, *a, **kw)
    m = Monitor.current
    return Half(f, m) if m is not None and set(mode) & set("wax+") and m.here(file) else f


builtins.open = _watched_open


class Steps(T.Recorder):
    """records the parameters after every step, and may die at a step"""

    def __init__(self, monitor=None, die_at=None):
        super().__init__()
        self.monitor, self.die_at = monitor, die_at

    def training_step_end(self, state):
        state = super().training_step_end(state)
        if self.monitor is not None:
            self.monitor.step += 1
            if self.die_at is not None and self.monitor.step == self.die_at:
                self.monitor.dead = True
                raise Crash()
        return state

    def by_step(self):
        return {s: p for e, s, p in self.log if e == "step"}


def steps_in(d):
    return sorted(int(f[len("checkpoint_"):]) for f in os.listdir(d) if f.startswith("checkpoint_") and f[len("checkpoint_"):].isdigit()) if os.path.isdir(d) else []


def restore(pm, path):
    try:
        s = pm.posterior.restore_checkpoint(path, optimizer=optax.sgd(0.01))
    except ValueError:
        return None
    return int(s.step), T.flat_dict(T.host(s.params))


def same(a, b):
    a, b = (T.flat_dict(t) if not isinstance(next(iter(t)), tuple) else t for t in (a, b))
    return a.keys() == b.keys() and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def audit_dir(ctx, pm, d, ref, done, current, every, keep, total):
    """the directory of a run that died after `done' steps, while in step `current' """
    scheduled = [s for s in range(every, done + 1, every)] if every else []
    final = [total] if done == total else []
    newest = scheduled[-1] if scheduled else None
    allowed = {newest}
    if every and current % every == 0 and current <= total:
        allowed.add(current)
    if final:
        allowed.add(total)
    got = restore(pm, d)
    ctx.check((got[0] if got else None) in allowed, "latest-scheduled-save-survives", f"restored {got and got[0]}, allowed {allowed}")
    if got is None:
        ctx.event("nothing-yet")
    else:
        ctx.event("restored")
        ctx.check(same(got[1], ref[got[0]]), "restored-equals-training-state", got[0])
    present = steps_in(d)
    ctx.check(len(present) <= keep + 1, "retention", str(present))
    want = scheduled[-keep:]
    ctx.check(set(want[1:] if any(s > done for s in present) or final else want) <= set(present), "newest-saves-kept", f"{present} after saves {scheduled} keep {keep}")
    for s in present:
        one = restore(pm, os.path.join(d, f"checkpoint_{s}"))
        ctx.check(one is not None and one[0] == s and same(one[1], ref[s]), "every-checkpoint-complete", s)
    return got


def workflow(ctx, full_batch):
    kind = ctx.choice(["cls", "reg"])
    n = 8
    bs = n if full_batch else ctx.choice([4, 8])
    x, y = T.data(ctx, kind, 2 if kind == "cls" else 1, n)
    epochs = ctx.choice([4, 6])
    return dict(kind=kind, xy=(x, y), bs=bs, epochs=epochs, total=epochs * (n // bs), every=ctx.choice([1, 2, 3]), keep=ctx.choice([1, 2, 3]),
                dump=ctx.rng.random() < 0.7, seed=ctx.integers(0, 100))


def make(w, approx=None):
    return T.make(w["kind"], 2 if w["kind"] == "cls" else 1, approx or MAPPosteriorApproximator(), seed=w["seed"])


def run(w, pm, d, mon, die_at=None, epochs=None, **ck):
    rec = Steps(mon, die_at)
    pm.train(T.loader(w["xy"], w["bs"]), fit_config=T.config(optax.sgd(0.02), epochs or w["epochs"], callbacks=[rec], save_checkpoint_dir=d,
                                                           save_every_n_steps=w["every"], keep_top_n_checkpoints=w["keep"], dump_state=w["dump"], **ck))
    return rec


def reference(w, root):
    mon = Monitor(os.path.join(root, "ref"))
    with mon:
        rec = run(w, make(w), os.path.join(root, "ref"), mon)
    return rec.by_step(), mon


@suite.scenario(quick=10, thorough=120)
def training_dies(ctx):
    w = workflow(ctx, False)
    ctx.note(**{k: v for k, v in w.items() if k != "xy"})
    with R.scratch() as root:
        ref, full = reference(w, root)
        ctx.check(sorted(ref) == list(range(1, w["total"] + 1)), "one-record-per-step", str(sorted(ref)))
        done = audit_dir(ctx, make(w), os.path.join(root, "ref"), ref, w["total"], w["total"] + 1, w["every"], w["keep"], w["total"])
        ctx.check(done is not None and done[0] == w["total"], "finished-run-keeps-its-state")
        ctx.check(len(full.ops) >= w["total"] // w["every"] * 2, "writes-observed", len(full.ops))
        # die at a sample of file operations: at least one of every kind, plus deaths between saves
        by_kind = {}
        for i, (k, _, _) in enumerate(full.ops):
            by_kind.setdefault(k, []).append(i + 1)
        points = sorted({int(ctx.rng.choice(v)) for v in by_kind.values()} | set(ctx.rng.choice(len(full.ops), size=min(3, len(full.ops)), replace=False) + 1))
        pts = [("op", p) for p in points] + [("step", ctx.integers(1, w["total"]))]
        for j, (how, p) in enumerate(pts):
            d = os.path.join(root, f"d{j}")
            mon = Monitor(d, at=p if how == "op" else None)
            with mon:
                run(w, make(w), d, mon, die_at=p if how == "step" else None)
            ctx.check(mon.dead, "died")
            ctx.event("crash")
            ctx.event("op:" + mon.ops[-1][0] if how == "op" else "at-step")
            done = mon.step - (how == "step")  # a death in a step-end callback is a death in that step
            got = audit_dir(ctx, make(w), d, ref, done, done + 1, w["every"], w["keep"], w["total"])
            ctx.key(how, mon.ops[-1][0] if mon.ops else "", got[0] if got else -1, w["every"], w["keep"], w["total"], done)


@suite.scenario(quick=2, thorough=20)
def every_operation(ctx):
    """exhaustively: every file operation of a short run"""
    w = dict(workflow(ctx, True), epochs=3, total=3, every=1, dump=True)
    ctx.event("all-steps")
    ctx.note(**{k: v for k, v in w.items() if k != "xy"})
    with R.scratch() as root:
        ref, full = reference(w, root)
        for p in range(1, len(full.ops) + 1):
            d = os.path.join(root, f"d{p}")
            mon = Monitor(d, at=p)
            with mon:
                run(w, make(w), d, mon)
            ctx.check(mon.dead, "died")
            ctx.event("crash")
            ctx.event("op:" + mon.ops[-1][0])
            got = audit_dir(ctx, make(w), d, ref, mon.step, mon.step + 1, 1, w["keep"], 3)
            ctx.key(p, got[0] if got else -1, w["keep"], mon.ops[-1])


@suite.scenario(quick=4, thorough=50)
def dies_again_and_again(ctx):
    """one step per epoch and plain gradient descent: a run resumed after any number of deaths ends where the undisturbed run ends"""
    w = dict(workflow(ctx, True), dump=True)
    ctx.note(**{k: v for k, v in w.items() if k != "xy"})
    with R.scratch() as root:
        ref, full = reference(w, root)
        d = os.path.join(root, "run")
        os.makedirs(d)
        deaths = 0
        while True:
            at = ctx.integers(1, max(2, len(full.ops) - 1)) if deaths < 3 else None
            pm = make(w)
            have = restore(pm, d)
            start = have[0] if have else 0
            if have:
                ctx.event("resumed")
                ctx.check(same(have[1], ref[start]), "restored-equals-training-state", start)
            mon = Monitor(d, at=at)
            rec = None
            if start == w["total"]:
                break
            with mon:
                rec = run(w, pm, d, mon, epochs=w["total"] - start, **(dict(restore_checkpoint_path=d) if have else {}))
            if rec is None:
                deaths += 1
                ctx.event("crash")
                ctx.key(at, start, mon.step, mon.ops[-1][0])
                continue
            got = rec.by_step()
            ctx.check(sorted(got) == list(range(start + 1, w["total"] + 1)), "step-count-resumes", f"{sorted(got)} after {start}")
            for s in got:
                a, b = T.flat_dict(got[s]), T.flat_dict(ref[s])
                ctx.check(all(np.allclose(a[k], b[k], rtol=1e-5, atol=1e-6) for k in a), "resumed-run-continues", s)
        ctx.check(start == w["total"], "completed")


METHODS = {
    "map": MAPPosteriorApproximator,
    "ensemble": lambda: DeepEnsemblePosteriorApproximator(ensemble_size=2),
    "sghmc": lambda: SGHMCPosteriorApproximator(n_samples=2, burnin_length=2, step_schedule=1e-3),
}
_trained = {}


def trained(method, root):
    """a trained model of each kind, saved under root"""
    if method not in _trained:
        r = np.random.default_rng(0)
        x = r.normal(size=(8, 2)).astype("float32")
        y = np.arange(8) % 2
        pm = T.make("cls", 2, METHODS[method](), seed=1)
        pm.train(T.loader((x, y), 4), fit_config=T.config(None if method == "sghmc" else optax.sgd(0.1), 4))
        _trained[method] = pm, (x, y)
    pm, xy = _trained[method]
    pm.save_state(root)
    return pm, xy


def member_arrays(pm):
    return [S.arrays(s) for s in S.members(pm)]


def each_old_or_new(ctx, got, old, new, mech):
    ctx.check(len(got) == len(old), mech + ":members")
    for g, o, n in zip(got, old, new):
        eq = lambda u, v: u.keys() == v.keys() and all(np.array_equal(u[k], v[k]) for k in u)
        ctx.check(eq(g, o) or eq(g, n), mech)


@suite.scenario(quick=6, thorough=60)
def updates_and_saves_die(ctx):
    """a stored state that is being updated (calibration) or saved over is either still the old one or already the new one"""
    method = list(METHODS)[ctx.i % 3]
    mode = ["update", "save-over"][ctx.i // 3 % 2]
    ctx.note(method=method, mode=mode)
    calib = {"output_calibrator": {"params": {"log_temp": np.float32(ctx.rng.normal())}}}
    fresh = lambda: T.make("cls", 2, METHODS[method](), seed=5)
    with R.scratch() as root:
        src, xy = trained(method, os.path.join(root, "src"))
        other = fresh()
        other.load_state(os.path.join(root, "src"))
        old = member_arrays(other)

        def act(d):
            pm = fresh()
            pm.load_state(d)
            if mode == "update":
                from flax.core import FrozenDict
                pm.posterior.state.update(variables=dict(calib_params=FrozenDict(calib)))
            else:
                new_pm.save_state(d)
            return pm

        # what it looks like when all goes well
        if mode == "save-over":
            os.makedirs(os.path.join(root, "new"))
            trained(method, os.path.join(root, "new"))
            new_pm = fresh()
            new_pm.load_state(os.path.join(root, "new"))
            from flax.core import FrozenDict
            new_pm.posterior.state.update(variables=dict(calib_params=FrozenDict(calib)))
        ok = os.path.join(root, "ok")
        trained(method, ok)
        mon = Monitor(ok)
        with mon:
            act(ok)
        pm = fresh()
        pm.load_state(ok)
        new = member_arrays(pm)
        ctx.check(all(not np.array_equal(o[k], n[k]) for o, n in zip(old, new) for k in o if k[0] == "calib_params"), "new-state-differs")
        ctx.check(len(mon.ops) > 0, "writes-observed")
        points = range(1, len(mon.ops) + 1)
        if len(mon.ops) > 14:
            points = sorted(ctx.rng.choice(len(mon.ops), size=14, replace=False) + 1)
        for p in points:
            d = os.path.join(root, f"d{p}")
            trained(method, d)
            m = Monitor(d, at=int(p))
            with m:
                act(d)
            ctx.check(m.dead, "died")
            ctx.event("crash")
            ctx.event(mode)
            ctx.event("op:" + m.ops[-1][0])
            pm = fresh()
            try:
                pm.load_state(d)
                got = member_arrays(pm)
            except ValueError as e:
                ctx.check(False, f"{mode}-never-loses-the-state", f"death at operation {p} {m.ops[-1]}: {e}")
                continue
            each_old_or_new(ctx, got, old, new, f"{mode}-old-or-new")
            ctx.key(method, mode, int(p), *[a for g in got for k, a in g.items() if k[0] == "calib_params"])


@suite.scenario(quick=2, thorough=30)
def output_calibration_dies(ctx):
    n = 8
    o, y = ctx.rng.normal(size=(n, 2)).astype("float32"), ctx.rng.integers(0, 2, n)
    epochs, every, keep = 5, ctx.choice([1, 2]), ctx.choice([1, 2])

    def go(d, every, keep, mon):
        m = OutputCalibClassifier(seed=0)
        with mon:
            m.calibrate(o, y, config=OConfig(optimizer=OOptimizer(method=optax.sgd(0.05), n_epochs=epochs), monitor=OMonitor(verbose=False), processor=OProcessor(devices=0),
                                             checkpointer=OCheckpointer(save_checkpoint_dir=d, save_every_n_steps=every, keep_top_n_checkpoints=keep, dump_state=True)))

    def load(path):
        m = OutputCalibClassifier(seed=1)
        try:
            m.load_state(path)
        except ValueError:
            return None
        s = m.predictive.state.get()
        return int(s.step), T.flat_dict(s.params)

    with R.scratch() as root:
        allof = os.path.join(root, "all")
        go(allof, 1, 100, Monitor(allof))
        ref = {s: load(os.path.join(allof, f"checkpoint_{s}"))[1] for s in steps_in(allof)}
        ctx.check(max(ref) == epochs, "final-state-dumped")
        vals = [float(v) for s in sorted(ref) for v in ref[s].values()]
        ctx.check(len(set(vals)) == len(vals), "checkpoints-differ")
        full = Monitor(os.path.join(root, "full"))
        go(full.root, every, keep, full)
        saved = sorted({int(b[len("checkpoint_"):]) for k, b, _ in full.ops if k == "rename"})
        ctx.check(steps_in(full.root) == saved[-keep:], "retention", f"{steps_in(full.root)} of {saved}")
        # calibration takes one step per epoch; the schedule counts from the first
        ctx.check(set(range(1, epochs + 1, every)) <= set(saved), "scheduled-saves-made", str(saved))
        for p in ctx.rng.choice(len(full.ops), size=min(6, len(full.ops)), replace=False) + 1:
            d = os.path.join(root, f"d{p}")
            m = Monitor(d, at=int(p))
            go(d, every, keep, m)
            ctx.check(m.dead, "died")
            ctx.event("crash")
            ctx.event("op:" + m.ops[-1][0])
            before = [int(b[len("checkpoint_"):]) for k, b, _ in full.ops[:p - 1] if k == "rename"]
            got = load(d)
            ctx.check((got[0] if got else None) in {before[-1] if before else None}, "latest-scheduled-save-survives", f"{got and got[0]} after {before}")
            if got:
                ctx.event("restored")
            for s in steps_in(d):
                one = load(os.path.join(d, f"checkpoint_{s}"))
                ctx.check(one is not None and one[0] == s and same(one[1], ref[s]), "every-checkpoint-complete", s)
            ctx.key(int(p), every, keep, got[0] if got else -1)


CHILD = """
import sys, json
sys.path[:0] = [%r, "/repo"]
import numpy as np, optax
from vf.props import trainrig as T
d, every, keep = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
r = np.random.default_rng(0)
xy = (r.normal(size=(8, 2)).astype("float32"), np.arange(8) %% 2)
print("START", flush=True)
pm = T.make("cls", 2, seed=3)
pm.train(T.loader(xy, 8), fit_config=T.config(optax.sgd(0.02), 100000, save_checkpoint_dir=d, save_every_n_steps=every, keep_top_n_checkpoints=keep))
"""


@suite.scenario(quick=1, thorough=20)
def killed_process(ctx):
    """SIGKILL at a random moment of a run that saves all the time; then resume in a new process"""
    ctx.event("kill")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    keep = ctx.choice([1, 2, 3])
    with R.scratch() as d:
        p = subprocess.Popen([sys.executable, "-c", CHILD % root, d, "1", str(keep)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        t0 = time.time()
        while not steps_in(d) or max(steps_in(d), default=0) < 20:
            if p.poll() is not None or time.time() - t0 > 300:
                err = p.stderr.read().decode()[-600:] if p.poll() is not None else "no checkpoint within 300 s"
                p.kill()
                raise RuntimeError("child: " + err)
            time.sleep(0.005)
        time.sleep(float(ctx.rng.random() * 0.5))
        p.send_signal(signal.SIGKILL)
        p.wait()
        steps = steps_in(d)
        pm = T.make("cls", 2, seed=3)
        got = restore(pm, d)
        ctx.check(got is not None, "latest-scheduled-save-survives")
        ctx.check(got[0] == max(steps), "newest-restored", f"{got[0]} of {steps}")
        ctx.check(min(keep, max(steps)) <= len(steps) <= keep + 1, "retention", str(steps))
        ctx.check(steps == list(range(steps[0], steps[0] + len(steps))), "newest-saves-kept", str(steps))
        # the surviving state is the one an undisturbed run has at that step
        r = np.random.default_rng(0)
        xy = (r.normal(size=(8, 2)).astype("float32"), np.arange(8) % 2)
        rec = Steps()
        twin = T.make("cls", 2, seed=3)
        twin.train(T.loader(xy, 8), fit_config=T.config(optax.sgd(0.02), min(got[0], 2000), callbacks=[rec]))
        if got[0] <= 2000:
            ctx.check(same(got[1], rec.by_step()[got[0]]), "restored-equals-training-state", got[0])
        ctx.key(got[0])
