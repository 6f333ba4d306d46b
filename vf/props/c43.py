import contextlib
import os
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from omegaconf import OmegaConf

import fortuna.sagemaker.base as sm
from fortuna.plot import plot_1d_regression_preds_and_std, plot_2d_classification_predictions_and_uncertainty, plot_reliability_diagram, radar_factory
from fortuna.sagemaker.utils import create_input_channels, get_base_job_name, get_hparams
from vf.core import Suite

suite = Suite(
    "C43",
    rule="case = figure requested (data, grid, uncertainty, model) and drawn off screen, or training-job configuration; "
         "distinct = distinct figures and configurations",
    assumptions=["figures are read back from matplotlib's artists (Agg backend)", "AWS is stood in for by objects that record what they are given"],
    required={"reliability": 15, "grid": 15, "regression": 6, "saved": 8, "job": 15, "tuner": 4},
)


@contextlib.contextmanager
def figures():
    plt.close("all")
    try:
        yield
    finally:
        plt.close("all")


def new_file(ctx, kw, tmp):
    if ctx.rng.random() < 0.3:
        kw["fname"] = os.path.join(tmp, "fig.png")
        return kw["fname"]


def saved(ctx, path):
    if path:
        ctx.event("saved")
        ctx.check(os.path.isfile(path) and os.path.getsize(path) > 0, "figure-saved")


@suite.scenario(quick=40, thorough=600)
def reliability(ctx):
    k = ctx.choice([1, 1, 2, 3])
    n = [ctx.choice([1, 5, 10]) for _ in range(k)]
    accs, confs = [ctx.rng.random(i) for i in n], [ctx.rng.random(i) for i in n]
    labels = ctx.choice([None, [f"m{i}" for i in range(k)]])
    kw = dict(title=ctx.choice([None, "t"]), ylim=ctx.choice([None, (-0.5, 0.7)]), labels=labels)
    a, c = (accs[0], confs[0]) if k == 1 and ctx.rng.random() < 0.5 else (accs, confs)
    if labels and k == 1:
        kw["labels"] = labels[0]
    ctx.note(k=k, n=n, labels=bool(labels))
    ctx.key(k, float(sum(v.sum() for v in accs)))
    ctx.event("reliability")
    before = [v.copy() for v in accs + confs]
    with figures(), tempfile.TemporaryDirectory() as tmp:
        own = ctx.rng.random() < 0.5
        if own:
            fig, kw["ax"] = plt.subplots()
        path = new_file(ctx, kw, tmp)
        plot_reliability_diagram(a, c, **kw)
        saved(ctx, path)
        ax = kw["ax"] if own else plt.gcf().axes[0]
        lines = [l for l in ax.get_lines() if l.get_marker() == "."]
        ctx.check(len(lines) == k, "one-curve-per-method", str(len(lines)))
        for l, aa, cc in zip(lines, accs, confs):
            o = np.argsort(cc)
            ctx.close(l.get_xdata(), cc[o], "confidence-axis", atol=1e-7)
            ctx.close(l.get_ydata(), (cc - aa)[o], "gap-axis", atol=1e-7)
        if labels:
            ctx.check([l.get_label() for l in lines] == labels, "labels")
            ctx.check([t.get_text() for t in ax.get_legend().get_texts()] == labels, "legend")
        if kw["ylim"]:
            ctx.check(ax.get_ylim() == kw["ylim"], "limits", str(ax.get_ylim()))
        if kw["title"]:
            ctx.check(ax.get_title() == "t", "title")
        ctx.raises(ValueError, lambda: plot_reliability_diagram(accs + [accs[0]], confs), "unequal-lengths")
        ctx.raises(ValueError, lambda: plot_reliability_diagram(accs, confs, labels=["a"] * (k + 1)), "unequal-labels")
    ctx.check(all(np.array_equal(u, v) for u, v in zip(before, accs + confs)), "inputs-untouched")


def unc(g):
    return 3 * g[:, 0] + np.sin(5 * g[:, 1]) + 0.1 * g[:, 1]


@suite.scenario(quick=50, thorough=600)
def grid(ctx):
    n = ctx.choice([4, 9])
    x = ctx.rng.normal(size=(n, 2)) * [1, ctx.choice([1, 20])] + [0, 3]
    preds = ctx.choice([None, ctx.rng.integers(0, 2, n)])
    x1, x2 = np.linspace(-2, 2, ctx.choice([3, 6])), np.linspace(5, 9, ctx.choice([3, 6, 7]))
    full = np.array([[u, v] for u in x1 for v in x2])
    how = ctx.choice(["range", "one-axis", "other-axis", "both-axes", "grid", "grid+values", "grid+values+axes"])
    kw = dict(inputs=x, preds=preds, return_pcolor=True, title=ctx.choice([None, "t"]), legend=ctx.rng.random() < 0.3,
              colorbar=ctx.rng.random() < 0.3)
    if how in ("range", "one-axis", "other-axis", "both-axes", "grid"):
        kw["uncertainty_fn"] = unc
    if how in ("one-axis", "both-axes", "grid+values+axes"):
        kw["xx1"] = x1
    if how in ("other-axis", "both-axes", "grid+values+axes"):
        kw["xx2"] = x2
    if how.startswith("grid"):
        kw["grid"] = full.copy()
        if "+values" in how:
            kw["grid_uncertainty"] = ctx.choice([unc(full), unc(full).reshape(len(x1), len(x2))])
    if how == "both-axes" and ctx.rng.random() < 0.5:
        kw["inputs"], kw["preds"] = None, None
    ctx.note(how=how, n=n)
    ctx.key(how, n, len(x1), len(x2), float(x.sum()))
    ctx.event("grid")
    before = x.copy()
    with figures(), tempfile.TemporaryDirectory() as tmp:
        path = new_file(ctx, kw, tmp)
        im = plot_2d_classification_predictions_and_uncertainty(**kw)
        saved(ctx, path)
        ax = im.axes
        lo, hi = x.min(0), x.max(0)
        r = [np.linspace(lo[i] - 1.25 * (hi[i] - lo[i]), hi[i] + 1.25 * (hi[i] - lo[i]), 100) for i in (0, 1)]
        if how == "range":
            a1, a2 = r
        elif how == "one-axis":
            a1, a2 = x1, np.linspace(r[1][0], r[1][-1], len(x1))
        elif how == "other-axis":
            a1, a2 = np.linspace(r[0][0], r[0][-1], len(x2)), x2
        else:
            a1, a2 = x1, x2
        want = np.array([[u, v] for u in a1 for v in a2])
        vals = np.asarray(im.get_array()).ravel()
        # every cell drawn sits on its grid point and shows its uncertainty
        cells = np.array([p.vertices[:4].mean(0) for p in im.get_paths()])
        ctx.check(len(cells) == len(want) and vals.size == len(want), "one-cell-per-grid-point", f"{len(cells)} {vals.size} {len(want)}", fatal=True)
        ctx.close(cells, want, "cell-position", rtol=1e-4, atol=1e-4)
        ctx.close(vals, unc(cells), "cell-uncertainty", rtol=1e-3, atol=1e-3 + 1e-3 * np.abs(vals).max())
        if kw["inputs"] is not None:
            sc = [c for c in ax.collections if c is not im][0]
            ctx.close(sc.get_offsets(), x, "points", atol=1e-7)
            cols = sc.get_facecolors()
            if preds is not None:
                w = np.array([matplotlib.colors.to_rgba("C2" if p == 1 else "C3") for p in preds])
                ctx.close(np.broadcast_to(cols, w.shape), w, "prediction-colours", atol=1e-6)
            else:
                ctx.close(cols[0], matplotlib.colors.to_rgba("black"), "plain-colour", atol=1e-6)
        if kw["title"]:
            ctx.check(ax.get_title() == "t", "title")
        if how == "range":
            f = plot_2d_classification_predictions_and_uncertainty
            ctx.raises(ValueError, lambda: f(), "nothing-given")
            ctx.raises(ValueError, lambda: f(inputs=x), "no-uncertainty")
            ctx.raises(ValueError, lambda: f(inputs=x, grid_uncertainty=unc(full)), "values-without-grid")
            ctx.check(f(inputs=x, uncertainty_fn=unc) is None, "returns-nothing-unless-asked")
    ctx.check(np.array_equal(before, x), "inputs-untouched")


class Model:
    """a probabilistic regressor as far as the plot is concerned: it reads the loader it is given"""

    def __init__(self):
        self.predictive = self

    @staticmethod
    def _x(loader):
        return np.concatenate([np.asarray(b).reshape(len(b), -1) for b in loader])

    def mean(self, loader):
        return np.sin(3 * self._x(loader))

    def std(self, loader):
        return 0.1 + self._x(loader) ** 2


@suite.scenario(quick=20, thorough=300)
def regression(ctx):
    n = ctx.choice([2, 5, 200])
    mesh = np.linspace(-1, 2, n)
    shape = ctx.choice(["flat", "column"])
    m = mesh if shape == "flat" else mesh[:, None]
    k = ctx.choice([None, 1.0, 3.0])
    kw = {} if k is None else dict(n_std=k)
    data = ctx.choice([None, (ctx.rng.normal(size=(6, 1)), ctx.rng.normal(size=(6, 1)))])
    ctx.note(n=n, shape=shape)
    ctx.key(n, shape, k, data is None)
    ctx.event("regression")
    with figures(), tempfile.TemporaryDirectory() as tmp:
        if ctx.rng.random() < 0.5:
            fig, kw["ax"] = plt.subplots()
        path = new_file(ctx, kw, tmp)
        ax = plot_1d_regression_preds_and_std(Model(), m, data=data, legend=ctx.rng.random() < 0.5, title="t", **kw)
        saved(ctx, path)
        line = ax.get_lines()[0]
        ctx.close(np.ravel(line.get_xdata()), mesh, "mean-axis", atol=1e-6)
        ctx.close(np.ravel(line.get_ydata()), np.sin(3 * mesh), "mean", atol=1e-5)
        band = [c for c in ax.collections if isinstance(c, matplotlib.collections.PolyCollection)][-1]
        v = band.get_paths()[0].vertices
        s = 0.1 + mesh ** 2
        for t, mid, sd in zip(mesh, np.sin(3 * mesh), s):
            ys = v[np.isclose(v[:, 0], t, atol=1e-6)][:, 1]
            w = (2.0 if k is None else k) * sd
            ctx.close([ys.min(), ys.max()], [mid - w, mid + w], "band", f"at {t}", rtol=1e-4, atol=1e-4)
        if data is not None:
            sc = ax.collections[0]
            ctx.close(sc.get_offsets(), np.concatenate(data, 1), "data-points", atol=1e-6)
        ctx.check(ax.get_title() == "t", "title")


@suite.scenario(quick=8, thorough=60)
def radar(ctx):
    n = ctx.choice([3, 4, 5, 8])
    frame = ctx.choice(["circle", "polygon"])
    ctx.key(n, frame)
    theta = radar_factory(n, frame=frame)
    ctx.close(theta, 2 * np.pi * np.arange(n) / n, "evenly-spaced", atol=1e-9)
    with figures():
        fig, ax = plt.subplots(subplot_kw=dict(projection="radar"))
        v = ctx.rng.random(n) + 0.1
        ax.plot(theta, v)
        l = ax.get_lines()[0]
        ctx.close(l.get_xdata(), np.append(theta, theta[0]), "closed-angles", atol=1e-9)
        ctx.close(l.get_ydata(), np.append(v, v[0]), "closed-values", atol=1e-9)
        ax.fill(theta, v)
        names = [f"v{i}" for i in range(n)]
        ax.set_varlabels(names)
        ctx.check([t.get_text() for t in ax.get_xticklabels()] == names, "labels")
        fig.canvas.draw()


# ---------------------------------------------------------------------------------------------------- training jobs
class Stub:
    made = []

    def __init__(self, *a, **kw):
        self.a, self.kw, self.fits = a, kw, []
        Stub.made.append(self)

    def client(self, service_name):
        return ("client", service_name)

    def fit(self, **kw):
        self.fits.append(kw)


def named(name):
    return type(name, (Stub,), {})


def config(ctx):
    pick = lambda *v: ctx.choice(list(v))
    ds = {"base_data_path": pick("s3://bucket/data", "s3://bucket/data/")}
    for part in ("train", "test", "validation"):
        p = pick(None, "", f"{part}/", f"some_{part}.csv")
        if p is not None:
            ds[part + "_relative_path"] = p
    c = {"dataset": ds,
         "task": {"name": pick("classification", "my_task"), "hparams": {"n_epochs": ctx.integers(1, 9)}},
         "model": {"name": pick("mlp", "wide_resnet_50"), "hparams": {"width": ctx.integers(1, 99), "depth": 2}},
         "method": {"name": pick("map", "deep_ensemble"), "hparams": pick({}, {"ensemble_size": 3, "lr": 0.1})},
         "sagemaker": {"account_id": "0123456789", "iam_role": "role", "profile": "prof", "region": "eu-west-1", "entrypoint": "examples/run.py",
                       "instance_type": "ml.p3.2xlarge", "job_name_suffix": pick(None, "night_run", "x")},
         "output_data_path": "s3://bucket/out", "hyperparams": {}}
    if pick(True, False):
        c["sagemaker"]["metrics"] = [{"Name": "loss", "Regex": "loss: (.*)"}, {"Name": "acc", "Regex": "a=(.*)"}]
    if pick(True, False):
        c["model"]["model_path"] = "s3://bucket/model"
    if pick(True, False, False):
        c["hyperparams"]["tuner"] = {"_target_": "builtins.dict", "objective_metric_name": "acc", "max_jobs": 7}
    return c


@suite.scenario(quick=40, thorough=600)
def jobs(ctx):
    c = config(ctx)
    cfg = OmegaConf.create(c)
    ctx.note(**{k: str(c[k]) for k in ("dataset", "model", "method", "task")})
    ctx.key(str(c))
    ctx.event("job")
    ds = c["dataset"]
    base = "s3://bucket/data/"
    want = {"train": base + ds.get("train_relative_path", "")}
    for part in ("test", "validation"):
        if ds.get(part + "_relative_path"):
            want[part] = base + ds[part + "_relative_path"]
    ctx.equal(dict(create_input_channels(cfg)), want, "channels")
    hp = {**c["task"]["hparams"], **c["model"]["hparams"], **c["method"]["hparams"]}
    ctx.equal(dict(get_hparams(cfg)), hp, "hyperparameters")
    parts = ["fortuna", c["task"]["name"], c["method"]["name"], c["model"]["name"]]
    if c["sagemaker"]["job_name_suffix"] is not None:
        parts.append(c["sagemaker"]["job_name_suffix"])
    name = "-".join(parts).replace("_", "-")
    ctx.equal(get_base_job_name(cfg), name, "job-name")
    ctx.check("_" not in get_base_job_name(cfg), "job-name-legal")
    dup = OmegaConf.create({**c, "method": {"name": "m", "hparams": {"n_epochs": 3}}})
    ctx.raises(TypeError, lambda: get_hparams(dup), "conflicting-hyperparameters")

    # the whole launch, with every AWS object replaced by one that records what it is given
    Stub.made = []
    keep = {n: getattr(sm, n) for n in ("TensorFlow", "HyperparameterTuner", "boto3", "sagemaker", "ProfilerConfig", "FrameworkProfile", "ProfilerRule", "rule_configs")}
    try:
        ns = type("NS", (), {})
        sm.boto3, sm.sagemaker = ns(), ns()
        sm.boto3.Session = named("Boto")
        sm.sagemaker.Session = named("Session")
        sm.TensorFlow, sm.HyperparameterTuner = named("TF"), named("Tuner")
        if ctx.rng.random() < 0.5:
            sm._run_training_job(cfg)
        else:
            with tempfile.TemporaryDirectory() as tmp:
                OmegaConf.save(cfg, os.path.join(tmp, "job.yaml"))
                sm.run_training_job(tmp, "job")
    finally:
        for n, v in keep.items():
            setattr(sm, n, v)
    by = {}
    for s in Stub.made:
        by.setdefault(type(s).__name__, []).append(s)
    ctx.check(len(by.get("TF", [])) == 1, "one-estimator", fatal=True)
    e = by["TF"][0].kw
    s = c["sagemaker"]
    ctx.equal(dict(e["hyperparameters"]), hp, "estimator-hyperparameters")
    ctx.equal(e["role"], "arn:aws:iam::0123456789:role/role", "role")
    ctx.equal(e["image_uri"], "0123456789.dkr.ecr.eu-west-1.amazonaws.com/fortuna:dev", "image")
    ctx.equal(e["entry_point"], "./examples/run.py", "entry-point")
    ctx.check(os.path.isdir(os.path.join(e["source_dir"], "fortuna")), "source", str(e["source_dir"]))
    ctx.equal((e["instance_type"], e["output_path"], e["base_job_name"]), ("ml.p3.2xlarge", "s3://bucket/out", name), "estimator")
    ctx.equal([dict(m) for m in e["metric_definitions"]], s.get("metrics", []), "metrics")
    ctx.check(e["sagemaker_session"] is by["Session"][0] and by["Session"][0].kw["boto_session"] is by["Boto"][0], "session")
    ctx.equal(dict(by["Boto"][0].kw), dict(profile_name="prof", region_name="eu-west-1"), "credentials")
    runner = by["TF"][0]
    if "tuner" in c["hyperparams"]:
        ctx.event("tuner")
        ctx.check(len(by.get("Tuner", [])) == 1, "one-tuner", fatal=True)
        runner = by["Tuner"][0]
        ctx.check(runner.kw["estimator"] is by["TF"][0] and not by["TF"][0].fits, "tuner-wraps-estimator")
        ctx.equal((runner.kw["objective_metric_name"], runner.kw["max_jobs"], runner.kw["base_tuning_job_name"]), ("acc", 7, name), "tuner")
    else:
        ctx.check("Tuner" not in by, "no-tuner")
    full = dict(want)
    if "model_path" in c["model"]:
        full["loadmodel"] = "s3://bucket/model"
    ctx.check(len(runner.fits) == 1, "started-once", fatal=True)
    ctx.equal(dict(runner.fits[0]["inputs"]), full, "fit-channels")
    ctx.check(runner.fits[0].get("wait") is False, "does-not-wait")
