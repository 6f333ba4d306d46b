import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict

from fortuna.model.mlp import MLP
from fortuna.model_editor.probit import ProbitModelEditor
from fortuna.utils.grad import value_and_jacobian_squared_row_norm
from fortuna.utils.probit import probit_scaling, sequential_probit_scaling
from vf.core import Suite
from vf.props import trainrig as T

suite = Suite(
    "C35",
    rule="case = (model, parameters, inputs, selected parameters, log-variance, strategy); distinct = distinct scaled outputs",
    assumptions=["sequences: the variance of a token is conditional on the previous final tokens and `memory` spans them all "
                 "(its default); shorter memories are an undocumented approximation",
                 "with top-k the classes outside the k largest get the largest variance among those k, as implemented in both strategies",
                 "cases with a covariance conditioned worse than 1e4 are compared only where no inversion is involved"],
    required={"flat": 30, "sequence": 12, "subset": 20, "top_k": 15, "dict-input": 5, "aux": 10, "editor": 3, "stop-gradient": 1},
)


class Seq(nn.Module):
    """outputs (batch, tokens, classes): every token has its own mixing weights, so that tokens are far from dependent"""
    tokens: int
    dim: int

    @nn.compact
    def __call__(self, x, train=False, **kw):
        h = nn.tanh(nn.Dense(6, name="trunk")(x))
        o = nn.Dense(self.tokens * self.dim, name="head")(h) + 0.3 * nn.Dense(self.tokens * self.dim, name="skip")(x)
        return o.reshape(x.shape[0], self.tokens, self.dim)


def jac(fun, params, paths):
    """dense (rows, n selected parameters) Jacobian of fun(params) -> (rows,)"""
    J = jax.jacrev(fun)(params)
    flat = T.flat_dict(J)
    return np.concatenate([v.reshape(v.shape[0], -1) for k, v in flat.items() if k in paths], 1).astype(float)


def setup(ctx, sequence, n_tokens=None):
    dim, n = ctx.choice([2, 4]), ctx.choice([1, 3])
    tokens = n_tokens or (ctx.choice([2, 3]) if sequence else 1)
    model = Seq(tokens, dim) if sequence else MLP(dim, widths=(5,), activations=(nn.tanh,))
    x = ctx.rng.normal(size=(n, 3)).astype(np.float32)
    p = model.init(jax.random.PRNGKey(ctx.integers(0, 10**6)), x)
    p = jax.tree_util.tree_map(lambda v: jnp.asarray(v + 0.3 * ctx.rng.normal(size=v.shape), jnp.float32), p)
    p = jax.tree_util.tree_map(lambda v: v, FrozenDict(p))
    names = list(T.flat_dict(p))
    sel = ctx.choice(["all", "leaf-name", "branch"])
    if sel == "all":
        fz, paths = None, names
    elif sel == "leaf-name":
        fz, paths = (lambda path, v: path[-1] == "kernel"), [k for k in names if k[-1] == "kernel"]
    else:
        a = names[-1][:-1]
        fz, paths = (lambda path, v: tuple(path[:len(a)]) == a or path[-1] == "bias"), [k for k in names if k[:len(a)] == a or k[-1] == "bias"]
    if sel != "all":
        ctx.event("subset")
    return model, p, x, dim, tokens, n, sel, fz, set(paths)


def apply_of(ctx, model, form, has_aux):
    def f(p, x):
        if form == "dict":
            x = x["a"] + x["b"]
        o = model.apply(p, x)
        return (o, {"tag": 7}) if has_aux else o
    return f


@suite.scenario(quick=36, thorough=700)
def every_strategy(ctx):
    """models with one output vector: both strategies and the raw Jacobian norms against the dense Jacobian"""
    model, p, x, dim, _, n, sel, fz, paths = setup(ctx, False)
    form, aux = ctx.choice(["array", "dict"]), ctx.rng.random() < 0.5
    k = ctx.choice([None, None, 1, 2, dim])
    lv = float(ctx.choice([-30.0, -3.0, 0.0, 1.5]))
    ctx.note(dim=dim, n=n, sel=sel, form=form, aux=aux, top_k=k, log_var=lv)
    ctx.event("flat")
    if form == "dict":
        ctx.event("dict-input")
    if aux:
        ctx.event("aux")
    if k:
        ctx.event("top_k")
    f = apply_of(ctx, model, form, aux)
    inp = {"a": x * 0.25, "b": x * 0.75} if form == "dict" else x
    raw = np.asarray(model.apply(p, x), float)
    var = np.stack([(jac(lambda q: model.apply(q, x[i:i + 1])[0], p, paths) ** 2).sum(1) for i in range(n)])
    if k is not None:
        for i in range(n):
            top = np.argsort(raw[i])[-k:]
            v = np.full(dim, var[i, top].max())
            v[top] = var[i, top]
            var[i] = v
    want = raw / (1 + np.pi / 8 * np.exp(lv) * var)
    kw = dict(has_aux=aux, freeze_fun=fz, top_k=k)
    got_v = value_and_jacobian_squared_row_norm(f, p, inp, **kw)
    (o, nrm) = got_v
    if aux:
        ctx.equal(o[1], {"tag": 7}, "auxiliary-output-returned")
        o = o[0]
    ctx.close(np.asarray(o), raw, "outputs-unchanged", rtol=1e-4, atol=1e-5)
    ctx.close(np.asarray(nrm), var, "jacobian-row-norms", rtol=2e-3, atol=1e-4)
    out = {}
    for name, fun in (("batched", probit_scaling), ("sequential", sequential_probit_scaling)):
        got = fun(f, p, inp, lv, **kw)
        if aux:
            ctx.equal(got[1], {"tag": 7}, "auxiliary-output-returned:" + name)
            got = got[0]
        got = out[name] = np.asarray(got)
        ctx.close(got, want, "linearised-probit:" + name, rtol=3e-3, atol=1e-4)
        ctx.check(np.all(np.abs(got) <= np.abs(raw) * (1 + 1e-5)) and np.all(np.sign(got) == np.sign(raw)), "shrinks-without-flipping:" + name)
        one = fun(f, p, jax.tree_util.tree_map(lambda v: v[:1], inp), lv, **kw)
        ctx.close(np.asarray(one[0] if aux else one), got[:1], "rows-are-independent:" + name, rtol=1e-4, atol=1e-6)
        if lv == -30.0:
            ctx.close(got, raw, "no-uncertainty-no-change:" + name, rtol=1e-4, atol=1e-6)
    ctx.key(out["batched"])


@suite.scenario(quick=20, thorough=350)
def sequences(ctx):
    """sequence outputs: the variance of a token given the tokens before it, by dense block elimination"""
    model, p, x, dim, S, n, sel, fz, paths = setup(ctx, True)
    last = ctx.choice([None, 1, 2, S])
    k = ctx.choice([None, None, 1, 2])
    lv = float(ctx.choice([-3.0, 0.0, 1.0]))
    aux = ctx.rng.random() < 0.5
    memory = ctx.choice([None, "full"])
    ctx.note(dim=dim, tokens=S, n=n, sel=sel, last=last, top_k=k, log_var=lv, aux=aux)
    ctx.event("sequence")
    if k:
        ctx.event("top_k")
    if aux:
        ctx.event("aux")
    L = last or S
    f = apply_of(ctx, model, "array", aux)
    raw = np.asarray(model.apply(p, x), float)
    want, sure = raw.copy(), np.ones(raw.shape, bool)
    for i in range(n):
        J = jac(lambda q: model.apply(q, x[i:i + 1])[0].reshape(-1), p, paths).reshape(S, dim, -1)
        seen = np.zeros((0, J.shape[-1]))
        for t in range(S - L, S):
            top = np.argsort(raw[i, t])[-k:] if k else np.arange(dim)
            A = J[t][top]
            C = A @ A.T
            if len(seen):
                G = seen @ seen.T
                if np.linalg.cond(G) > 1e4:
                    sure[i, t:] = False
                C = C - A @ seen.T @ np.linalg.pinv(G) @ seen @ A.T
            seen = np.concatenate([seen, A])
            d = np.diag(C)
            v = np.full(dim, d.max())
            v[top] = d
            want[i, t] = raw[i, t] / (1 + np.pi / 8 * np.exp(lv) * v)
    kw = dict(has_aux=aux, freeze_fun=fz, top_k=k)
    if last:
        kw["n_final_tokens"] = last
    if memory:
        kw["memory"] = L
    got = sequential_probit_scaling(f, p, x, lv, **kw)
    if aux:
        ctx.equal(got[1], {"tag": 7}, "auxiliary-output-returned")
        got = got[0]
    got = np.asarray(got)
    ctx.equal(got.shape, raw.shape, "shape-kept")
    ctx.close(got[:, :S - L], raw[:, :S - L], "earlier-tokens-untouched", rtol=1e-4, atol=1e-6)
    ctx.close(got[sure], want[sure], "conditional-linearised-probit", rtol=2e-2, atol=2e-3)
    ctx.key(got)


@suite.scenario(quick=6, thorough=60)
def invalid_spans(ctx):
    model, p, x, dim, S, n, sel, fz, paths = setup(ctx, True, 2)
    f = apply_of(ctx, model, "array", False)
    bad = ctx.choice([dict(n_final_tokens=0), dict(n_final_tokens=3), dict(memory=0), dict(memory=3), dict(n_final_tokens=1, memory=2)])
    ctx.note(**bad)
    ctx.raises(ValueError, lambda: sequential_probit_scaling(f, p, x, 0.0, **bad), "invalid-span-rejected")
    ctx.key(str(bad))


@suite.scenario(quick=6, thorough=60)
def gradients(ctx):
    """with stop_gradient the variance is a constant of the gradient; without, it is not"""
    model, p, x, dim, _, n, sel, fz, paths = setup(ctx, False)
    stop = ctx.rng.random() < 0.6
    if stop:
        ctx.event("stop-gradient")
    ctx.note(stop=stop, sel=sel)
    f = apply_of(ctx, model, "array", False)
    w = ctx.rng.normal(size=(n, dim)).astype(np.float32)
    g = jax.grad(lambda q: (w * sequential_probit_scaling(f, q, x, 0.0, freeze_fun=fz, stop_gradient=stop)).sum())(p)
    _, nrm = value_and_jacobian_squared_row_norm(f, p, x, freeze_fun=fz)

    def ref(q):
        v = jax.lax.stop_gradient(nrm) if stop else value_and_jacobian_squared_row_norm(f, q, x, freeze_fun=fz)[1]
        return (w * model.apply(q, x) / (1 + jnp.pi / 8 * v)).sum()

    r = jax.grad(ref)(p)
    a, b = T.flat_dict(g), T.flat_dict(r)
    for key in b:
        ctx.close(a[key], b[key], "gradient" + (":stopped" if stop else ":through"), rtol=5e-3, atol=5e-4)
    ctx.key(np.concatenate([v.reshape(-1) for v in a.values()]))


@suite.scenario(quick=5, thorough=50)
def model_editor(ctx):
    """a whole classifier with the probit editor: outputs are the scaled outputs at the learned log-variance"""
    dim, n = ctx.choice([2, 3]), 14
    init = float(ctx.choice([-4.0, 0.0]))
    frozen = ctx.rng.random() < 0.5
    fz = (lambda path, v: "output_subnet" in path) if frozen else None
    ctx.note(dim=dim, init=init, frozen=frozen)
    ctx.event("editor")
    from fortuna.prob_model import MAPPosteriorApproximator, ProbClassifier
    net = MLP(dim, widths=(3,), activations=(nn.tanh,))
    pm = ProbClassifier(model=net, posterior_approximator=MAPPosteriorApproximator(), model_editor=ProbitModelEditor(freeze_fun=fz, init_log_var=init),
                        seed=ctx.integers(0, 100))
    x, y = T.data(ctx, "cls", dim, n)
    x0 = x.copy()
    pm.train(T.loader((x, y), 7), fit_config=T.config(n_epochs=2))
    st = pm.posterior.state.get()
    got = np.asarray(pm.joint.likelihood.model_manager.apply(st.params, x[:4]))
    lv = float(np.asarray(st.params["model_editor"]["params"]["log_var"])[0])
    ctx.check(np.isfinite(lv) and abs(lv - init) > 0, "editor-log-variance-is-trained", f"{lv}")
    raw = np.asarray(net.apply(st.params["model"], x[:4]), float)
    paths = {k for k in T.flat_dict(st.params["model"]) if fz is None or "output_subnet" in k}
    var = np.stack([(jac(lambda q: net.apply(q, x[i:i + 1])[0], st.params["model"], paths) ** 2).sum(1) for i in range(4)])
    want = raw / (1 + np.pi / 8 * np.exp(lv) * var)
    ctx.close(got, want, "editor-scales-outputs", rtol=3e-3, atol=1e-4)
    ctx.check(np.array_equal(x, x0), "inputs-untouched")
    ctx.key(got)
