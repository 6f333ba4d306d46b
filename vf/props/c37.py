"""C37 hallucination scores and groups: a tiny real language model, with every stage recomputed from its definition."""
import inspect
import os

os.environ.setdefault("TOKENIZERS_PARALLELISM", "false")

import numpy as np
import torch
from scipy.special import logsumexp
from sklearn.base import clone
from sklearn.decomposition import PCA
from sklearn.mixture import GaussianMixture
from tokenizers import Tokenizer, models, pre_tokenizers
from transformers import GPT2Config, GPT2LMHeadModel, PreTrainedTokenizerFast

from fortuna.conformal import BinaryClassificationMulticalibrator
from fortuna.hallucination import base as _base
from fortuna.hallucination.base import HallucinationMulticalibrator
from fortuna.hallucination.grouping.clustering.base import GroupingModel
from fortuna.hallucination.scoring.inv_perplexity import inv_perplexity, perplexity
from fortuna.hallucination.utils.string import string_cleaner
from vf.core import Suite
from vf.props import postrig as R

_base.tqdm = lambda it, **kw: it
torch.set_num_threads(1)

suite = Suite(
    "C37",
    rule="case = logits and labels, embeddings and candidate clusterings, or texts/contexts/labels run through a small GPT-2; distinct = distinct scores, groups or probabilities",
    assumptions=["all texts of a batch have the same number of tokens, and so do all contexts, except where the known padding finding is demonstrated",
                 "clustering models have fixed random states"],
    required={"perplexity": 20, "grouping": 10, "constant-feature": 2, "pipeline": 6, "balanced": 2, "saved": 3, "unpadded-batches": 4, "strings": 10, "recomputed": 2},
)


@suite.scenario(quick=60, thorough=2000)
def scores(ctx):
    b, l, v = ctx.choice([1, 2, 5]), ctx.choice([2, 3, 6, 12]), ctx.choice([2, 5, 40])
    scale = float(ctx.choice([0.1, 1.0, 30.0]))
    x = torch.tensor(ctx.rng.normal(size=(b, l, v)) * scale, dtype=torch.float32)
    y = torch.tensor(ctx.rng.integers(0, v, size=(b, l)))
    n = ctx.integers(1, l - 1)
    x0, y0 = x.clone(), y.clone()
    got, inv = perplexity(x, y, n).numpy(), inv_perplexity(x, y, n).numpy()
    a, t = x.numpy().astype(float)[:, :-1], y.numpy()[:, 1:]
    ll = np.take_along_axis(a - logsumexp(a, -1, keepdims=True), t[..., None], -1)[..., 0]
    with np.errstate(over="ignore"):
        want = np.exp(-ll[:, -n:].mean(1))
    ctx.note(batch=b, length=l, vocabulary=v, scale=scale, final_tokens=n)
    ctx.event("perplexity")
    ctx.key(inv)
    ok = want < 1e30
    ctx.close(got[ok], want[ok], "perplexity", "exp of the mean cross-entropy of the final tokens", rtol=2e-3)
    ctx.close(inv, 1 / want, "inverse-perplexity", "", rtol=2e-3, atol=1e-30)
    ctx.check(np.all((inv >= 0) & (inv <= 1 + 1e-6)), "score-range", str(inv))
    p = torch.tensor(ctx.rng.permutation(b))
    ctx.close(inv_perplexity(x[p], y[p], n).numpy(), inv[p.numpy()], "order-dependence", "permuted batch", rtol=1e-5, atol=1e-30)
    one = np.concatenate([inv_perplexity(x[i:i + 1], y[i:i + 1], n).numpy() for i in range(b)])
    ctx.close(one, inv, "batch-dependence", "one by one", rtol=1e-5, atol=1e-30)
    # what comes before the scored tokens does not matter
    z = x.clone()
    z[:, : l - 1 - n] += 3.0 * torch.randn(z[:, : l - 1 - n].shape)
    z[:, -1] += 1.0
    ctx.close(inv_perplexity(z, y, n).numpy(), inv, "foreign-tokens", "logits outside the final tokens", rtol=1e-5, atol=1e-30)
    ctx.check(torch.equal(x, x0) and torch.equal(y, y0), "input-modified", "")


def blobs(ctx, n, d, k):
    c = ctx.rng.normal(size=(k, d)) * 6
    return c[ctx.rng.integers(0, k, n)] + ctx.rng.normal(size=(n, d)), ctx.rng.normal(size=d) * 5


def candidates(ctx):
    ks = [int(k) for k in ctx.rng.permutation([1, 2, 3, 4])[: ctx.choice([1, 2, 4])]]
    return [GaussianMixture(n_components=k, random_state=3, reg_covar=1e-3) for k in ks]


def best_of(z, ms):
    fits = [clone(m).fit(z) for m in ms]
    bics = [f.bic(z) for f in fits]
    return fits[int(np.argmin(bics))], np.sort(bics)


@suite.scenario(quick=30, thorough=500)
def groups(ctx):
    n, d = ctx.choice([30, 60]), ctx.choice([1, 2, 4])
    e, shift = blobs(ctx, n, d, ctx.choice([1, 2, 3]))
    e = e + shift
    if ctx.rng.random() < 0.3:
        e = np.concatenate([e, np.full((n, 1), float(ctx.choice([0.0, 2.5])))], 1)
        ctx.event("constant-feature")
    ms = candidates(ctx)
    keep = e.copy()
    g = GroupingModel()
    g.fit(e, clustering_models=ms)
    ctx.event("grouping")
    ctx.note(n=n, features=e.shape[1], candidates=[m.n_components for m in ms])
    mean, std = e.mean(0), e.std(0)
    std = np.where(std > 1e-12, std, 1.0)
    best, bics = best_of((e - mean) / std, ms)
    p = g.predict_proba(e)
    ctx.key(p)
    if len(bics) == 1 or bics[1] - bics[0] > 1e-6 * abs(bics[0]):
        ctx.check(p.shape[1] == best.n_components, "group-count", f"{p.shape[1]} groups, the lowest information criterion has {best.n_components}")
        ctx.close(p, best.predict_proba((e - mean) / std), "group-probabilities", "training data", rtol=1e-3, atol=1e-4)
        new = blobs(ctx, 7, d, 2)[0] + shift
        new = np.concatenate([new, np.repeat(e[:1, d:], 7, 0)], 1)
        ctx.close(g.predict_proba(new), best.predict_proba((new - mean) / std), "group-probabilities", "new data, normalised like the training data", rtol=1e-3, atol=1e-4)
    ctx.check(np.all((p >= 0) & (p <= 1)) and np.allclose(p.sum(1), 1, atol=1e-6), "group-probabilities-range", str(p.sum(1)))
    one = np.concatenate([g.predict_proba(e[i:i + 1]) for i in range(5)])
    ctx.close(one, p[:5], "group-independence", "one by one", rtol=1e-6, atol=1e-8)
    h = g.hard_predict(e)
    ctx.check(h.dtype == bool and np.array_equal(h.argmax(1), p.argmax(1)) and np.all(h.sum(1) == 1), "hard-groups", "")
    t = float(ctx.choice([0.2, 0.5, 0.8]))
    ctx.equal(g.soft_predict(e, t), p > np.quantile(p, t, axis=0), "soft-groups", f"threshold {t}")
    ctx.close(g.compute_quantile(p, t), np.quantile(p, t, axis=0), "group-quantile", "", rtol=1e-9)
    ctx.check(np.array_equal(e, keep), "input-modified", "embeddings")


@suite.scenario(quick=20, thorough=300)
def strings(ctx):
    """cleaning changes spacing and case only, and changes nothing the second time"""
    words = ["the", "Cat", "sat", "on", "U2", "it's", "mat", "x", "3", "O'Hara"]
    ends = [".", "?", "!", ",", " .", " ?", " ,", "", "  "]
    t = ""
    for _ in range(ctx.integers(1, 12)):
        t += " " * ctx.integers(0, 2) + ctx.choice(words) + ctx.choice(ends) + " " * ctx.integers(0, 1)
    c = string_cleaner(t)
    ctx.event("strings")
    ctx.key(c)
    ctx.note(text=t)
    ctx.check("".join(c.split()).lower() == "".join(t.split()).lower(), "content-changed", f"{t!r} -> {c!r}")


WORDS = [f"w{i}" for i in range(30)]


def lm(seed):
    torch.manual_seed(seed)
    m = GPT2LMHeadModel(GPT2Config(vocab_size=33, n_positions=32, n_embd=8, n_layer=1, n_head=2, initializer_range=0.8,
                                   bos_token_id=0, eos_token_id=0, attn_pdrop=0.0, embd_pdrop=0.0, resid_pdrop=0.0))
    return m.eval()


class Counted(PreTrainedTokenizerFast):
    seen = 0

    def __call__(self, texts, *a, **kw):
        type(self).seen += len(texts)
        return super().__call__(texts, *a, **kw)


def tokenizer(pad=True):
    t = Tokenizer(models.WordLevel({w: i for i, w in enumerate(["<eos>", "<unk>", "<pad>"] + WORDS)}, unk_token="<unk>"))
    t.pre_tokenizer = pre_tokenizers.Whitespace()
    return Counted(tokenizer_object=t, model_input_names=["input_ids", "attention_mask"], eos_token="<eos>", unk_token="<unk>", **(dict(pad_token="<pad>") if pad else {}))


def sentences(ctx, n, length):
    return [" ".join(ctx.choice(WORDS) for _ in range(length)) for _ in range(n)]


def reference(model, tok, texts, contexts):
    """score and embedding of every example, computed alone"""
    s, e = [], []
    for t, c in zip(texts, contexts):
        a, b = [tok.convert_tokens_to_ids(v.split()) for v in (c, t)]
        ids = torch.tensor([a + b])
        with torch.no_grad():
            o = model(input_ids=ids).logits[0].numpy().astype(float)
        lp = o - logsumexp(o, -1, keepdims=True)
        k = [lp[i - 1, ids[0, i]] for i in range(len(a), len(a) + len(b))]
        s.append(np.exp(np.mean(k)))
        e.append(o.mean(0))
    return np.array(s), np.array(e)


@suite.scenario(quick=12, thorough=120)
def pipeline(ctx):
    n, lt, lc = ctx.choice([24, 24, 24, 40]), ctx.choice([1, 3, 5]), ctx.choice([1, 4])
    texts, contexts = sentences(ctx, n, lt), sentences(ctx, n, lc)
    model, tok = lm(ctx.integers(0, 50)), tokenizer(ctx.rng.random() < 0.7)
    s, e = reference(model, tok, texts, contexts)
    y = (ctx.rng.random(n) < np.clip(0.25 + 0.5 * (s > np.median(s)), 0, 1)).astype(int).tolist()
    y[0], y[1] = 0, 1
    balance = ctx.rng.random() < 0.4
    thr = float(ctx.choice([0.5, 0.8]))
    bs = ctx.choice([1, 5, 16, 64])
    ctx.note(n=n, text_tokens=lt, context_tokens=lc, batch=bs, balance=bool(balance), threshold=thr)
    ctx.event("pipeline")

    def build():
        return HallucinationMulticalibrator(generative_model=model, tokenizer=tok, embedding_reduction_model=PCA(n_components=2, random_state=0),
                                            clustering_models=[GaussianMixture(n_components=k, random_state=1, reg_covar=1e-3) for k in (1, 2, 3)], seed=4)

    h = build()
    ctx.raises(ValueError, lambda: h.predict_proba(texts, contexts), "used-before-fit", "predict_proba")
    keep = list(texts), list(contexts), list(y)
    Counted.seen = 0
    recorded, original = [], BinaryClassificationMulticalibrator.calibrate

    def spy(self, *a, **kw):
        recorded.append({k: np.array(v) for k, v in inspect.signature(original).bind(self, *a, **kw).arguments.items() if k in ("probs", "targets", "groups")})
        return original(self, *a, **kw)

    BinaryClassificationMulticalibrator.calibrate = spy
    try:
        h.fit(texts, contexts, y, batch_size=bs, quantile_group_scores_threshold=thr, balance=balance)
    finally:
        BinaryClassificationMulticalibrator.calibrate = original
    used = Counted.seen // 2
    ctx.check((texts, contexts, y) == keep, "input-modified", "fit altered the caller's lists")
    if balance:
        ctx.event("balanced")
        ctx.check(used == 2 * max(sum(y), n - sum(y)), "balance-size", f"{used} examples used for {sum(y)} positives of {n}")
    else:
        ctx.check(used == n, "examples-used", f"{used} examples used of {n}")
    raw = h.predict_proba(texts, contexts, batch_size=bs, calibrate=False)
    ctx.close(raw, s, "score", "inverse perplexity of each answer alone", rtol=1e-3, atol=1e-6)
    p = h.predict_proba(texts, contexts, batch_size=bs)
    ctx.key(p)
    ctx.check(p.shape == (n,) and np.all((p >= 0) & (p <= 1)), "probability-range", str(p))
    for b in (1, 7, 100):
        ctx.close(h.predict_proba(texts, contexts, batch_size=b, calibrate=False), raw, "batching-changes-score", f"batch size {b}", rtol=1e-3, atol=1e-6)
    ctx.event("unpadded-batches")
    o = ctx.rng.permutation(n)
    ctx.close(h.predict_proba([texts[i] for i in o], [contexts[i] for i in o], batch_size=bs, calibrate=False), raw[o], "order-changes-score", "", rtol=1e-3, atol=1e-6)
    ctx.equal(h.predict(texts, contexts, batch_size=bs), (p >= 0.5).astype(int), "prediction", "")
    ctx.equal(h.predict(texts, contexts, batch_size=bs, calibrate=False), (raw >= 0.5).astype(int), "prediction", "uncalibrated")
    ctx.equal(h.predict(texts, contexts, probs=1 - p), (1 - p >= 0.5).astype(int), "prediction", "given probabilities")

    # the groups the calibrator was given: those with the highest group probabilities, and everyone
    rec = recorded[-1]
    m = len(rec["probs"])
    ctx.check(rec["groups"].shape == (m, rec["groups"].shape[1]) and rec["groups"][:, -1].all(), "groups-given", "the last group holds everyone")
    if balance:
        ctx.check(2 * rec["targets"].sum() == m and np.array_equal(rec["targets"][:n], y), "balance-result", f"{rec['targets']}")
        ctx.close(rec["probs"][:n], raw, "scores-given", "scores of the original examples", rtol=1e-4, atol=1e-6)
        minority = int(np.mean(y) < 0.5)
        d = np.abs(rec["probs"][n:, None] - raw[np.array(y) == minority][None]).min(1) if m > n else np.zeros(0)
        ctx.check(np.all(d < 1e-5), "balance-result", "an added example is none of the minority class")
    else:
        ctx.event("recomputed")
        ctx.close(rec["probs"], raw, "scores-given", "scores handed to the calibrator", rtol=1e-4, atol=1e-6)
        ctx.equal(rec["targets"], y, "targets-given", "")
        red = PCA(n_components=2, random_state=0)
        z = np.concatenate([red.fit_transform(e.astype("float32")), raw[:, None]], 1)
        gp = h.grouping_model.predict_proba(z)
        gr = rec["groups"]
        ctx.check(gr.shape[1] == gp.shape[1] + 1, "groups-given", f"{gr.shape[1]} groups for {gp.shape[1]} clusters")
        for k in range(gp.shape[1]):
            a, b = gp[gr[:, k], k], gp[~gr[:, k], k]
            ctx.check(len(a) >= 1 and (len(b) == 0 or a.min() >= b.max() - 1e-3), "groups-given", f"cluster {k}: members {a}, others {b}")
            ctx.check(len(b) <= np.ceil(thr * m), "groups-given", f"cluster {k} leaves out {len(b)} of {m} at quantile {thr}")
        mc = BinaryClassificationMulticalibrator()
        mc.calibrate(probs=rec["probs"], targets=rec["targets"], groups=gr)
        ctx.close(p, mc.apply_patches(probs=rec["probs"], groups=gr), "calibrated-probability", "multicalibration of the scores and groups", rtol=1e-2, atol=1e-2)

    if ctx.rng.random() < 0.7:
        ctx.event("saved")
        with R.scratch() as root:
            f = os.path.join(root, "h.pkl")
            h.save(f)
            h2 = build()
            h2.load(f)
            ctx.equal(h2.predict_proba(texts, contexts, batch_size=bs), p, "saved-and-loaded", "probabilities after loading")
            ctx.equal(h.predict_proba(texts, contexts, batch_size=bs), p, "saving-changes-nothing", "")
            nt, nc = sentences(ctx, 5, lt), sentences(ctx, 5, lc)
            ctx.equal(h2.predict_proba(nt, nc, batch_size=2), h.predict_proba(nt, nc, batch_size=2), "saved-and-loaded", "unseen texts")
    # a second fit does not remember the first
    if ctx.rng.random() < 0.4:
        h.fit(sentences(ctx, 24, lt), sentences(ctx, 24, lc), [0, 1] * 12, batch_size=8)
        if not balance:
            h.fit(texts, contexts, y, batch_size=bs, quantile_group_scores_threshold=thr)
            ctx.close(h.predict_proba(texts, contexts, batch_size=bs), p, "refit", "fitting something else in between", rtol=1e-4, atol=1e-5)


@suite.scenario(quick=1, thorough=1)
def padding(ctx):
    """the known finding: texts of different lengths in one batch"""
    model, tok = lm(0), tokenizer()
    h = HallucinationMulticalibrator(generative_model=model, tokenizer=tok, embedding_reduction_model=PCA(n_components=2, random_state=0),
                                     clustering_models=[GaussianMixture(n_components=2, random_state=1)])
    texts, contexts = sentences(ctx, 12, 3) + sentences(ctx, 12, 6), sentences(ctx, 24, 4)
    h.fit(texts, contexts, [0, 1] * 12, batch_size=1)
    one = h.predict_proba(texts, contexts, batch_size=1, calibrate=False)
    ctx.close(one, reference(model, tok, texts, contexts)[0], "score", "inverse perplexity, one by one", rtol=1e-3, atol=1e-6)
    ctx.close(h.predict_proba(texts, contexts, batch_size=24, calibrate=False), one, "padding-changes-score", "batch with two lengths", rtol=1e-3)
    ctx.key(one)
