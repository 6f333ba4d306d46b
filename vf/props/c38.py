"""C38 text datasets: every example carries its own tag through tokenisation, collation and batching."""
import os

os.environ.setdefault("TOKENIZERS_PARALLELISM", "false")
os.environ.setdefault("HF_DATASETS_DISABLE_PROGRESS_BARS", "1")

import datasets
import jax
import numpy as np
from datasets import Dataset, DatasetDict
from tokenizers import Tokenizer, models, pre_tokenizers, processors
from transformers import PreTrainedTokenizerFast

from fortuna.data.dataset.huggingface_datasets import (
    HuggingFaceMaskedLMDataset,
    HuggingFaceMultiChoiceDataset,
    HuggingFaceSequenceClassificationDataset,
)
from vf.core import Suite

datasets.disable_progress_bars()
datasets.disable_caching()

suite = Suite(
    "C38",
    rule="case = (task, texts and labels, maximum length, padding, batch size, shuffling, dropping the last batch) -> all delivered batches; "
         "distinct = distinct sequences of batches",
    assumptions=["a word-level fast tokenizer with BERT-style special tokens", "one local device unless XLA is told otherwise (then the batch size is per device)"],
    required={"sequence": 10, "pair": 3, "choice": 6, "mlm": 5, "causal": 2, "shuffled": 5, "dropped": 5, "unlabelled": 2, "max_length": 4, "truncated": 4},
)
N_WORDS = 60
WORDS = [f"w{i}" for i in range(N_WORDS)]
SPECIAL = ["[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]"]


def tokenizer(special=True):
    t = Tokenizer(models.WordLevel({w: i for i, w in enumerate(SPECIAL + WORDS)}, unk_token="[UNK]"))
    t.pre_tokenizer = pre_tokenizers.Whitespace()
    if special:
        t.post_processor = processors.TemplateProcessing(single="[CLS] $A [SEP]", pair="[CLS] $A [SEP] $B:1 [SEP]:1", special_tokens=[("[CLS]", 2), ("[SEP]", 3)])
    return PreTrainedTokenizerFast(tokenizer_object=t, pad_token="[PAD]", unk_token="[UNK]", cls_token="[CLS]", sep_token="[SEP]", mask_token="[MASK]")


def ids(text):
    return [len(SPECIAL) + int(w[1:]) for w in text.split()]


def sentence(ctx, n):
    return " ".join(WORDS[int(k)] for k in ctx.rng.integers(0, N_WORDS, n))


def lengths(ctx, width, mult, max_len, rows, fixed):
    """the width of a batch whose longest row has `rows` tokens"""
    want = max_len if fixed else rows
    want = -(-want // mult) * mult if mult and not fixed else want
    ctx.check(width == want, "padded-length", f"width {width}, expected {want} (longest row {rows}, multiple {mult}, maximum {max_len})")


def loader(ctx, ds, data, bs, n, drop):
    shuffle = ctx.rng.random() < 0.5
    if shuffle:
        ctx.event("shuffled")
    if drop:
        ctx.event("dropped")
    key = jax.random.PRNGKey(ctx.integers(0, 99))
    dl = ds.get_data_loader(data, per_device_batch_size=bs, rng=key, shuffle=shuffle, drop_last=drop, verbose=False)
    ctx.check(dl.size == n, "reported-size", f"{dl.size} for {n} examples")
    out = [({k: np.asarray(v) for k, v in x.items()}, None if y is None else np.asarray(y)) for x, y in dl]
    b = bs * jax.local_device_count()
    sizes = [len(x["input_ids"]) for x, _ in out]
    want = [b] * (n // b) + ([n % b] if n % b and not drop else [])
    ctx.check(sizes == want, "batch-sizes", f"{sizes}, expected {want}")
    again = [np.asarray(x["input_ids"]) for x, _ in dl]
    return dl, out, shuffle, again


def order(ctx, tags, n, total, shuffle, drop):
    """tags: indices of the delivered examples, in order"""
    ctx.check(len(set(tags)) == len(tags) and len(tags) == total, "exactly-once", f"delivered {tags} of {n}")
    if not shuffle:
        ctx.check(tags == list(range(total)), "order", f"{tags}")
    ctx.key((tuple(tags), drop))


@suite.scenario(quick=80, thorough=800)
def sequence_classification(ctx):
    n, max_len = ctx.choice([1, 5, 9, 16]), ctx.choice([4, 8, 12])
    pair = ctx.rng.random() < 0.3
    max_len = 12 if pair else max_len
    labelled = ctx.rng.random() < 0.8
    padding = ctx.choice([True, True, "longest", "max_length"])
    mult = ctx.choice([1, 2, 4, 8])
    special = ctx.rng.random() < 0.7
    bs, drop = ctx.choice([1, 2, 4, 16]), ctx.rng.random() < 0.4
    target = ctx.choice(["label", "answer"])
    # the first word tells which example this is
    texts = [" ".join([WORDS[i]] + sentence(ctx, ctx.integers(0, 12)).split()) for i in range(n)]
    second = [sentence(ctx, ctx.integers(1, 4)) for _ in range(n)]
    labels = [int(v) for v in ctx.rng.integers(0, 4, n)]
    cols = {"one": texts, "two": second, "noise": ["w1"] * n}
    if labelled:
        cols[target] = labels
    else:
        ctx.event("unlabelled")
    tok = tokenizer(special)
    ds = HuggingFaceSequenceClassificationDataset(tok, max_length=max_len, padding=padding, pad_to_multiple_of=mult, num_unique_labels=4)
    tokenized = ds.get_tokenized_datasets(DatasetDict(train=Dataset.from_dict(cols), test=Dataset.from_dict({k: v[:1] for k, v in cols.items()})),
                                          text_columns=("one", "two") if pair else ("one",), target_column=target)
    ctx.check(set(tokenized) == {"train", "test"} and len(tokenized["train"]) == n and len(tokenized["test"]) == 1, "splits", str({k: len(v) for k, v in tokenized.items()}))
    ctx.note(n=n, max_length=max_len, padding=str(padding), multiple=mult, pair=pair, labelled=labelled, batch=bs, drop=drop, special=special)
    ctx.event("pair" if pair else "sequence")
    if padding == "max_length":
        ctx.event("max_length")
    dl, out, shuffle, again = loader(ctx, ds, tokenized["train"], bs, n, drop)
    want = [ids(t) for t in texts]
    tags = []
    for x, y in out:
        m, t = x["attention_mask"], x["input_ids"]
        ctx.check(m.shape == t.shape and t.ndim == 2, "shapes", f"{m.shape} {t.shape}")
        ctx.check(np.isin(m, [0, 1]).all() and all(np.all(np.diff(r) <= 0) for r in m.astype(int)), "attention-mask", "not ones then zeros")
        ctx.check(np.all(t[m == 0] == tok.pad_token_id), "padding-token", "padded positions")
        longest = int(m.sum(1).max())
        ctx.check(longest <= max_len, "too-long", f"{longest} tokens, maximum {max_len}")
        lengths(ctx, t.shape[1], mult, max_len, longest, padding == "max_length")
        for r in range(len(t)):
            row = t[r][m[r] == 1].tolist()
            body = [v for v in row if v >= len(SPECIAL)]
            if not body:  # truncation of a pair may leave nothing of the first text
                ctx.check(False, "empty-example", str(row))
                continue
            i = body[0] - len(SPECIAL)
            tags.append(i)
            if not pair:
                k = min(len(want[i]), max_len - (2 if special else 0))
                if k < len(want[i]):
                    ctx.event("truncated")
                exp = ([2] if special else []) + want[i][:k] + ([3] if special else [])
                ctx.check(row == exp, "tokens", f"example {i}: {row}, expected {exp}")
            else:
                exp = tok(texts[i], second[i], max_length=max_len, truncation=True)["input_ids"]
                ctx.check(row == exp, "tokens", f"pair {i}: {row}, expected {exp}")
            if labelled:
                ctx.check(y is not None and int(y[r]) == labels[i], "label", f"example {i} delivered with label {None if y is None else y[r]}, its own is {labels[i]}")
        if not labelled:
            ctx.check(y is None, "label", "labels for unlabelled data")
    b = bs * jax.local_device_count()
    order(ctx, tags, n, (n // b) * b if drop else n, shuffle, drop)
    ctx.check(len(again) == len(out) and all(np.array_equal(a, x["input_ids"]) for a, (x, _) in zip(again, out)), "second-pass", "the loader delivers something else on its second pass")
    if labelled and out:
        ctx.equal(dl.to_array_targets(), np.concatenate([y for _, y in out]), "targets-aligned", "to_array_targets")
        ins = [np.asarray(x["input_ids"]) for x in dl.to_inputs_loader()]
        ctx.check(len(ins) == len(out) and all(np.array_equal(a, x["input_ids"]) for a, (x, _) in zip(ins, out)), "inputs-aligned", "to_inputs_loader")
    ctx.check(dl.num_unique_labels == 4, "classes", str(dl.num_unique_labels))


@suite.scenario(quick=40, thorough=400)
def multiple_choice(ctx):
    n, k, max_len = ctx.choice([1, 4, 7]), ctx.choice([2, 3]), ctx.choice([8, 12, 20])
    mult = ctx.choice([1, 4, 8])
    padding = ctx.choice([True, True, "max_length"])
    bs, drop = ctx.choice([1, 2, 4]), ctx.rng.random() < 0.4
    first = [" ".join([WORDS[i]] + sentence(ctx, ctx.integers(0, 6)).split()) for i in range(n)]
    head = [sentence(ctx, 1) for _ in range(n)]
    ends = [[sentence(ctx, ctx.integers(1, 3)) for _ in range(k)] for _ in range(n)]
    labels = [int(v) for v in ctx.rng.integers(0, k, n)]
    split = ctx.rng.random() < 0.6
    cols = {"a": first, "b": head, "label": labels}
    cols.update({f"e{j}": [e[j] for e in ends] for j in range(k)} if split else {"ends": ends})
    tok = tokenizer()
    ds = HuggingFaceMultiChoiceDataset(tok, max_length=max_len, padding=padding, pad_to_multiple_of=mult, num_unique_labels=k)
    tokenized = ds.get_tokenized_datasets(DatasetDict(train=Dataset.from_dict(cols)), contexts=("a", "b"), choices=tuple(f"e{j}" for j in range(k)) if split else ("ends",))
    ctx.note(n=n, choices=k, max_length=max_len, multiple=mult, padding=str(padding), batch=bs, drop=drop, columns=split)
    ctx.event("choice")
    if padding == "max_length":
        ctx.event("max_length")
    dl, out, shuffle, again = loader(ctx, ds, tokenized["train"], bs, n, drop)
    tags = []
    for x, y in out:
        t, m = x["input_ids"], x["attention_mask"]
        ctx.check(t.ndim == 3 and t.shape[1] == k and m.shape == t.shape, "shapes", f"{t.shape}")
        ctx.check(np.all(t[m == 0] == tok.pad_token_id), "padding-token", "padded positions")
        longest = int(m.sum(-1).max())
        ctx.check(longest <= max_len, "too-long", f"{longest} tokens, maximum {max_len}")
        lengths(ctx, t.shape[2], mult, -(-max_len // mult) * mult if padding == "max_length" else max_len, longest, padding == "max_length")
        for r in range(len(t)):
            i = int(t[r, 0, 1]) - len(SPECIAL)
            tags.append(i)
            for j in range(k):
                row = t[r, j][m[r, j] == 1].tolist()
                exp = tok(first[i], f"{head[i]} {ends[i][j]}", max_length=max_len, truncation=True)["input_ids"]
                ctx.check(row == exp, "tokens", f"example {i} choice {j}: {row}, expected {exp}")
                if len(tok(first[i], f"{head[i]} {ends[i][j]}")["input_ids"]) > max_len:
                    ctx.event("truncated")
            ctx.check(int(y[r]) == labels[i], "label", f"example {i} delivered with {y[r]}, its own is {labels[i]}")
    b = bs * jax.local_device_count()
    order(ctx, tags, n, (n // b) * b if drop else n, shuffle, drop)
    ctx.check(len(again) == len(out) and all(np.array_equal(a, x["input_ids"]) for a, (x, _) in zip(again, out)), "second-pass", "the loader delivers something else on its second pass")


@suite.scenario(quick=40, thorough=400)
def language_modeling(ctx):
    n, max_len = ctx.choice([3, 10, 25]), ctx.choice([4, 8])
    mult = ctx.choice([1, 4, 16])
    mlm = ctx.rng.random() < 0.7
    prob = float(ctx.choice([0.0, 0.15, 0.5, 1.0]))
    bs, drop = ctx.choice([1, 4]), ctx.rng.random() < 0.3
    texts = [sentence(ctx, ctx.integers(1, 10)) for _ in range(n)]
    tok = tokenizer()
    ds = HuggingFaceMaskedLMDataset(tok, max_length=max_len, pad_to_multiple_of=mult, mlm=mlm, mlm_probability=prob)
    tokenized = ds.get_tokenized_datasets(DatasetDict(train=Dataset.from_dict({"sentence": texts})))["train"]
    stream = [v for t in texts for v in [2] + ids(t) + [3]]
    n_chunks = len(stream) // max_len
    ctx.event("mlm" if mlm else "causal")
    ctx.note(texts=n, max_length=max_len, multiple=mult, mlm=mlm, probability=prob, batch=bs, chunks=n_chunks)
    ctx.check(len(tokenized) == n_chunks, "chunks", f"{len(tokenized)} chunks of a stream of {len(stream)} tokens")
    chunks = [stream[i * max_len:(i + 1) * max_len] for i in range(n_chunks)]
    ctx.check([list(r) for r in tokenized["input_ids"]] == chunks, "chunks", "the chunks are not the concatenated texts")
    if n_chunks == 0:
        return
    dl, out, shuffle, again = loader(ctx, ds, tokenized, bs, n_chunks, drop)
    left = [tuple(c) for c in chunks]
    seen, masked, eligible, kept, total = [], 0, 0, 0, 0
    for x, y in out:
        t, m = x["input_ids"], x["attention_mask"]
        ctx.check("special_tokens_mask" not in x and y is not None and y.shape == t.shape, "shapes", str(list(x)))
        ctx.check(t.shape[1] == -(-max_len // mult) * mult, "padded-length", f"{t.shape}")
        ctx.check(np.all(m[:, :max_len] == 1) and np.all(m[:, max_len:] == 0), "attention-mask", "")
        ctx.check(np.all(t[m == 0] == tok.pad_token_id) and np.all(y[m == 0] == -100), "padding-token", "padded positions are not predicted")
        # unmasked positions carry their own token; masked positions carry it in the label
        orig = np.where(y == -100, t, y)[:, :max_len]
        seen += [tuple(r.tolist()) for r in orig]
        if mlm:
            sp = orig < len(SPECIAL)
            ctx.check(np.all(y[:, :max_len][sp] == -100), "special-token-masked", "special tokens must not be predicted")
            hit = y[:, :max_len] != -100
            masked += int(hit.sum())
            eligible += int((~sp).sum())
            total += int(hit.sum())
            kept += int((t[:, :max_len][hit] == tok.mask_token_id).sum())
        else:
            ctx.equal(y[:, :max_len], t[:, :max_len], "labels", "causal labels are the inputs")
    for s in seen:
        ctx.check(s in left, "exactly-once", f"{s} delivered too often or never given")
        if s in left:
            left.remove(s)
    b = bs * jax.local_device_count()
    ctx.check(len(seen) == ((n_chunks // b) * b if drop else n_chunks), "exactly-once", f"{len(seen)} of {n_chunks}")
    if not shuffle:
        ctx.check(seen == [tuple(c) for c in chunks[:len(seen)]], "order", "")
    ctx.key(tuple(seen))
    if mlm and eligible:
        sd = np.sqrt(prob * (1 - prob) / eligible)
        ctx.check(abs(masked / eligible - prob) <= 5.5 * sd + 1e-9, "masking-rate", f"{masked} of {eligible} at probability {prob}")
        if total > 20:
            ctx.check(abs(kept / total - 0.8) <= 5.5 * np.sqrt(0.16 / total), "mask-token-rate", f"{kept} of {total} masked positions show the mask token")


@suite.scenario(quick=4, thorough=20)
def refusals(ctx):
    """masking needs a mask token and one text column"""
    t = Tokenizer(models.WordLevel({w: i for i, w in enumerate(["[PAD]", "[UNK]"] + WORDS)}, unk_token="[UNK]"))
    t.pre_tokenizer = pre_tokenizers.Whitespace()
    tok = PreTrainedTokenizerFast(tokenizer_object=t, pad_token="[PAD]", unk_token="[UNK]")
    ds = HuggingFaceMaskedLMDataset(tok, max_length=4)
    ctx.raises(ValueError, lambda: ds.data_collator, "maskless-tokenizer-accepted", "masked language modelling without a mask token")
    ds = HuggingFaceMaskedLMDataset(tokenizer(), max_length=4)
    d = DatasetDict(train=Dataset.from_dict({"a": ["w1"], "b": ["w2"]}))
    ctx.raises(AssertionError, lambda: ds.get_tokenized_datasets(d, text_columns=("a", "b")), "columns-accepted", "two text columns")
    ctx.key(ctx.i)
