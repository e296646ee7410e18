"""fastText models as cases: written as model files (any vocabulary and float32 matrices) or trained."""
import os
import shutil
import struct
import tempfile
import warnings

import numpy as np

from . import gen
from .core import Discard

warnings.simplefilter("ignore")
import fasttext  # noqa: E402

fasttext.FastText.eprint = lambda *a, **k: None

EOS = "</s>"
PFX = "__label__"
VOCAB = ["the", "cat", "dog", "a", "caf\u00e9", "The", "x\u00a0y", "\u4e2d\u6587", "e\u0301", "na\u2028ive", "it's", ".",
         "a\x1cb", "p\x85q", "\U0001F600", "-", "zz", "0", "\u00a0", "label", "</S>", "__lab"]
OOV = ["unknown", "cat.", "ca", "CAT", "cats", "\u00e9", "x", "y", "__labe", "the\u00a0cat", "\u3000"]
LABELS = ["a", "b", "\u00e9t\u00e9", "1", "long-label", "", "B", "__label__", "x\u00a0y"]
LOSS = {"hs": 1, "ns": 2, "softmax": 3, "ova": 4}
MODEL = {"cbow": 1, "skipgram": 2, "supervised": 3}
SEPS = [" ", " ", " ", "  ", "\t", "\v", "\f", "\r", " \r", "\0", " \0 ", "\u00a0", "\x1c", "\x85", "\u2028", "\u3000", ""]


def write_bin(path, s):
    """The fastText 0.9 model file format, version 12."""
    sup = s["model"] == "supervised"
    d, w, l = s["dim"], s["words"], s["labels"] if sup else []
    with open(path, "wb") as f:
        f.write(struct.pack("<ii", 793712314, 12))
        f.write(struct.pack("<12i", d, 5, 1, 1, 5, s.get("wordNgrams", 1), LOSS[s["loss"]], MODEL[s["model"]],
                            s.get("bucket", 0), s.get("minn", 0), s.get("maxn", 0), 100))
        f.write(struct.pack("<d", 1e-4))
        f.write(struct.pack("<iiiqq", len(w) + len(l), len(w), len(l), 10 * (len(w) + len(l)), -1))
        n = len(w) + len(l) + 5
        for i, x in enumerate(w + [PFX + y for y in l]):
            f.write(x.encode("utf-8") + b"\0" + struct.pack("<qb", n - i if i < len(w) else n - i, int(i >= len(w))))
        for m, rows in (("inp", len(w) + s.get("bucket", 0)), ("out", len(l) if sup else len(w))):
            f.write(struct.pack("<?qq", False, rows, d))
            a = np.resize(np.array(s[m], dtype="<f4"), (rows, d)) if rows else np.zeros((0, d), "<f4")
            f.write(a.tobytes())


def build(s):
    """The native model of a case."""
    tmp = tempfile.mkdtemp(prefix="vfft")
    try:
        path = os.path.join(tmp, "m.bin")
        if s.get("how") == "train":
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write("\n".join(s["corpus"]) + "\n")
            kw = dict(s["kw"], thread=1, verbose=0)
            try:
                if s["model"] == "supervised":
                    m = fasttext.train_supervised(path, **kw)
                else:
                    m = fasttext.train_unsupervised(path, model=s["model"], maxn=s.get("maxn", 0),
                                                    minn=0, bucket=1000, **kw)
            except (ValueError, RuntimeError) as e:
                raise Discard("ref-train:" + type(e).__name__)
            if not (np.isfinite(m.get_input_matrix()).all() and np.isfinite(m.get_output_matrix()).all()):
                raise Discard("native training gave NaN")
            if s.get("reload"):
                m.save_model(path)
                m = fasttext.load_model(path)
            return m
        write_bin(path, s)
        return fasttext.load_model(path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def subset(draw, pool, lo, hi):
    n = gen.draw_int(draw, lo, min(hi, len(pool)))
    bs = gen.raw_bytes(draw, n)
    out = []
    for b in bs:
        for j in range(len(pool)):
            x = pool[(b + j) % len(pool)]
            if x not in out:
                out.append(x)
                break
    return out


def gen_file(draw, model=None, min_labels=1):
    model = model or gen.pick(draw, ["supervised", "supervised", "cbow", "skipgram"])
    sup = model == "supervised"
    words = subset(draw, VOCAB, 0 if sup else 1, 9)
    if gen.pick(draw, [True, True, True, False]) or not words:
        words.insert(gen.draw_int(draw, 0, len(words)), EOS)
    labels = subset(draw, LABELS, min_labels, 6) if sup else []
    d = gen.draw_int(draw, 1, 4)
    prof = gen.pick(draw, ["tenth", "smallint", "half", "float", "sparse"])
    inp = gen.rows(draw, len(words), d, prof)
    out = gen.rows(draw, max(1, len(labels)), d, gen.pick(draw, ["smallint", "half", "float", "sparse"]))
    scale = gen.pick(draw, [1, 1, 1, 1, 30, 1000, 1e-4, 1e-8, 1e-12])
    odd = gen.pick(draw, [1, 1, 1, 1, 1e-7, 1e-10]) if scale >= 1e-4 else 1  # a word of another magnitude than the rest
    at = gen.draw_int(draw, 0, 8)
    inp = [[float(np.float32(v * scale * (odd if i == at else 1))) for v in r] for i, r in enumerate(inp)]
    return {"how": "file", "model": model, "loss": "softmax" if sup else gen.pick(draw, ["ns", "hs", "softmax"]),
            "words": words, "labels": labels, "dim": d, "inp": inp, "out": out}


def gen_train(draw, model=None):
    model = model or gen.pick(draw, ["supervised", "supervised", "cbow", "skipgram"])
    sup = model == "supervised"
    pool = [w for w in VOCAB if w != "\u00a0"]
    n = gen.draw_int(draw, 2, 6)
    corpus = []
    labs = subset(draw, [x for x in LABELS if x], 1, 4)
    for i in range(n):
        ws = [pool[b % len(pool)] for b in gen.raw_bytes(draw, 1, 6)]
        if sup:
            ws.insert(gen.draw_int(draw, 0, len(ws)), PFX + labs[i % len(labs)])
        corpus.append(" ".join(ws))
    kw = {"dim": gen.draw_int(draw, 1, 4), "epoch": gen.pick(draw, [1, 5]), "minCount": gen.pick(draw, [1, 1, 1, 2]),
          "lr": gen.pick(draw, [0.1, 1.0])}
    if not sup:
        kw["loss"] = gen.pick(draw, ["ns", "hs", "softmax"])
    return {"how": "train", "model": model, "corpus": corpus, "kw": kw, "reload": gen.flag(draw)}


def words_of(s):
    if s["how"] == "file":
        return [w for w in s["words"]]
    return sorted({w for l in s["corpus"] for w in l.split(" ") if not w.startswith(PFX)} | {EOS})


def labels_of(s):
    if s["model"] != "supervised":
        return []
    if s["how"] == "file":
        return s["labels"]
    return sorted({w[len(PFX):] for l in s["corpus"] for w in l.split(" ") if w.startswith(PFX)})


def text(draw, s, newline=False):
    words = words_of(s)
    pool = words + words + OOV + [EOS]
    if s["model"] == "supervised":
        pool = pool + [PFX + l for l in labels_of(s)] + [PFX + "nolabel"]
    bs = gen.raw_bytes(draw, 0, 16)
    t = SEPS[bs[-1] % len(SEPS)] if len(bs) % 2 else ""
    for i in range(0, len(bs) - 1, 2):
        t += pool[bs[i] % len(pool)] + SEPS[bs[i + 1] % len(SEPS)]
    return t


def texts(draw, s, lo=1, hi=8):
    return [text(draw, s) for _ in range(gen.draw_int(draw, lo, hi))]


def distribution(m, t):
    """label -> probability by the native model; None when it makes no prediction (no known word)."""
    labels, probs = m.predict([t], k=-1)
    labels, probs = list(labels[0]), [float(p) for p in probs[0]]
    if not labels:
        return None
    return {l: p - 1e-5 for l, p in zip(labels, probs)}


def conditioning(m, t):
    """Bound on the single-precision rounding error of the softmax scores."""
    if min(m.get_output_matrix().shape) == 0:
        return 2e-6
    h = np.abs(m.get_input_matrix()).max(axis=0)
    z = np.abs(m.get_output_matrix()).astype(float) @ h
    return 3e-6 + 4e-6 * float(z.max())
