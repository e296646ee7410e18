"""fastText: word ids, word and sentence vectors, top-k labels against the native library."""
import numpy as np
from hypothesis import strategies as st

from .. import cmp, ft, gen
from ..core import Discard, Prop, Suite


def check_vectors(ctx, m, pure, case):
    words = m.get_words()
    s = case["m"]
    idx = {w: i for i, w in enumerate(words)}
    for w in words[:12] + ft.OOV + case["probe"] + [ft.EOS]:
        if w.startswith(ft.PFX):
            continue
        want = m.get_word_id(w)
        got = cmp.call_pure("get_word_id", pure.get_word_id, w)
        ctx.require(got == want == idx.get(w, -1), lambda: "get_word_id(%r) is %r, native %r" % (w, got, want))
        cmp.matrix(ctx, "get_word_vector(%r)" % w, m.get_word_vector(w),
                   cmp.call_pure("get_word_vector", pure.get_word_vector, w), 1e-6)
    for i in range(len(words)):
        cmp.matrix(ctx, "get_input_vector(%d)" % i, m.get_input_vector(i),
                   cmp.call_pure("get_input_vector", pure.get_input_vector, i), 1e-6)
    im = m.get_input_matrix()
    big = float(abs(im).max()) if im.size else 0.0
    atol = 2e-6 * (big if s["model"] == "supervised" else 1.0) + 1e-30
    norms = [float(np.sqrt((r.astype(float) ** 2).sum())) for r in im]
    if s["model"] != "supervised" and any(0 < n < 1e-16 for n in norms):
        ctx.event("norm below single precision")     # its square has no accurate single precision value
        return
    for t in case["texts"]:
        v = m.get_sentence_vector(t)
        cmp.matrix(ctx, "get_sentence_vector(%r)" % t, v,
                   cmp.call_pure("get_sentence_vector", pure.get_sentence_vector, t), 1e-5, 10 * atol)
        if not v.any():
            ctx.event("zero sentence vector")
        else:
            ctx.nt()
        if any(x in t for x in ("\u00a0", "\x1c", "\x85", "\u2028", "\u3000")):
            ctx.event("non-ASCII or control white space")
        if ft.EOS in t:
            ctx.event("end-of-sentence token in text")


def check_pred(ctx, what, dist, tol, labels, probs, k, thr):
    labels, probs = list(labels), list(probs)
    ctx.require(len(labels) == len(probs), lambda: "%s: %r labels, %r probabilities" % (what, labels, probs))
    if dist is None:
        ctx.event("no known word, no prediction")
        ctx.require(labels == [], lambda: "%s: %r where the native model predicts nothing" % (what, labels))
        return
    ctx.require(len(set(labels)) == len(labels) and all(l in dist for l in labels), lambda: "%s: labels %r" % (what, labels))
    for l, p in zip(labels, probs):
        ctx.require(isinstance(p, float) and abs(p - dist[l]) <= tol + 1e-5 * dist[l],
                    lambda: "%s: label %r has probability %r, native %r" % (what, l, p, dist[l]))
    ctx.require(all(a >= b for a, b in zip(probs, probs[1:])), lambda: "%s: not sorted: %r" % (what, probs))
    kk = len(dist) if k == -1 else k
    if min(dist.values()) < 1e-7:
        ctx.event("probability near zero")
    lo = min(kk, sum(p >= thr + 2 * tol for p in dist.values()))
    hi = min(kk, sum(p >= thr - 2 * tol for p in dist.values()))
    if thr <= 0:                                     # nothing is cut, however small
        lo = hi = min(kk, len(dist))
    ctx.require(lo <= len(labels) <= hi, lambda: "%s: %d labels, expected %d (native %r)" % (what, len(labels), lo, dist))
    rest = [p for l, p in dist.items() if l not in labels]
    if labels and rest and len(labels) < hi + 1 and len(labels) == kk:
        ctx.require(min(dist[l] for l in labels) >= max(rest) - 2 * tol,
                    lambda: "%s: %r are not the %d most probable of %r" % (what, labels, kk, dist))
    ctx.event("k:%s" % ("all" if k == -1 else "more than labels" if k > len(dist) else "k"))
    if thr > 0 and len(labels) < min(kk, len(dist)):
        ctx.event("threshold cuts")


def check(case, ctx):
    m = ft.build(case["m"])
    from pure_fasttext import FastText
    pure = cmp.call_pure("FastText", FastText, m)
    check_vectors(ctx, m, pure, case)
    ctx.event("model:" + case["m"]["model"])
    if case["m"]["model"] != "supervised":
        return
    if len(m.get_labels()) > 1:
        ctx.event("several labels")
    for t in case["texts"]:
        try:
            dist = ft.distribution(m, t)
        except Exception as e:
            raise Discard("ref-predict:" + type(e).__name__)
        tol = ft.conditioning(m, t)
        for k, thr in case["kt"]:
            what = "predict(%r, k=%d, threshold=%r)" % (t, k, thr)
            l, p = cmp.call_pure(what, pure.predict, t, k, thr)
            check_pred(ctx, what, dist, tol, l, p, k, thr)
            # the library's own top-k answer, where no probability is near a tie or the threshold
            nl = list(m.predict([t], k=k, threshold=thr)[0][0]) if dist else []
            ps = sorted(dist.values()) if dist else []
            if dist and all(b - a > 4 * tol for a, b in zip(ps, ps[1:])) and all(abs(x - thr) > 4 * tol for x in ps):
                ctx.require(list(l) == nl, lambda: "%s: labels %r, native %r" % (what, list(l), nl))
                ctx.event("exact label order compared")
        # probabilities that are exactly a power of two: the native model keeps what equals the threshold
        full = dict(zip(*pure.predict(t, -1, 0.0))) if dist else {}
        for thr in sorted({p for p in full.values() if p in (1.0, 0.5, 0.25, 0.125)}):
            nl = m.predict([t], k=-1, threshold=thr)[0][0]
            l, p = cmp.call_pure("predict", pure.predict, t, -1, thr)
            for lab in [x for x in full if full[x] == thr and x in nl]:
                ctx.require(lab in l, lambda: "predict(%r, k=-1, threshold=%r) leaves out %r, probability %r, which the native model keeps"
                            % (t, thr, lab, full[lab]))
                ctx.event("probability equal to the threshold")
    k, thr = case["kt"][0]
    L, P = cmp.call_pure("predict(list)", pure.predict, list(case["texts"]), k, thr)
    ctx.require(len(L) == len(P) == len(case["texts"]), lambda: "predict(list) of %d texts: %r" % (len(case["texts"]), L))
    for t, l, p in zip(case["texts"], L, P):
        l1, p1 = pure.predict(t, k, thr)
        ctx.require(list(l) == list(l1) and list(p) == list(p1), lambda: "predict(list) entry %r %r, single %r %r" % (l, p, l1, p1))
    l, p = pure.predict(case["texts"][0])
    ctx.require(len(l) <= 1, lambda: "default k: %r" % (l,))
    if case["bad_k"] is not None:
        try:
            m.predict([case["texts"][0]], k=case["bad_k"])
            return      # no known word: the native model never looks at k
        except ValueError:
            pass
        try:
            r = pure.predict(case["texts"][0], case["bad_k"])
        except (ValueError, TypeError):
            ctx.event("bad k refused")
        else:
            ctx.fail("predict(k=%d) returned %r, the native model refuses it" % (case["bad_k"], r))


def strat(maker):
    @st.composite
    def s(draw):
        m = maker(draw)
        n = 8 if m["how"] == "file" else 14
        kt = [(gen.pick(draw, [1, 2, 3, -1, 100]), gen.pick(draw, [0.0, 0.0, 0.5, 0.1, 0.3, 1.0]))
              for _ in range(gen.draw_int(draw, 1, 3))]
        return {"m": m, "texts": ft.texts(draw, m, 1, n), "kt": kt,
                "probe": [draw(st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0\n"), max_size=4))],
                "bad_k": gen.pick(draw, [None, None, 0, -2])}
    return s


@st.composite
def large_case(draw):
    model = gen.pick(draw, ["supervised", "supervised", "cbow"])
    return {"model": model, "V": gen.pick(draw, [50, 700, 3000]), "L": gen.pick(draw, [2, 40, 300]), "dim": gen.pick(draw, [3, 64, 150]),
            "n": gen.pick(draw, [5, 300, 1500]), "seed": gen.draw_int(draw, 0, 999), "scale": gen.pick(draw, [0.1, 1.0, 5.0]),
            "kt": [(gen.pick(draw, [1, 5, 20, -1, 100]), gen.pick(draw, [0.0, 0.0, 0.01, 0.3]))]}


def large_check(case, ctx):
    import random
    r = random.Random(case["seed"])
    V, L, d = case["V"], case["L"], case["dim"]
    sup = case["model"] == "supervised"
    words = ft.VOCAB[:9] + [ft.EOS] + ["w%d" % i for i in range(V)]
    m = {"how": "file", "model": case["model"], "loss": "softmax" if sup else "ns", "words": words,
         "labels": ["l%d" % i for i in range(L)] if sup else [], "dim": d,
         "inp": [[r.gauss(0, case["scale"]) for _ in range(d)] for _ in words],
         "out": [[r.gauss(0, 1) for _ in range(d)] for _ in range(L if sup else len(words))]}
    t = [" ".join(r.choice(words + ft.OOV) for _ in range(n)) for n in (case["n"], 7, case["n"] // 3)]
    check({"m": m, "texts": t, "kt": case["kt"], "probe": ["w7", "w%d" % (V + 1), "w%d" % (V - 1)], "bad_k": None}, ctx)
    ctx.event("large: %d words, %d labels, dim %d" % (V, L, d))


PROP = Prop("C11", [
    Suite("modelfile", strat(ft.gen_file), check, 6000),
    Suite("trained", strat(ft.gen_train), check, 160),
    Suite("large", large_case, large_check, 48),
])
