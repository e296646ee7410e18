"""The analysis chain a converted vectorizer exposes: decoding, preprocessing, tokens, n-grams, stop words."""
from hypothesis import strategies as st

from .. import cmp, gen, kinds
from ..core import Discard, Prop, Suite
from ..kinds import KINDS, convert

ODDCHARS = ["\u0130", "\u0131", "\u00df", "\ufb01", "\u212b", "e\u0301", "\u0345", "\u00a0", "\u3000", "\x1c", "\x85", "\u2028", "\u200b", "\u00ad",
            "\U0001D400", "\u0660", "\u00b2", "_", "'", "\u2019", "-", "<b>", "</b>", "<a href='x'>", "<", ">", "<>", "\ud800", "\u0e33", "\uac00",
            "\u1e9e", "\u03a3", "\u03c2", "\u01c5", "\n", "\t", "  ", " ", "A", "b", "Z9", "\x00", "&amp;"]
any_text = st.one_of(
    st.lists(st.sampled_from(ODDCHARS), max_size=12).map("".join),
    st.text(st.characters(), max_size=10),
    st.lists(st.sampled_from(gen.WORDS + gen.SEPS), max_size=12).map("".join),
)


def outcome(fn, *a):
    try:
        return "ok", fn(*a)
    except Exception as e:
        return "err", type(e).__name__


def agree(ctx, what, ref, pure, *a):
    r, p = outcome(ref, *a), outcome(pure, *a)
    if r[0] == "err":
        ctx.event("refused by the source: " + r[1])
        ctx.require(p[0] == "err", lambda: "%s%s: the source raises %s, pure returns %s" % (what, cmp.brief(a), r[1], cmp.brief(p[1])))
        return None
    ctx.require(p[0] == "ok", lambda: "%s%s raised %s where the source answers %s" % (what, cmp.brief(a), p[1], cmp.brief(r[1])))
    ctx.require(type(p[1]) is type(r[1]) and p[1] == r[1], lambda: "%s%s: pure %s, source %s" % (what, cmp.brief(a), cmp.brief(p[1]), cmp.brief(r[1])))
    return r[1]


# ------------------------------------------------------------------ module functions

@st.composite
def fn_case(draw):
    return {"s": draw(any_text), "fn": gen.pick(draw, ["strip_accents_unicode", "strip_accents_ascii", "strip_tags"])}


def fn_check(case, ctx):
    from pure_sklearn.feature_extraction import text as pure
    from sklearn.feature_extraction import text as ref
    r = agree(ctx, case["fn"], getattr(ref, case["fn"]), getattr(pure, case["fn"]), case["s"])
    if r is not None and r != case["s"]:
        ctx.nt("text changed")
    ctx.event(case["fn"])


# ------------------------------------------------------------------ fitted vectorizers

@st.composite
def chain_case(draw):
    n = gen.pick(draw, ["count", "tfidfvec", "hashing"])
    c = KINDS[n].gen(draw)
    c["k"] = n
    c["p"]["ngram_range"] = gen.pick(draw, [(1, 1), (1, 2), (2, 2), (1, 3), (2, 5), (3, 3), (1, 6), (4, 7)])
    c["p"].pop("vocabulary", None)
    if gen.pick(draw, [0, 0, 0, 1]):
        c["np"] = True
    docs = [draw(any_text) for _ in range(gen.draw_int(draw, 1, 4))]
    blobs = [draw(st.binary(max_size=12)) for _ in range(gen.draw_int(draw, 0, 2))]
    return {"c": c, "docs": docs, "blobs": blobs}


def chain_check(case, ctx):
    c = case["c"]
    k, est = kinds.fitted(c)
    pure = convert(est)
    w = c["k"]
    p = c["p"]
    prep = (est.build_preprocessor(), cmp.call_pure(w + ".build_preprocessor", pure.build_preprocessor))
    tok = (est.build_tokenizer(), cmp.call_pure(w + ".build_tokenizer", pure.build_tokenizer))
    ana = (est.build_analyzer(), cmp.call_pure(w + ".build_analyzer", pure.build_analyzer))
    ref_stop, stop = est.get_stop_words(), cmp.call_pure(w + ".get_stop_words", pure.get_stop_words)
    ctx.require((ref_stop is None) == (stop is None) and (stop is None or set(stop) == set(ref_stop)),
                lambda: "%s.get_stop_words: pure %r, source %r" % (w, stop, ref_stop))
    label = "%s(%r)" % (w, {a: b for a, b in p.items() if a in ("analyzer", "ngram_range", "lowercase", "strip_accents", "stop_words", "token_pattern")})
    for d in case["docs"]:
        s = agree(ctx, label + " preprocessor", prep[0], prep[1], d)
        if s is not None:
            agree(ctx, label + " tokenizer", tok[0], tok[1], s)
        t = agree(ctx, label + " analyzer", ana[0], ana[1], d)
        if t:
            ctx.nt()
            if len(set(map(len, t))) > 1:
                ctx.event("n-grams of several lengths")
    for d in case["docs"] + case["blobs"] + [x.encode("utf-8", "surrogatepass") for x in case["docs"][:1]]:
        agree(ctx, "%s.decode (%s, %s)" % (w, est.encoding, est.decode_error), est.decode, pure.decode, d)
        if isinstance(d, bytes):
            agree(ctx, label + " analyzer", ana[0], ana[1], d)
            ctx.event("bytes decoded as " + str(est.encoding))
    ctx.event("analyzer:" + p["analyzer"])
    ctx.event("accents:%s" % p["strip_accents"])
    if stop:
        ctx.event("stop words")


PROP = Prop("C23", [
    Suite("functions", fn_case, fn_check, 6000),
    Suite("chain", chain_case, chain_check, 9000),
])
