"""Each record's result is independent of the rest of the batch."""
from hypothesis import strategies as st

from .. import cmp, gen, generic
from ..core import Discard, Prop, Suite
from ..generic import Model, entries, outcome, same


@st.composite
def case_s(draw, names):
    c = generic.gen_case(draw, names)
    return {"c": c, "perm": gen.raw_bytes(draw, 2, 8), "cut": gen.draw_int(draw, 0, 20)}


def apart(ctx, what, result):
    """No two records share one mutable result."""
    if isinstance(result, list):
        ids = [id(r) for r in result if isinstance(r, (list, dict))]
        ctx.require(len(ids) == len(set(ids)), lambda: "%s: two records share one result object" % what)


def check(case, ctx):
    m = Model(case["c"])
    rows = m.rows
    n = len(rows)
    ctx.event("kind:" + case["c"]["k"])
    for form in m.forms:
        for method in m.methods:
            what = "%s.%s(%s)" % (case["c"]["k"], method, form)
            alone = [outcome(m.call, method, [r], form) for r in rows]
            for r, o in zip(rows, alone):
                if o[0] == "ok":
                    ctx.require(len(entries(o[1])) == 1, lambda: "%s: one record %r gives %s" % (what, r, cmp.brief(o[1])))
            one = [entries(o[1])[0] if o[0] == "ok" else None for o in alone]
            sel = [b % n for b in case["perm"]]
            good = [i for i in range(n) if alone[i][0] == "ok"]
            gsel = [good[b % len(good)] for b in case["perm"]] if good else []
            c = 1 + case["cut"] % max(1, n)
            batches = [("whole", list(range(n))), ("reversed", list(range(n))[::-1]), ("selection", sel),
                       ("first part", list(range(c))), ("last part", list(range(c, n))), ("good ones", gsel),
                       ("duplicated", [sel[0]] * 3)]
            for name, idx in batches:
                if not idx:
                    continue
                o = outcome(m.call, method, [rows[i] for i in idx], form)
                bad = [i for i in idx if alone[i][0] == "err"]
                if bad:
                    ctx.event("batch with refused record")
                    ctx.require(o[0] == "err", lambda: "%s: %s batch answers although record %r alone is refused (%s)"
                                % (what, name, rows[bad[0]], alone[bad[0]][1]))
                    continue
                ctx.require(o[0] == "ok", lambda: "%s: %s batch of %r raised %s, single records do not"
                            % (what, name, [rows[i] for i in idx], o[1]))
                apart(ctx, what, o[1])
                e = entries(o[1])
                ctx.require(len(e) == len(idx), lambda: "%s: %s batch: %d results for %d records" % (what, name, len(e), len(idx)))
                for j, i in enumerate(idx):
                    ctx.require(same(e[j], one[i], 1e-12, 0.0, types=False),
                                lambda: "%s: record %r alone %s, in the %s batch %s" % (what, rows[i], cmp.brief(one[i]), name, cmp.brief(e[j])))
            if form == "plain" and good:
                # one record object, listed three times
                i = gsel[0]
                r = m.batch([rows[i]])[0]
                o = outcome(m.call_on, m.pure, method, [r, r, r])
                ctx.require(o[0] == "ok" and len(entries(o[1])) == 3 and all(same(x, one[i], 1e-12, 0.0, types=False) for x in entries(o[1])),
                            lambda: "%s: record %r alone %s, listed three times %s" % (what, rows[i], cmp.brief(one[i]), cmp.brief(o)))
            if len({repr(x) for x in one}) > 1:
                ctx.event("records with different results")
                ctx.nt()


@st.composite
def big_s(draw):
    size = gen.pick(draw, [17, 40, 65, 130, 257, 520, 1030, 17, 40, 65, 130, 257, 520, 1030, 2100, 4100] + [17] * 8 + [10050])
    c = generic.gen_case(draw, generic.LIGHT + (["fasttext", "fasttext"] if size < 1000 else []))
    return {"c": c, "n": size, "mul": gen.draw_int(draw, 1, 40)}


def big_check(case, ctx):
    """The same few records spread over a batch of any size."""
    m = Model(case["c"])
    rows = m.rows
    for form in m.forms:
        for method in m.methods:
            what = "%s.%s(%s)" % (case["c"]["k"], method, form)
            alone = [outcome(m.call, method, [r], form) for r in rows]
            good = [i for i in range(len(rows)) if alone[i][0] == "ok"]
            if not good:
                continue
            idx = [good[(i * case["mul"] // 7 + i) % len(good)] for i in range(case["n"])]
            o = outcome(m.call, method, [rows[i] for i in idx], form)
            ctx.require(o[0] == "ok", lambda: "%s: a batch of %d records raised %s, single records do not" % (what, len(idx), o[1]))
            apart(ctx, what, o[1])
            e = entries(o[1])
            ctx.require(len(e) == len(idx), lambda: "%s: %d results for %d records" % (what, len(e), len(idx)))
            one = {i: entries(alone[i][1])[0] for i in good}
            for j, i in enumerate(idx):
                ctx.require(same(e[j], one[i], 1e-12, 0.0, types=False),
                            lambda: "%s: record %r alone %s, at position %d of %d records %s"
                            % (what, rows[i], cmp.brief(one[i]), j, len(idx), cmp.brief(e[j])))
            if len({repr(v) for v in one.values()}) > 1:
                ctx.nt()
    ctx.event("batch size:%d" % case["n"])


PROP = Prop("C14", [
    Suite("models", lambda: case_s(generic.LIGHT), check, 7000),
    Suite("large_batches", big_s, big_check, 500),
    Suite("xgb", lambda: case_s(["xgb"]), check, 150),
    Suite("fasttext", lambda: case_s(["fasttext"]), check, 500),
])
