"""Text vectorizers."""
import io
import os
import shutil
import tempfile

from .. import cmp, gen, kinds
from ..core import Prop, Suite
from ..big import big_suite
from .common import kind_suite
from hypothesis import strategies as st


class FileInput(kinds.Vec):
    """Documents read through file objects or file names instead of strings."""

    name = "fileinput"

    def gen(self, draw):
        c = self.gen_docs(draw)
        c.pop("enc", None)
        c["enc"], c["dec_err"], c["dec_as"] = gen.pick(draw, [
            ("utf-8", "strict", "utf-8"), ("utf-8", "replace", "utf-8"), ("latin-1", "strict", "latin-1"), ("latin-1", "ignore", "utf-8"),
            ("latin-1", "replace", "utf-8"), ("utf-8", "replace", "ascii"), ("utf-8", "ignore", "ascii"), ("utf-16", "strict", "utf-16"),
            ("utf-8", "strict", "latin-1"), ("utf-16", "replace", "utf-8")])
        c["cls"] = gen.pick(draw, ["count", "tfidfvec", "hashing"])
        c["how"] = gen.pick(draw, ["file", "filename"])
        c["p"] = self.gen_params(draw)
        return c

    def params(self, case):
        p = super().params(case)
        p["input"] = case["how"]
        return p

    def materialise(self, case, docs, tmp):
        raw = self.encode(case, docs)
        if case["how"] == "file":
            return [io.BytesIO(b) for b in raw]
        out = []
        for i, b in enumerate(raw):
            fn = os.path.join(tmp, "doc%d" % i)
            with open(fn, "wb") as f:
                f.write(b)
            out.append(fn)
        return out

    def check(self, case, ctx):
        tmp = tempfile.mkdtemp(prefix="vfdoc")
        try:
            est = kinds.KINDS[case["cls"]].make(self.params(case))
            cmp.call_ref("fit", lambda: est.fit(self.materialise(case, case["X"], tmp)))
            pure = kinds.convert(est)
            r = cmp.call_ref("transform", lambda: est.transform(self.materialise(case, case["T"], tmp)))
            p = cmp.call_pure("transform", lambda: pure.transform(self.materialise(case, case["T"], tmp)))
            if r.shape[1] > 3000:
                for i in range(r.shape[0]):
                    d = {j: v for j, v in zip(r[i].indices.tolist(), r[i].data.tolist()) if v}
                    q = {k: v for k, v in p[i].items() if v}
                    ctx.require(set(d) == set(q) and all(cmp.isclose(float(q[k]), float(d[k]), 1e-9, 0) for k in d),
                                lambda: "row %d: %s, source %s" % (i, q, d))
            else:
                cmp.matrix(ctx, "transform(%s)" % case["how"], r, p, 1e-9)
            ctx.event(case["how"])
            if r.nnz:
                ctx.nt()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


F = FileInput()

PROP = Prop("C09", [
    kind_suite("count", 6000), kind_suite("tfidfvec", 5000), kind_suite("hashing", 5000), kind_suite("tfidftr", 3000),
    Suite("fileinput", F.strat, F.check, 1200),
    big_suite(["count", "tfidfvec", "hashing", "tfidftr"], 160),
])
