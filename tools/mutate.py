#!/opt/venv/bin/python
"""Systematic mutation of the package: which small changes survive both the tests and the checks?

  mutate.py run OUT.jsonl [--jobs N] [--file PART] [--sample K] [--seed S]
  mutate.py show OUT.jsonl

Works on copies of /repo under /tmp/vf-mut-*, never on /repo.  Not a registered check: a tool to find
what the checks miss.  Each mutant is first given to the repository's tests; the survivors to every
check at a small size, most relevant checks first.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP = ("tests", "examples", "setup.py", "_version", "benchmarks")
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr, ast.BitXor: ast.BitOr, ast.Pow: ast.Mult}
WRAP = {"list", "float", "int", "bool", "str", "sorted", "set", "abs", "tuple", "deepcopy", "max", "min", "sum", "reversed"}


def variants(node):
    """(description, replacement) pairs for one node."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = new()
                yield "cmp", n
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield "arith", n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "bool", n
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            yield "boolarg", n if len(n.values) > 1 else n.values[0]
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield "unary", copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            yield "const", ast.Constant(not v)
        elif isinstance(v, int):
            yield "const", ast.Constant(v + 1)
            if v:
                yield "const", ast.Constant(v - 1)
        elif isinstance(v, float):
            yield "const", ast.Constant(v * 1.5 + 0.5)
            yield "const", ast.Constant(v * 1.000001)
        elif isinstance(v, str) and v:
            yield "const", ast.Constant(v + "x")
    elif isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Name) and f.id in WRAP and len(node.args) == 1 and not node.keywords:
            yield "unwrap", copy.deepcopy(node.args[0])
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "lower", "strip", "tolist") and not node.args:
            yield "unwrap", copy.deepcopy(f.value)
        if len(node.args) > 1:
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield "swapargs", n
        if node.keywords:
            for i in range(len(node.keywords)):
                n = copy.deepcopy(node)
                del n.keywords[i]
                yield "dropkw", n
    elif isinstance(node, ast.IfExp):
        yield "ifexp", copy.deepcopy(node.body)
        yield "ifexp", copy.deepcopy(node.orelse)
    elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        for i, g in enumerate(node.generators):
            if g.ifs:
                n = copy.deepcopy(node)
                n.generators[i].ifs = []
                yield "compif", n
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        for a in ("lower", "upper"):
            if getattr(node.slice, a) is not None:
                n = copy.deepcopy(node)
                setattr(n.slice, a, None)
                yield "slice", n
    elif isinstance(node, (ast.If, ast.While)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield "cond%s" % v, n
    elif isinstance(node, (ast.Expr, ast.Raise, ast.AugAssign, ast.Assign, ast.Delete)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield "delete", ast.Pass()
    elif isinstance(node, ast.Continue):
        yield "brk", ast.Break()
    elif isinstance(node, ast.Break):
        yield "brk", ast.Continue()
    elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        pass


def sites(tree):
    """Every (parent, field, index, node), docstrings and imports left out."""
    out = []

    def walk(n):
        for field, val in ast.iter_fields(n):
            items = val if isinstance(val, list) else [val]
            for i, v in enumerate(items):
                if not isinstance(v, ast.AST) or isinstance(v, (ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant):
                    continue
                out.append((n, field, i if isinstance(val, list) else None, v))
                walk(v)

    walk(tree)
    return out


def dull(tree):
    """Nodes whose change nobody can observe, or only in the text of a message."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Assign) and "__all__" in ast.unparse(n.targets[0])):
            out.update(id(x) for x in ast.walk(n) if x is not n or isinstance(n, ast.Assign))
        if isinstance(n, ast.FunctionDef) and n.name in ("performance_comparison", "strip_tags", "update_wrapper"):
            out.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "check_types" in ast.unparse(n.value):
            out.update(id(x) for x in ast.walk(n))
    return out


def mutants(src):
    tree = ast.parse(src)
    skip = dull(tree)
    for k, (_, _, _, node) in enumerate(sites(tree)):
        if id(node) in skip:
            continue
        for j, (what, _) in enumerate(variants(node)):
            yield k, j, what, getattr(node, "lineno", 0), ast.unparse(node)[:120]


def apply(src, k, j):
    tree = ast.parse(src)
    par, field, i, node = sites(tree)[k]
    what, new = list(variants(node))[j]
    ast.copy_location(new, node)
    if i is None:
        setattr(par, field, new)
    else:
        getattr(par, field)[i] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), ast.unparse(new)[:120]


ORDER = {
    "linear_model": "C01 C21 C18 C10", "svm": "C01", "tree": "C02 C21 C22 C18", "ensemble/_gb": "C03 C18", "ensemble": "C02 C16 C15",
    "xgboost": "C04 C18 C15 C16", "naive_bayes": "C05 C21 C18", "dummy": "C05 C18", "metrics": "C06 C13", "_data": "C06 C22 C13 C17",
    "_label": "C03", "_encoders": "C07 C17 C16", "_dict_vec": "C07", "impute": "C08 C17 C13", "text.py": "C09 C23 C16 C15",
    "_hash": "C09 C14", "pipeline": "C10 C13 C16", "pure_fasttext": "C11 C12 C15 C16", "utils": "C19 C13 C22 C17", "base": "C19 C13 C06 C17",
    "map": "C16 C20 C12",
}
ALL = ["C%02d" % i for i in range(1, 25)]


def order(rel):
    first = []
    for k, v in ORDER.items():
        if k in rel:
            first += [p for p in v.split() if p not in first]
    return first + [p for p in ALL if p not in first]


def NEAR_TESTS(rel):
    d, f = os.path.split(rel)
    if d == "pure_sklearn":
        return {"dummy.py": ["pure_sklearn/tests/test_dummy.py"], "naive_bayes.py": ["pure_sklearn/tests/test_naive_bayes.py"],
                "pipeline.py": ["pure_sklearn/tests/test_pipeline.py"]}.get(
            f, ["pure_sklearn/tests/test_base.py", "pure_sklearn/tests/test_utils.py", "pure_sklearn/tests/test_dummy.py"])
    return [d + "/tests"]


def probe(args):
    """Inside a process that imports the mutated copy: run the checks small, stop at the first violation."""
    sys.path.insert(0, VERIF)
    from vf import boot

    boot.setup()
    import warnings

    warnings.simplefilter("ignore")
    from vf import core

    core.CASE_CPU_S = 20.0
    for i, pid in enumerate(args.pids.split(",")):
        prop = core.load_prop(pid)
        for s in prop.suites:
            n = max(12, int(s.quick * (args.scale if i < args.near else args.scale / 10)))
            ff = os.path.join(os.environ["TMPDIR"], "fail.json")
            st = core.run_suite_shard(prop, s, n, args.seed, 0, ff)
            if st["violation"] or st["error"]:
                print("KILLED %s %s %s" % (pid, s.name, (st["violation"] or st["error"][-300:])[:300].replace("\n", " ")), flush=True)
                return 1
    print("SURVIVED", flush=True)
    return 0


def one(job, args):
    rel, k, j, what, line, old = job
    src = open(os.path.join(args.src, rel)).read()
    rec = {"file": rel, "k": k, "j": j, "what": what, "line": line, "old": old}
    try:
        text, rec["new"] = apply(src, k, j)
    except Exception as e:
        rec["result"] = "bad:" + repr(e)
        return rec
    d = tempfile.mkdtemp(prefix="vf-mut-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(args.src, r, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
        with open(os.path.join(r, rel), "w") as f:
            f.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VF_REPO=r,
                   TMPDIR=d, PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", PYTHONPATH="", HOME=d)
        def tests(*where):
            try:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120",
                                    "--deselect", "pure_fasttext/tests/test_unsupervised.py::test_unsupervised_sentence",
                                    *where], cwd=r, env=env, capture_output=True, text=True, timeout=300)
                return t.returncode not in (0, 5)
            except subprocess.TimeoutExpired:
                return True

        if tests(*NEAR_TESTS(rel)):
            rec["result"] = "tests"
            return rec
        pids = order(rel)
        near = sum(len(v.split()) for k, v in ORDER.items() if k in rel)
        try:
            t = subprocess.run([PY, "-W", "ignore", os.path.abspath(__file__), "probe", "--pids", ",".join(pids), "--near",
                                str(min(near, 5)), "--scale", str(args.scale), "--seed", str(args.seed)], cwd=d, env=env,
                               capture_output=True, text=True, timeout=3000)
            rec["result"] = (t.stdout.strip().splitlines() or ["?" + t.stderr[-300:]])[-1]
        except subprocess.TimeoutExpired:
            rec["result"] = "probe timeout"
        if rec["result"] == "SURVIVED" and tests():
            rec["result"] = "tests"
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--file", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.2)
    ap.add_argument("--near", type=int, default=3)
    ap.add_argument("--src", default="/repo", help="the tree that is copied and mutated")
    ap.add_argument("--pids", default="")
    args = ap.parse_args()
    if args.mode == "probe":
        return probe(args)
    if args.mode == "show":
        for l in open(args.out):
            r = json.loads(l)
            if r["result"] == "SURVIVED" or not r["result"].startswith(("tests", "KILLED")):
                print("%s:%d [%s]\n   - %s\n   + %s   %s" % (r["file"], r["line"], r["what"], r["old"], r.get("new"), r["result"][:80]))
        return 0
    done = set()
    if os.path.exists(args.out):
        done = {(r["file"], r["k"], r["j"]) for r in map(json.loads, open(args.out))}
    jobs = []
    for base in ("pure_sklearn", "pure_fasttext"):
        for dp, dn, fn in os.walk(os.path.join(args.src, base)):
            dn[:] = [x for x in dn if x != "tests" and x != "__pycache__"]
            for f in sorted(fn):
                rel = os.path.relpath(os.path.join(dp, f), args.src)
                if not f.endswith(".py") or args.file not in rel:
                    continue
                jobs += [(rel,) + m for m in mutants(open(os.path.join(args.src, rel)).read())]
    random.Random(args.seed).shuffle(jobs)
    jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
    if args.sample:
        jobs = jobs[: args.sample]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(args.jobs) as ex, open(args.out, "a") as f:
        for rec in ex.map(lambda j: one(j, args), jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()


if __name__ == "__main__":
    sys.exit(main())
