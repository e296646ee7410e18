"""Runs in a bare interpreter (-s -P -S): only the standard library and the package under test.

Requests and answers are length-prefixed pickles of plain tuples on stdin/stdout."""
import builtins
import io
import os
import pickle
import struct
import sys

REPO = sys.argv[1]
ALLOWED = set(sys.stdlib_module_names) | {"pure_sklearn", "pure_fasttext", "__main__"}


class Blocker:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in ALLOWED:
            raise ImportError("module %s is not available in this environment" % name)
        return None


sys.path = [p for p in sys.path if "site-packages" not in p and "dist-packages" not in p] + [REPO]
sys.meta_path.insert(0, Blocker())
sys.dont_write_bytecode = True


def export(x):
    """sparse_list -> marked tuple, so that the parent compares the full content."""
    if type(x).__name__ == "sparse_list":
        return ("__sparse__", x.size, getattr(x.dtype, "__name__", str(x.dtype)), [export(dict(r)) for r in x])
    if type(x) is list:
        return [export(v) for v in x]
    if type(x) is tuple:
        return ("__tuple__",) + tuple(export(v) for v in x)
    if type(x) is dict:
        return {k: export(v) for k, v in x.items()}
    if x is None or type(x) in (int, float, str, bool, bytes):
        return x
    return ("__alien__", "%s.%s" % (type(x).__module__, type(x).__qualname__), repr(x)[:200])


def target(model, method):
    """What a call names: a method, '=attribute', 'method>' (call what it returns) or 'module:function'."""
    if ":" in method:
        mod, fn = method.split(":")
        return getattr(__import__(mod, fromlist=[fn]), fn)
    if method.startswith("="):
        return lambda: getattr(model, method[1:])
    if method.endswith(">"):
        return getattr(model, method[:-1])()
    return getattr(model, method)


def build(x):
    if isinstance(x, list) and x and isinstance(x[0], tuple) and x[0][0] == "__file__":
        return [build(d) for d in x]
    if isinstance(x, tuple) and x and x[0] == "__file__":
        return io.BytesIO(x[1])
    if isinstance(x, tuple) and x and x[0] == "__sparse_in__":
        from pure_sklearn.utils import sparse_list
        return sparse_list([dict(r) for r in x[2]], size=x[1], dtype=float)
    return x


def main():
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        blob, calls = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
        answers = []
        try:
            model = pickle.loads(blob) if blob is not None else True
            answers.append(("ok", None))
        except BaseException as e:
            answers.append(("err", "%s: %s" % (type(e).__name__, e)))
            model = None
        if model is not None:
            for method, args in calls:
                try:
                    answers.append(("ok", export(target(model, method)(*[build(a) for a in args]))))
                except BaseException as e:
                    answers.append(("err", type(e).__name__, str(e)[:300]))
            try:
                again = pickle.loads(pickle.dumps(model))
                answers.append(("ok", type(again).__name__))
            except BaseException as e:
                answers.append(("err", "%s: %s" % (type(e).__name__, e)))
        alien = sorted(m for m in sys.modules if m.split(".")[0] not in ALLOWED and not m.startswith("_"))
        data = pickle.dumps((answers, alien))
        out.write(struct.pack("<I", len(data)) + data)
        out.flush()


main()
