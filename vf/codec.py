"""Lossless JSON encoding of generated cases (plain Python values only)."""
import json


def enc(o):
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, int):
        return o
    if isinstance(o, float):
        return {"__f__": repr(o)} if (o != o or o in (float("inf"), float("-inf"))) else o
    if isinstance(o, (bytes, bytearray)):
        return {"__b__": bytes(o).hex()}
    if isinstance(o, tuple):
        return {"__t__": [enc(x) for x in o]}
    if isinstance(o, (set, frozenset)):
        return {"__s__": [enc(x) for x in sorted(o, key=repr)]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        if all(isinstance(k, str) and not k.startswith("__") for k in o):
            return {k: enc(v) for k, v in o.items()}
        return {"__d__": [[enc(k), enc(v)] for k, v in o.items()]}
    raise TypeError("cannot encode %r" % type(o))


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        if len(o) == 1:
            (k, v), = o.items()
            if k == "__f__":
                return float(v)
            if k == "__b__":
                return bytes.fromhex(v)
            if k == "__t__":
                return tuple(dec(x) for x in v)
            if k == "__s__":
                return set(dec(x) for x in v)
            if k == "__d__":
                return {dec(a): dec(b) for a, b in v}
        return {k: dec(v) for k, v in o.items()}
    return o


def dumps(o):
    # surrogates are kept as \ud800 escapes by ensure_ascii
    return json.dumps(enc(o), ensure_ascii=True)


def loads(s):
    return dec(json.loads(s))
