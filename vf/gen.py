"""Generators. Cases are plain Python values; numeric matrices are decoded from one
drawn byte string, so that generation is cheap and shrinking moves to zeros."""
import hashlib
import math

from hypothesis import strategies as st

SMALLINT = [0, 1, 2, -1, 3, -2, 4, -3]
COUNT = [0, 0, 0, 1, 1, 2, 3, 5]
SPARSE = [0, 0, 0, 0, 1, -1, 2, 0.5, 0, 0, -2.5, 0, 3, 0, 0, 10]


def _value(profile, a, b):
    u = a * 256 + b
    if profile == "smallint":
        return SMALLINT[a % 8]
    if profile == "count":
        return COUNT[a % 8]
    if profile == "sparse":
        return SPARSE[a % 16]
    if profile == "tenth":
        v = a % 41
        return ((v + 1) // 2 if v % 2 else -(v // 2)) / 10.0
    if profile == "half":
        v = a % 17
        return ((v + 1) // 2 if v % 2 else -(v // 2)) / 2.0
    if profile == "float":
        return 0.0 if u == 0 else (u - 30011) / 7919.0
    if profile == "pos":
        return 0.0 if u == 0 else u / 1021.0
    if profile == "wide":
        if u == 0:
            return 0.0
        m = (a % 9) + 1 + (a % 7) / 7.0
        e = (b % 25) - 12
        return (-m if a & 1 else m) * 10.0 ** e
    if profile == "huge":
        if u == 0:
            return 0.0
        m = (a % 9) + 1 + (a % 7) / 7.0
        e = (b % 61) - 30
        return (-m if a & 1 else m) * 10.0 ** e
    if profile == "near":  # few values one float32 ulp apart
        base = [0.1, 0.5, 0.7, 1.0 / 3][a % 4]
        return base + ((b % 7) - 3) * 2.0 ** -25
    raise KeyError(profile)


NUM_PROFILES = ["smallint", "half", "tenth", "float", "sparse", "wide"]
COUNT_PROFILES = ["count", "pos", "sparsecount"]


def decode_rows(profile, bs, n, d):
    out, p = [], 0
    absval = profile == "sparsecount"
    prof = "sparse" if absval else profile
    for _ in range(n):
        row = []
        for _ in range(d):
            v = _value(prof, bs[p], bs[p + 1])
            row.append(abs(v) if absval else v)
            p += 2
        out.append(row)
    return out


_MASK = b"".join(hashlib.sha256(b"vf%d" % i).digest() for i in range(512))


def raw_bytes(draw, lo, hi=None):
    """A drawn byte string; three times out of four whitened with a fixed mask (at a drawn
    offset), because hypothesis prefers constant strings. Offset 0 means no mask."""
    bs = draw(st.binary(min_size=lo, max_size=lo if hi is None else hi))
    off = draw(st.integers(0, 15))
    if off < 4 or not bs:
        return bs
    m = off * 977 % 8000
    mask = _MASK[m:m + len(bs)]
    return bytes(a ^ b for a, b in zip(bs, mask)) + bs[len(mask):]


def rows(draw, n, d, profile):
    return decode_rows(profile, raw_bytes(draw, 2 * n * d), n, d)


def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]


def flag(draw):
    return draw(st.booleans())


def draw_int(draw, a, b):
    return draw(st.integers(a, b))


def idx(draw, n):
    return draw(st.integers(0, n - 1))


POOLS = {
    "int": [0, 1, 2, 3],
    "intgap": [7, -3, 2, 10],
    "str": ["b", "a", "zz", "\u00e9t\u00e9"],
    "obj": ["no", "yes", "Maybe", ""],
    "float": [2.0, -1.0, 0.0, 5.0],
    "bool": [False, True],
    "digits": ["10", "9", "2", "1"],
    "spread": [100, 20, 3, -40],
}
MANY = list(range(13))


def labels(draw, n, kmin=2, kmax=4, pools=None, kind=None):
    """(pool name, y): every one of k classes occurs."""
    pool = kind or pick(draw, pools or list(POOLS))
    vals = POOLS[pool] if pool != "many" else MANY
    k = draw(st.integers(kmin, max(kmin, min(kmax, len(vals), n))))
    k = min(k, len(vals))
    bs = raw_bytes(draw, n)
    y = [vals[i] if i < k else vals[bs[i] % k] for i in range(n)]
    if bs and bs[0] & 1:
        y.reverse()
    return pool, y


def test_rows(draw, X, profile, d, nmin=1, nmax=7, other=None):
    """Rows of several kinds: generated from the same or another profile, training rows, zeros."""
    n = draw(st.integers(nmin, nmax))
    sel = raw_bytes(draw, n)
    same = rows(draw, n, d, profile)
    oth = rows(draw, n, d, other or profile)
    out = []
    for i in range(n):
        m = sel[i] % 8
        if m in (0, 1, 2):
            out.append(same[i])
        elif m in (3, 4):
            out.append(list(X[sel[i] // 8 % len(X)]))
        elif m == 5:
            out.append([0 if isinstance(v, int) else 0.0 for v in same[i]])
        elif m == 6:
            out.append(oth[i])
        else:  # a training row with one changed cell
            r = list(X[sel[i] // 8 % len(X)])
            r[i % d] = same[i][i % d]
            out.append(r)
    return out


# ------------------------------------------------------------------ text

WORDS = ["the", "cat", "sat", "dog", "a", "I", "The", "Cat", "caf\u00e9", "\u00c9cole", "na\u00efve",
         "x1", "foo_bar", "don't", "\u0130stanbul", "\u00df", "\u4e2d\u6587", "e\u0301t\u00e9", "\u216b", "on", "mat",
         "12", "__", "\ufb01n", "\U0001F600", "Stra\u00dfe", "cat,", "(dog)", "zz",
         "\u210cx", "cat\u2122", "\u03a3\u039f\u03a3"]
SEPS = [" ", " ", " ", "  ", "\t", "\n", ", ", ".", "-", "\u00a0", "\u3000", " \n ", "", "\r\n", "\x0b", "\u2003"]


def doc(draw, maxw=8, words=None):
    words = words or WORDS
    bs = raw_bytes(draw, 0, 2 * maxw)
    s = ""
    if len(bs) % 2:
        s = SEPS[bs[-1] % len(SEPS)]
    for i in range(0, len(bs) - 1, 2):
        s += words[bs[i] % len(words)] + SEPS[bs[i + 1] % len(SEPS)]
    return s


_ANY = st.text(alphabet=st.characters(blacklist_categories=("Cs",)), max_size=12)


def any_doc(draw, maxw=8, words=None):
    if draw(st.integers(0, 4)) == 4:
        return draw(_ANY)
    return doc(draw, maxw, words)


def docs(draw, nmin, nmax, maxw=8, words=None):
    return [any_doc(draw, maxw, words) for _ in range(draw(st.integers(nmin, nmax)))]


def f32_next(x, steps):
    """x rounded to float32, moved by steps float32 ulps (numpy, harness side only)."""
    import numpy as np

    v = np.float32(x)
    for _ in range(abs(steps)):
        v = np.nextafter(v, np.float32(math.inf if steps > 0 else -math.inf), dtype=np.float32)
    return float(v)


def probe_value(t, mode):
    """A value at, or a rounding error away from, threshold t."""
    m = mode % 9
    if m == 0:
        return t
    if m == 1:
        return math.nextafter(t, math.inf)
    if m == 2:
        return math.nextafter(t, -math.inf)
    if m == 3:
        return f32_next(t, 0)
    if m == 4:
        return f32_next(t, 1)
    if m == 5:
        return f32_next(t, -1)
    if m == 6:  # rounds to the float32 nearest t from above
        a, b = f32_next(t, 0), f32_next(t, 1)
        return a + (b - a) * 0.4
    if m == 7:
        a, b = f32_next(t, -1), f32_next(t, 0)
        return b - (b - a) * 0.4
    return t + (abs(t) or 1.0) * 1e-9
