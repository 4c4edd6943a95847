"""Byte strings as exchanged with the specification and the drivers: run-length encoded."""
from itertools import groupby


def rle(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    out = []
    i, n = 0, len(b)
    for k, g in groupby(b):
        c = sum(1 for _ in g)
        while c > 8000000:          # not canonical: callers keep runs below this
            out.append(k + 256 * 8000000)
            c -= 8000000
        out.append(k + 256 * c)
    return out


def unrle(l):
    return b"".join(bytes([r % 256]) * (r // 256) for r in l)


def hdrs(hs):
    return [[rle(n), rle(v)] for n, v in hs]
