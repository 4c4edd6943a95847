"""Scripts for the header driver."""
from rle import rle, hdrs

WORDS = [b"a", b"A", b"b", b"aA", b"@", b"`", b"", b"Content-Length", b"content-length", b"CONTENT-LENGTH", b"Content-Lengt", b"Content-Length ", b"connection", b"Connection", b"Host", b"X-[]{}", b"X-{}[]", b"\x00", b"\x20",
         b"\xc0\xe0", b"\xe0\xc0", b"\x7f_", b"key", b"\xcbey", b"K\xe9y", b"[", b"{", b"Transfer-Encoding", b"a b", b"1", b"a\x00b", b"A\x00B", b"a\x00c"]
VALUES = [b"", b"x", b"X", b"xx", b"close", b"Close", b"keep-alive", b"\xff", b"1", b"\x00", b" x", b"[\\]^_", b"{|}~\x7f"]


def query(r, names=None, values=None):
    return dict(e="ask", names=[rle(n) for n in (names or r.sample(WORDS, 8))], values=[rle(v) for v in (values or r.sample(VALUES, 4))])


def of_model(h, r):
    ops = []
    for o in h:
        ops.append(dict(o, how=r.randrange(4)))
    ops.append(query(r, WORDS[:7], VALUES[:4]))
    return dict(ops=ops)


def pair_scripts():
    return [dict(ops=[dict(e="pairs", pre=rle(a), post=rle(b))]) for a, b in ((b"", b""), (b"a", b"Z"), (b"Content", b"Lengthx"), (b"\xe9", b""), (b"", b"@[`{"))]


def anything(r):
    ops = []
    for _ in range(r.choice([1, 3, 8, 20])):
        x = r.random()
        h = lambda: (r.choice(WORDS) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 30]))), r.choice(VALUES) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40]))))
        if x < .4:
            a, b = h()
            ops.append(dict(e="add", h=[rle(a), rle(b)], how=r.randrange(4)))
        elif x < .55:
            ops.append(dict(e="cat", l=hdrs([h() for _ in range(r.choice([0, 1, 2, 10]))]), how=r.randrange(3)))
        elif x < .62:
            ops.append(dict(e="self", how=r.randrange(3)))
            if len(ops) > 12:
                ops.append(dict(e="clear"))
        elif x < .75:
            a, b = h()
            ops.append(dict(e="raw", d=rle(a + r.choice([b":", b": ", b"  ", b" :", b":\t", b"::", b":   "]) + b)))
        elif x < .8:
            ops.append(dict(e="sum", l=hdrs([h() for _ in range(r.choice([0, 1, 3]))])))
        else:
            ops.append(query(r))
    ops.append(query(r))
    return dict(ops=ops)
