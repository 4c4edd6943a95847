"""Scripts for the HttpClient driver: inputs only, the specification is the oracle."""
import gzip
import io
import re
import zlib
from gen_conn import TOK, SIZES, pattern
from rle import rle, hdrs

CODES = [200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 404, 410, 500, 503, 299, 599]
REASON = {200: b"OK", 404: b"Not Found"}


def head(code, hs, version=b"1.1", reason=None):
    r = REASON.get(code, b"Some Reason") if reason is None else reason
    return b"HTTP/" + version + b" %d " % code + r + b"\r\n" + b"".join(n + b": " + v + b"\r\n" for n, v in hs) + b"\r\n"


def chunked(body, cuts, ext=b"", trailers=(), upper=False):
    out, last = b"", 0
    for c in sorted(set(x for x in cuts if 0 < x < len(body))) + [len(body)]:
        if c > last:
            out += (b"%X" if upper else b"%x") % (c - last) + ext + b"\r\n" + body[last:c] + b"\r\n"
            last = c
    return out + b"0\r\n" + b"".join(n + b": " + v + b"\r\n" for n, v in trailers) + b"\r\n"


def gz(data, level=6, fname=None):
    f = io.BytesIO()
    with gzip.GzipFile(filename=fname or "", mode="wb", fileobj=f, compresslevel=level, mtime=0) as g:
        g.write(data)
    return f.getvalue()


class CGen:
    def __init__(self, rng):
        self.r = rng

    def token(self, lo=1, hi=10):
        return b"X" + bytes(self.r.choice(TOK) for _ in range(self.r.randint(lo, hi)))

    def value(self):
        r = self.r
        n = r.choice([0, 1, 2, 5, 20, 60])
        v = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789 ,;=\"/-_\xe9\x80:") for _ in range(n))
        return v.strip()

    def headers(self, n=None):
        r = self.r
        n = r.choice([0, 0, 1, 2, 3, 8]) if n is None else n
        return [(self.token(), self.value()) for _ in range(n)]

    def body(self, big=True):
        r = self.r
        if r.random() < .6:
            n = r.randrange(0, 40)
        else:
            n = max(0, r.choice(SIZES if big else [z for z in SIZES if z < 5000]) + r.choice([0, 0, 1, -1]))
        return pattern(r, n)

    def response(self, method=b"GET", frame=None, code=None, close=None, interim=None, big=True, gzipped=False, redirect=None, trailers=None):
        """-> dict(bytes, coding, eof, close)"""
        r = self.r
        code = code or r.choice(CODES)
        hs = self.headers()
        plain = body = self.body(big)
        coding = None
        if gzipped:
            body = gz(plain, r.choice([0, 1, 6, 9]))
            coding = (body, plain)
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Content-Encoding", b"content-encoding"]), r.choice([b"gzip", b"GZip"])))
        if redirect is not None:
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Location", b"location", b"LOCATION"]), redirect))
        nobody = method == b"HEAD" or code in (204, 304)
        frame = frame or r.choice(["len", "len", "len", "chunk", "chunk", "eof"])
        version = r.choice([b"1.1", b"1.1", b"1.1", b"1.0"])
        if frame == "chunk":
            version = b"1.1"
        if close is None:
            close = r.random() < .25
        if close and version == b"1.1" and not (frame == "eof" and r.random() < .5):
            hs.append((b"Connection", r.choice([b"close", b"Close", b"CLOSE"])))
        elif version == b"1.0" and not close and frame != "eof":
            hs.append((b"Connection", r.choice([b"keep-alive", b"Keep-Alive"])))
        elif r.random() < .2 and not close and frame != "eof":
            hs.append((b"Connection", b"keep-alive"))
        keep = not close
        if frame == "len":
            if not (nobody and r.random() < .4):
                hs.insert(r.randint(0, len(hs)), (r.choice([b"Content-Length", b"content-length", b"CONTENT-LENGTH"]), b"%d" % len(body)))
            wire = body
        elif frame == "chunk":
            if not (nobody and r.random() < .4):
                hs.insert(r.randint(0, len(hs)), (r.choice([b"Transfer-Encoding", b"transfer-encoding"]), r.choice([b"chunked", b"Chunked"])))
            n = len(body)
            k = r.choice([0, 1, 2, 5, 20]) if n < 3000 else r.choice([0, 1, 3])
            cuts = [r.randrange(1, n) for _ in range(k)] if n > 1 else []
            tr = self.headers(r.choice([0, 0, 0, 1, 2, 3])) if trailers is None else trailers
            wire = chunked(body, cuts, r.choice([b"", b"", b";x=y"]), tr, r.random() < .3)
        else:
            wire = body
            keep = nobody and not close and version == b"1.1"
        if nobody:
            wire = b""
        inter = r.choice([0, 0, 0, 0, 1, 2, 3]) if interim is None else interim
        pre = b"".join(head(r.choice([100, 100, 100, 102, 103]), self.headers(r.choice([0, 0, 1])), b"1.1", r.choice([b"Continue", b"", b"x"])) for _ in range(inter))
        h = head(code, hs, version, r.choice([None, None, b"", b"A b C"]))
        return dict(bytes=pre + h + wire, coding=coding, eof=(frame == "eof" and not nobody), keep=keep, headlen=len(pre) + len(h), code=code)

    def segments(self, x, mode=None):
        r = self.r
        n = len(x)
        if n == 0:
            return []
        mode = mode or r.choice(["one", "one", "two", "few", "bytes" if n < 120 else "few", "tail"])
        if mode == "one" or n < 2:
            return [x]
        if mode == "bytes":
            cuts = list(range(1, n))
        elif mode == "tail":
            cuts = [max(1, n - r.randrange(1, 6))]
        elif mode == "two":
            cuts = [r.randrange(1, n)]
        else:
            cuts = sorted(r.sample(range(1, n), min(n - 1, r.randrange(1, 8))))
        for m in re.finditer(rb"@\d@", x):           # placeholders stay whole
            cuts = [c for c in cuts if not m.start() < c < m.end()]
        return [x[a:b] for a, b in zip([0] + cuts, cuts + [n])]

    def target(self):
        r = self.r
        p = b"/" + b"".join(r.choice([b"a", b"b/", b"x.y", b"%20", b"%2F", b"~", b"-_", b"%C3%A9", b"c;d=1", b"@:", b"1,2", b"!$&'()*+"]) for _ in range(r.randrange(0, 5)))
        if r.random() < .4:
            p += b"?" + b"&".join(r.choice([b"k=v", b"a", b"q=%20x", b"z=1+1", b"u=/p?", b"n=", b"%26=%3D"]) for _ in range(r.randrange(1, 4)))
        return p

    def req(self, srv=0, m=None, t=None, d=None, h=None):
        r = self.r
        m = m or r.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"PATCH", b"OPTIONS"])
        if d is None:
            d = self.body(big=r.random() < .3) if m in (b"POST", b"PUT", b"PATCH") and r.random() < .8 else b""
        return {"op": "req", "s": srv, "m": rle(m), "t": rle(self.target() if t is None else t), "h": hdrs(self.headers() if h is None else h), "d": rle(d),
                "via": r.randrange(2)}, m

    @staticmethod
    def sends(segs, c=-1, idle=True):
        out = []
        for s in segs:
            out.append({"op": "send", "c": c, "d": rle(s)})
            if idle:
                out.append({"op": "idle"})
        return out

    def script(self, servers=1, **kw):
        s = {"servers": ["up"] * servers, "ops": [], "onHeaders": [], "onData": [], "onFinished": [], "codings": []}
        s.update(kw)
        return s

    def coding(self, sc, c):
        if c:
            sc["codings"].append({"raw": rle(c[0]), "plain": rle(c[1])})


IDLE = {"op": "idle"}


def exchange(g, sc, srv=0, m=None, c=-1, mode=None, req=None, **kw):
    """append one complete exchange; returns the response description"""
    o, m = req or g.req(srv, m)
    sc["ops"] += [o, IDLE]
    a = g.response(m, **kw)
    g.coding(sc, a["coding"])
    segs = g.segments(a["bytes"], mode)
    sc["ops"] += g.sends(segs, c, g.r.random() < .9)
    if a["eof"]:
        sc["ops"].append({"op": "fin", "c": c})
    sc["ops"].append(IDLE)
    return a
