"""Scripts for the HttpConnection driver: inputs only, the specification is the oracle."""
import random
from rle import rle, hdrs

TOK = b"!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~"
PATHB = bytes(c for c in range(256) if c not in b" #%?" and 32 < c != 127)
SIZES = [0, 1, 2, 3, 7, 15, 16, 17, 100, 255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
         8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200000]


def pattern(rng, n):
    """n bytes made of runs of changing letters, so that lost, repeated or swapped parts show."""
    out = bytearray()
    k = rng.randrange(26)
    while len(out) < n:
        run = rng.choice([1, 2, 3, 5, 11, 97, 1000]) if n > 50 else 1
        if n > 5000:
            run = rng.choice([100, 701, 1999])
        k = (k + rng.randrange(1, 25)) % 26
        out += bytes([97 + k]) * min(run, n - len(out))
    return bytes(out)


class Gen:
    def __init__(self, rng):
        self.r = rng

    def size(self, big=True):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.randrange(0, 40)
        s = r.choice(SIZES if big else [z for z in SIZES if z <= 4100])
        return max(0, s + r.choice([0, 0, 0, -1, 1, 5]))

    def token(self, lo=1, hi=12):
        return bytes(self.r.choice(TOK) for _ in range(self.r.randint(lo, hi)))

    def method(self):
        r = self.r
        x = r.random()
        if x < 0.85:
            return r.choice([b"GET", b"GET", b"POST", b"PUT", b"HEAD", b"DELETE", b"OPTIONS"])
        return bytes(r.choice(b"ABCXYZ0129$-_.") for _ in range(r.choice([1, 2, 4, 19, 20])))

    def pathbytes(self, n, pool=None):
        r = self.r
        out = b""
        while len(out) < n:
            x = r.random()
            if n > 100 and x < .5:
                out += bytes([r.choice(b"abcXYZ019-_.")]) * r.randrange(1, n // 4)
            elif x < 0.08:
                out += b"%" + b"%02x" % r.randrange(32, 127) if r.random() < .5 else b"%" + b"%02X" % r.randrange(32, 127)
            elif x < 0.12:
                out += "é€".encode()
            elif x < 0.2:
                out += r.choice([b"/", b";", b"//", b".", b".."])
            else:
                out += bytes([r.choice(pool or b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'(),:@&=+$\"<>[]{}|\\^`")])
        return out

    def query(self, n):
        return self.pathbytes(n, b"abcdefgABCDEFG0123456789=&==&&;?:@+,-_.") if n else b""

    def uri(self, small=False):
        r = self.r
        x = r.random()
        if x < 0.04:
            return b"*"
        if x < 0.08:
            return b"http://host:80/" + self.pathbytes(r.randrange(0, 9))
        u = b"/" + (self.pathbytes(r.choice([0, 1, 3, 10, 30] + ([] if small else [200, 1023, 1024]))))
        if r.random() < .4:
            u += b"?" + self.query(r.choice([1, 2, 5, 20] + ([] if small else [300, 1100])))
        return u

    def frag(self):
        return b"#" + self.pathbytes(self.r.choice([1, 5, 20])) if self.r.random() < .15 else b""

    def hvalue(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 5, 10, 30, 80]) if n is None else n
        if n > 100:
            return pattern(r, n)
        v = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz ABC:;,=\t\"\xe9\xff\x01") for _ in range(n))
        return v.lstrip(b" ")

    def headers(self, n=None, big=False):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8] + ([30, 31, 32, 33, 34, 40, 64, 65, 100] if big or r.random() < .1 else []))
        hs = []
        for _ in range(n):
            name = r.choice([b"Host", b"Accept", b"User-Agent", b"Cookie", b"X-A", b"x-a", b"If-None-Match"]) if r.random() < .4 else self.token()
            if name.lower() in (b"content-length", b"connection", b"expect"):
                name = b"X-Q"
            hs.append((name, self.hvalue()))
        return hs

    def request(self, version=None, method=None, conn=None, body=None, expect=None, small=False, hs=None, uri=None):
        """A well-formed request; returns its bytes."""
        r = self.r
        method = self.method() if method is None else method
        version = r.choice([b"HTTP/1.1"] * 8 + [b"HTTP/1.0", b"HTTP/1.0", b"HTTP/1.2", b"HTTP/11.05"]) if version is None else version
        hs = list(self.headers(big=not small) if hs is None else hs)
        if conn is None:
            conn = r.choice([None] * 6 + [b"keep-alive", b"Keep-Alive", b"close", b"CLOSE", b"upgrade"])
        if conn:
            hs.insert(r.randint(0, len(hs)), (b"Connection" if r.random() < .8 else b"cOnnection", conn))
        if body is None:
            body = pattern(r, self.size(not small)) if r.random() < .4 else b""
        if body or r.random() < .05:
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Content-Length", b"content-length", b"CONTENT-LENGTH"]), b"%d" % len(body)))
        if expect is None:
            expect = r.random() < .1
        if expect:
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Expect", b"expect"]), r.choice([b"100-continue", b"100-Continue"])))
        sep = lambda: b":" + b" " * r.choice([0, 1, 1, 1, 2, 5])
        u = self.uri(small) if uri is None else uri
        head = method + b" " + u + (self.frag() if uri is None else b"") + b" " + version + b"\r\n"
        head += b"".join(n + sep() + v + b"\r\n" for n, v in hs) + b"\r\n"
        return head + body

    # ---- responses
    def rheaders(self, n=None):
        r = self.r
        hs = []
        for _ in range(r.choice([0, 0, 1, 2, 4, 12] if n is None else [n])):
            name = r.choice([b"X-A", b"Set-Cookie", b"ETag", b"Server", b"x-a"]) if r.random() < .6 else self.token()
            if name.lower() in (b"content-length", b"connection", b"content-type", b"transfer-encoding"):
                name = b"X-Q"
            v = self.hvalue(r.choice([None, None, None, 200, 900, 990, 1000, 1100, 4000, 5000]))
            hs.append((name, v.replace(b"\x01", b"a")))
        if r.random() < .2:
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Content-Type", b"content-type"]), r.choice([b"text/html", b"image/png"])))
        if r.random() < .15:
            hs.insert(r.randint(0, len(hs)), (b"Connection", r.choice([b"close", b"keep-alive", b"Close", b"foo"])))
        return hs

    CODES = [200, 200, 200, 201, 202, 206, 301, 302, 400, 401, 403, 404, 410, 416, 500, 503, 505, 999, 299, 0]

    def pieces(self, data):
        r = self.r
        out = []
        while data:
            k = r.choice([1, 2, 5, 100, 1000, 4096, len(data)])
            out.append(data[:k])
            data = data[k:]
            if len(out) > 12:
                out.append(data)
                break
        if r.random() < .2:
            out.insert(r.randint(0, len(out)), b"")
        return [p for p in out if True]

    def response(self, big=True, style=None):
        """A list of API calls that make one complete response."""
        r = self.r
        hs = self.rheaders()
        code = r.choice(self.CODES)
        body = pattern(r, self.size(big)) if r.random() < .8 else b""
        style = r.choice(["wr", "wr", "wr", "ws", "len", "chunk", "open"]) if style is None else style
        put = lambda h: hs.insert(r.randint(0, len(hs)), h)
        if style in ("wr", "ws"):
            return [dict(op=style, s=code, h=hdrs(hs), c=rle(body))]
        if style == "len":
            put((r.choice([b"Content-Length", b"content-Length"]), b"%d" % len(body)))
            return [dict(op="wh", s=code, h=hdrs(hs))] + [dict(op="wc", c=rle(p)) for p in self.pieces(body)]
        if style == "chunk":
            put((r.choice([b"Transfer-Encoding", b"transfer-encoding"]), r.choice([b"chunked", b"Chunked"])))
        return [dict(op="wh", s=code, h=hdrs(hs))] + [dict(op="wc", c=rle(p)) for p in self.pieces(body)] + [dict(op="ec")]

    # ---- segmentation
    def cuts(self, data, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 6])
        ps = sorted(r.randrange(0, len(data) + 1) for _ in range(n)) if data else []
        ps = [0] + ps + [len(data)]
        return [data[a:b] for a, b in zip(ps, ps[1:]) if b > a]

    def feed(self, data, n=None):
        return [dict(op="feed", d=rle(p)) for p in self.cuts(data, n)]

    INSPECT = [dict(op="fields")]

    def scenario(self, nreq=None, big=False, hold=None, split=None, sync=None, inspect=True, **kw):
        """Several requests with well-behaved handlers; answered inside or outside the notification."""
        r = self.r
        n = nreq or r.choice([1, 2, 2, 3, 5])
        reqs = [self.request(small=not big, **kw) for _ in range(n)]
        hold = r.random() < .3 if hold is None else hold
        split = r.random() < .2 if split is None else split
        sync = r.random() < .5 if sync is None else sync
        resp = [self.response(big) for _ in range(n)]
        sc = {"ops": [dict(op="init", hold=hold, split=split)], "onReady": [], "onCompleted": [], "onClosed": []}
        ins = self.INSPECT if inspect else []
        if sync:
            segs = self.feed(b"".join(reqs))
            for s in segs:
                sc["ops"].append(s)
                if r.random() < .4:
                    sc["ops"].append(dict(op="idle"))
                if hold and r.random() < .6:
                    sc["ops"].append(dict(op="drain", n=r.choice([1, 10, 100, 100000])))
            for k in range(n):
                sc["onReady"].append(self.mix(resp[k], ins))
                sc["onCompleted"].append(list(ins) if r.random() < .5 else [])
        else:
            sc["onReady"] = [[]]
            sc["onCompleted"] = [list(ins)]
            todo = self.feed(b"".join(reqs))
            for k in range(n):
                # feed some segments, then answer the outstanding request piecewise between arrivals
                take = r.randint(1, max(1, len(todo))) if k < n - 1 else len(todo)
                sc["ops"] += todo[:take] + [dict(op="idle")]
                todo = todo[take:]
                for o in self.mix(resp[k], ins):
                    sc["ops"].append(o)
                    if r.random() < .3 and todo:
                        sc["ops"].append(todo.pop(0))
                    if hold and r.random() < .4:
                        sc["ops"].append(dict(op="drain", n=r.choice([1, 10, 100, 100000])))
                    if r.random() < .3:
                        sc["ops"].append(dict(op="idle"))
        if hold:
            for _ in range(r.choice([0, 1, 3])):
                sc["ops"] += [dict(op="drain", n=r.choice([1, 7, 1000, 30000])), dict(op="idle")]
            sc["ops"] += [dict(op="drain", n=100000000)]
        return sc

    def mix(self, ops, extra):
        out = []
        for o in ops:
            if extra and self.r.random() < .3:
                out += extra
            out.append(o)
        if extra and self.r.random() < .5:
            out = list(extra) + out
        return out
