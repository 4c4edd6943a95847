"""Scripts for the proxy driver: clients, a proxy handler and its upstream server.

Awaits (forwarded, relayed, answered, closed, released) only say how long to wait for what is due;
the specification decides what was due, at every sync."""
from gen_client import chunked, head
from gen_conn import pattern
from rle import rle


def op(o, **k):
    return dict(op=o, **k)


def csend(c, d, heads=()):
    return op("csend", c=c, d=rle(d), heads=list(heads))


CODES = [200, 200, 200, 200, 201, 206, 301, 302, 400, 401, 403, 404, 404, 405, 407, 409, 410, 418, 500, 500, 501, 502, 503, 504, 599]
SEGS = [b"/x", b"/a%2Fb", b"/%20", b"/a;p=1", b"/%C3%A9", b"/%25", b"/%e9", b"/[1]", b"/a'(b)!*,$", b"/:8@a=&+", b"/\xc3\xa9", b"/\xff|", b"/%41%7e", b"/%00"]
QS = [b"", b"", b"", b"?", b"?q=1", b"?a=%26&b=a+b", b"?a=%20&b=%2B", b"?x[]={|}", b"?a=b/c?d", b"?%C3%A9=\xe9", b"?a%3Db=%3d"]
FRAGS = [b"", b"", b"", b"", b"#f"]


def cuts_of(r, x, most):
    n = r.choice([0, 0, 1, 1, 2, most])
    at = sorted({r.randrange(1, len(x)) for _ in range(n)}) if len(x) > 1 else []
    return [x[a:b] for a, b in zip([0] + at, at + [len(x)])]


def request(g, k, plain=False):
    """One request: bytes, method, whether its client keeps the connection."""
    r = g.r
    m = b"GET" if plain else r.choice([b"GET", b"GET", b"GET", b"GET", b"HEAD", b"POST", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"TEAPOT"])
    t = b"/k%d" % k + (b"" if plain else b"".join(r.choice(SEGS) for _ in range(r.choice([0, 0, 1, 2]))) + r.choice(QS) + r.choice(FRAGS))
    v = b"1.0" if not plain and r.random() < .2 else b"1.1"
    d = g.body(big=r.random() < .15) if m in (b"POST", b"PUT", b"PATCH") and r.random() < .85 else b""
    hs = [(r.choice([b"Host", b"host"]), r.choice([b"h", b"example.com", b"a:8080"]))]
    hs += [(n, x) for n, x in g.headers() if x]
    if not plain:
        for n, vs, p in ((b"Via", [b"a", b"b, c", b"1.1 x"], .3), (b"Cookie", [b"a=1", b"b=2; c=3", b"sid=x%d" % k], .3), (b"Accept-Encoding", [b"gzip", b"identity", b"gzip;q=0, *"], .2),
                         (b"User-Agent", [b"me/1"], .3), (b"Accept-Language", [b"fr"], .2), (b"X-Twice", [b"1", b"2", b"3"], .2), (b"Accept", [b"*/*", b"text/html"], .3),
                         (b"Authorization", [b"Basic YTpi"], .1), (b"If-None-Match", [b'"e"'], .2), (b"Range", [b"bytes=0-1"], .1), (b"Referer", [b"http://a/b?c#d"], .1)):
            if r.random() < p:
                for _ in range(r.choice([1, 1, 2, 3]) if n in (b"Via", b"X-Twice", b"Cookie") else 1):
                    hs.append((r.choice([n, n, n.lower(), n.upper()]), r.choice(vs)))
    if d and r.random() < .5:
        hs.append((b"Content-Type", b"text/x"))
    if d or (m == b"POST" and r.random() < .5):
        hs.append((r.choice([b"Content-Length", b"content-length"]), b"%d" % len(d)))
    ka = v == b"1.1"
    if not plain and r.random() < .25:
        w = r.choice([b"close", b"keep-alive", b"Close", b"Keep-Alive"])
        hs.append((b"Connection", w))
        ka = w.lower() == b"keep-alive"
    r.shuffle(hs)
    return dict(k=k, m=m, v=v, ka=ka, bytes=m + b" " + t + b" HTTP/" + v + b"\r\n" + b"".join(n + b": " + x + b"\r\n" for n, x in hs) + b"\r\n" + d)


def answer(g, q, plain=False, frame=None):
    """One answer: head, framed body, the body, whether its end is the end of the connection."""
    r = g.r
    code = 200 if plain else r.choice(CODES + [204, 304])
    frame = frame or r.choice(["len", "len", "chunked", "close"])
    body = b"r%d" % q["k"] if plain else g.body(big=r.random() < .2)
    hs = [(n, x) for n, x in g.headers() if x]
    if not plain:
        for n, vs, p in ((b"Via", [b"a", b"b, c"], .2), (b"Set-Cookie", [b"a=%d" % q["k"], b"b=2; Path=/; Expires=Wed, 21 Oct 2099 07:28:00 GMT", b"c=; Max-Age=0"], .4), (b"Content-Encoding", [b"gzip", b"x-odd"], .15),
                         (b"ETag", [b'"e"'], .2), (b"Location", [b"/k0", b"http://a/"], .3 if code // 100 == 3 else 0), (b"Cache-Control", [b"no-store", b"max-age=9"], .3), (b"Date", [b"Wed, 21 Oct 2015 07:28:00 GMT"], .2),
                         (b"WWW-Authenticate", [b'Basic realm="x"'], .7 if code == 401 else 0), (b"Server", [b"s/1"], .3), (b"Vary", [b"A", b"b"], .2)):
            if r.random() < p:
                for _ in range(r.choice([1, 1, 2, 3]) if n in (b"Via", b"Set-Cookie", b"Vary") else 1):
                    hs.append((r.choice([n, n, n.lower()]), r.choice(vs)))
    if r.random() < .5:
        hs.append((b"Content-Type", b"text/html; charset=x"))
    none = q["m"] == b"HEAD" or code in (204, 304)
    close = False
    if frame == "len":
        if not (none and r.random() < .3):
            hs.append((r.choice([b"Content-Length", b"content-length"]), b"%d" % len(body)))
    elif frame == "chunked" and not none:
        hs.append((b"Transfer-Encoding", r.choice([b"chunked", b"Chunked"])))
    if not plain and r.random() < .15:
        hs.append((b"Connection", b"close"))
        close = True
    r.shuffle(hs)
    h = head(code, hs, reason=r.choice([b"OK", b"Not Such", b""]) if not plain else b"OK")
    if not plain and r.random() < .1:
        h = b"HTTP/1.1 100 Continue\r\n\r\n" + h
    raw = b"" if none else body
    wire = b"" if none else chunked(body, [r.randrange(1, len(body)) for _ in range(r.choice([0, 0, 1, 2]))] if len(body) > 1 else []) if frame == "chunked" else body
    eof = frame == "close" and not none
    known = frame == "len" or (frame == "chunked" and q["v"] == b"1.1")
    return dict(head=h, wire=wire, raw=raw, eof=eof, none=none, code=code, close=close, known=known,
                ends=eof or close or code in (204, 304) or not q["ka"] or not (known or q["m"] == b"HEAD") or (none and not any(n.lower() == b"content-length" for n, _ in hs)))


def body_in(a, n):
    """How much of the body the first n bytes of the framed body carry."""
    if a["none"] or not a["raw"]:
        return 0
    if a["wire"] == a["raw"]:
        return min(n, len(a["raw"]))
    x, got, p = a["wire"], 0, 0
    while p < n:
        e = x.index(b"\r\n", p)
        k = int(x[p:e], 16)
        got += max(0, min(k, n - e - 2))
        p = e + 4 + k
        if k == 0:
            break
    return got


class Client:
    """The ops of one client, as a generator of small groups (each group leaves nothing due unawaited)."""
    def __init__(self, g, c, keys, fate, plain=False):
        self.g, self.c, self.keys, self.fate, self.plain = g, c, keys, fate, plain

    def steps(self):
        g, r, c = self.g, self.g.r, self.c
        yield [op("conn")]
        done = 0
        plan, ks = [], list(self.keys)
        for k in ks:
            q = request(g, k, self.plain)
            plan.append((q, answer(g, q, self.plain)))
        i = 0
        while i < len(plan):
            group = 1
            if not self.fate and r.random() < .3:        # several requests at once, if all but the last keep the connection
                while i + group < len(plan) and not plan[i + group - 1][1]["ends"] and r.random() < .6:
                    group += 1
            last = i + group >= len(plan)
            fate = self.fate if last else ""
            q = plan[i + group - 1][0]
            if fate == "doom":
                a = plan[i][1]
                z = a["head"] + a["wire"]
                yield [op("doom", k=q["k"], how=r.choice(["fin", "rst"]), d=rle(r.choice([b"", b"", z[:r.randrange(0, len(a["head"]))] if b"100 Cont" not in z else b"", b"GARBAGE\r\n\r\n" * 3])))]
            x = b"".join(plan[j][0]["bytes"] for j in range(i, i + group))
            if fate == "gone-sending":
                yield [csend(c, x[:r.randrange(0, len(x))])]
                yield [op(r.choice(["cfin", "crst"]), c=c), op("closed", c=c)]
                return
            parts = cuts_of(r, x, 4)
            for n, p in enumerate(parts):
                o = [csend(c, p, [plan[j][0]["m"] == b"HEAD" for j in range(i, i + group)] if n == 0 else [])]
                if n == len(parts) - 1:
                    o.append(op("answered", c=c, n=done + 1) if fate in ("down", "doom") else op("forwarded", k=plan[i][0]["k"], c=c))
                    yield o
                elif group == 1:
                    yield o
                else:                                    # an earlier request may be complete already
                    yield o + [op("forwarded", k=plan[i][0]["k"], c=c)] if sum(map(len, parts[:n + 1])) >= len(plan[i][0]["bytes"]) else o
            if fate in ("down", "doom"):
                return
            for j in range(i, i + group):
                q, a = plan[j]
                x = a["head"] + a["wire"]
                if fate == "gone-waiting":
                    yield [op(r.choice(["cfin", "crst"]), c=c), op("closed", c=c), op("released", k=q["k"])]
                    return
                parts, sent = cuts_of(r, x, 5), 0
                for n, p in enumerate(parts):
                    lastpart = n == len(parts) - 1
                    if lastpart and fate in ("cut-fin", "cut-rst", "gone-reading") and not a["none"]:
                        got = body_in(a, sent - len(a["head"])) if sent > len(a["head"]) else 0
                        if fate == "gone-reading":
                            yield [op(r.choice(["cfin", "crst"]), c=c), op("closed", c=c), op("released", k=q["k"])]
                            return
                        if got and not a["eof"] and a["code"] not in (401, 407):          # breaks off after some of it has been passed on
                            yield [op("ufin" if fate == "cut-fin" else "urst", k=q["k"]), op("closed", c=c)]
                            return
                    sent += len(p)
                    o = [op("usend", k=q["k"], d=rle(p))]
                    if lastpart:
                        if a["eof"]:
                            o.append(op("ufin", k=q["k"]))
                        o.append(op("answered", c=c, n=done + 1))
                        if a["ends"]:
                            o.append(op("closed", c=c))
                        elif j + 1 < i + group:
                            o.append(op("forwarded", k=plan[j + 1][0]["k"], c=c))
                    elif sent > len(a["head"]) and a["code"] not in (401, 407) and body_in(a, sent - len(a["head"])):
                        o.append(op("relayed", c=c, n=body_in(a, sent - len(a["head"])), seen=done))
                    yield o
                done += 1
                if a["ends"]:
                    return
            i += group
        if self.fate == "gone-idle":
            yield [op(r.choice(["cfin", "crst"]), c=c), op("closed", c=c)]


def weave(g, clients, down=False, sync=.25):
    r = g.r
    ops, live = [], []
    for c in clients:                                    # connections are numbered in the order they are opened
        live.append(c.steps())
        ops += next(live[-1])
    while live:
        x = r.choice(live)
        try:
            ops += next(x)
        except StopIteration:
            live.remove(x)
            continue
        if r.random() < sync:
            ops.append(op("sync", ms=4))
    return dict(ops=ops + [op("sync", ms=15)], down=down)


def relays(g, n, most=4, fates=("",), exchanges=(1, 1, 2, 3), plain=False, sync=.25):
    r, out = g.r, []
    for _ in range(n):
        k, cl = 0, []
        for c in range(r.randint(1, most)):
            m = r.choice(exchanges)
            cl.append(Client(g, c, range(k, k + m), r.choice(fates), plain))
            k += m
        out.append(weave(g, cl, sync=sync))
    return out


def downs(g, n):
    return [weave(g, [Client(g, c, [c], "down") for c in range(g.r.randint(1, 4))], down=True) for _ in range(n)]


def crowds(g, n, least=7, most=24):
    """More clients at once than one network access manager has connections."""
    r, out = g.r, []
    for _ in range(n):
        m = r.randint(least, most)
        qs = [request(g, k) for k in range(m)]
        ops = [op("conn") for _ in range(m)]
        order = list(range(m))
        r.shuffle(order)
        ops += [csend(k, qs[k]["bytes"], [qs[k]["m"] == b"HEAD"]) for k in order]
        ops += [op("forwarded", k=k, c=k) for k in range(m)] + [op("sync", ms=5)]
        r.shuffle(order)
        for k in order:
            a = answer(g, qs[k])
            ops.append(op("usend", k=k, d=rle(a["head"] + a["wire"])))
            if a["eof"]:
                ops.append(op("ufin", k=k))
            ops.append(op("answered", c=k, n=1))
            if a["ends"]:
                ops.append(op("closed", c=k))
        out.append(dict(ops=ops + [op("sync", ms=15)], down=False))
    return out
