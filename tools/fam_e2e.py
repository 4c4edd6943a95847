"""Scripts for the end-to-end driver: real clients and real servers, both applications scripted."""
from gen_client import CGen, gz
from gen_conn import Gen, pattern
from rle import rle, hdrs

IDLE = {"op": "idle"}
CODES = [200, 200, 200, 201, 202, 206, 299, 301, 302, 303, 307, 400, 401, 403, 404, 410, 416, 500, 503, 505, 999]


class E2E:
    def __init__(self, g, clients=1, servers=1, down=False):
        self.r = g.r
        self.g, self.c = Gen(g.r), CGen(g.r)
        self.nc, self.ns = clients, servers
        self.s = {"servers": ["up"] * servers + (["down"] if down else []), "clients": [{"onHeaders": [], "onData": [], "onFinished": []} for _ in range(clients)], "codings": [], "app": {}, "ops": []}
        self.ops = self.s["ops"]
        self.serial = 0
        self.pend = []          # (uri, calls still to be made)

    def target(self, cl):
        """A target of its own, and the key of the application's answer to it."""
        self.serial += 1
        t = b"/c%d/%d" % (cl, self.serial) + (self.c.target() if self.r.random() < .6 else b"")
        return t, t.decode()

    def rheaders(self):
        return [(n, v.strip()) for n, v in ((b"X-" + self.g.token(1, 8) if self.r.random() < .5 else self.r.choice([b"X-A", b"x-a", b"Set-Cookie", b"ETag", b"Server"]),
                                              self.g.hvalue(self.r.choice([None, None, None, 200, 990, 1000, 4000])).replace(b"\x01", b"a")) for _ in range(self.r.choice([0, 0, 1, 2, 4, 12])))]

    def answer(self, redirect=None, big=False, style=None, gzipped=False):
        """The calls that make one response."""
        r = self.r
        hs = self.rheaders()
        put = lambda h: hs.insert(r.randint(0, len(hs)), h)
        code = r.choice(CODES)
        body = pattern(r, self.g.size(big)) if r.random() < .85 else b""
        if redirect is not None:
            code = r.choice([300, 301, 302, 303, 307])
            put((r.choice([b"Location", b"location"]), redirect))
        if gzipped:
            plain, body = body, gz(body, r.choice([0, 1, 6, 9]))
            self.s["codings"].append({"raw": rle(body), "plain": rle(plain)})
            put((r.choice([b"Content-Encoding", b"content-encoding"]), b"gzip"))
        if r.random() < .15:
            put((b"Connection", r.choice([b"close", b"keep-alive", b"Close", b"x-other"])))
        if r.random() < .2:
            put((r.choice([b"Content-Type", b"content-type"]), r.choice([b"text/html", b"image/png"])))
        style = style or r.choice(["wr", "wr", "wr", "ws", "len", "chunk", "open"])
        if style == "ws" and gzipped:
            style = "wr"
        if not body and not gzipped and redirect is None and style == "wr" and r.random() < .3:
            code = r.choice([204, 304])
        if style in ("wr", "ws"):
            return [dict(op=style, s=code, h=hdrs(hs), c=rle(body))]
        if style == "len":
            put((r.choice([b"Content-Length", b"content-length"]), b"%d" % len(body)))
        elif style == "chunk":
            put((r.choice([b"Transfer-Encoding", b"transfer-encoding"]), r.choice([b"chunked", b"Chunked"])))
        out = [dict(op="wh", s=code, h=hdrs(hs))]
        for p in self.g.pieces(body):
            out.append(dict(op="wc", c=rle(p)))
            if r.random() < .1:
                out.append(dict(op="flush"))
        return out + ([dict(op="ec")] if style != "len" else [])

    def req(self, cl, srv=None, t=None, m=None, big=False):
        r = self.r
        hs = self.c.headers()
        if r.random() < .12:
            hs.insert(r.randint(0, len(hs)), (r.choice([b"Connection", b"connection"]), r.choice([b"close", b"keep-alive", b"Close"])))
        m = m or r.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"PATCH", b"OPTIONS", b"X-9._$"])
        d = self.c.body(big or r.random() < .2) if m in (b"POST", b"PUT", b"PATCH", b"X-9._$") and r.random() < .8 else b""
        if r.random() < (.3 if d else .03):
            hs.insert(r.randint(0, len(hs)), (b"Expect", r.choice([b"100-continue", b"100-Continue"])))
        x = r.random()
        if x < .01:
            m = b"A" * r.choice([20, 21, 30])
        elif x < .02:
            hs.append((b"X-Long", b"v" * r.choice([32000, 33000, 70000])))
        return {"op": "req", "cl": cl, "s": r.randrange(self.ns) if srv is None else srv, "m": rle(m), "t": rle(t), "h": hdrs(hs), "d": rle(d)}

    def ask(self, cl, srv=None, later=.3, **kw):
        """A request and what the application is going to do with it."""
        r = self.r
        t, u = self.target(cl)
        redirect = None
        if kw.pop("redirect", False):
            t2, u2 = self.target(cl)
            redirect = t2 if r.random() < .5 else b"http://@%d@" % r.randint(1, self.ns) + t2
            self.plan(u2, self.answer(big=kw.get("big", False)), later)
        self.plan(u, self.answer(redirect=redirect, big=kw.get("big", False), gzipped=kw.pop("gzipped", False), style=kw.pop("style", None)), later)
        return self.req(cl, srv, t + (b"#f" if r.random() < .05 else b""), **kw)

    def plan(self, u, calls, later):
        r = self.r
        if r.random() < later:
            k = r.randint(0, len(calls))
            self.s["app"][u] = calls[:k]
            if k < len(calls):
                self.pend.append((u, calls[k:]))
        else:
            self.s["app"][u] = calls

    def late(self, one=True):
        i = self.r.randrange(len(self.pend))
        u, calls = self.pend.pop(i)
        k = self.r.randint(1, len(calls)) if one else len(calls)
        self.ops.append(dict(op="late", u=u, ops=calls[:k]))
        if k < len(calls):
            self.pend.append((u, calls[k:]))

    def finish(self):
        while self.pend:
            self.late(one=False)
            if self.r.random() < .4:
                self.ops.append(dict(IDLE))
        self.ops.append(dict(IDLE))
        return self.s


def exchanges(g, n=12, big=False):
    """One exchange after the other, every shape of request and response, on connections kept or not."""
    r = g.r
    e = E2E(g, r.choice([1, 1, 2]), r.choice([1, 1, 2]))
    for cl in range(1, e.nc + 1):
        if r.random() < .15:
            e.ops.append(dict(op="timeout", cl=cl, n=r.choice([0, -1])))
    for _ in range(n):
        cl = r.randint(1, e.nc)
        red = r.random() < .1
        coded = r.random() < .12
        e.ops += [e.ask(cl, redirect=red, big=big, gzipped=coded)]
        while e.pend:                       # what is left to be said before the request arrives is lost: no half of a coded body
            if coded or r.random() < .7:
                e.ops.append(dict(IDLE))
            e.late()
        e.ops.append(dict(IDLE))
        if red or r.random() < .03:
            e.ops.append(dict(op="follow", cl=cl))
            e.ops.append(dict(IDLE))
            while e.pend:
                e.late()
            e.ops.append(dict(IDLE))
    return e.finish()


def crowd(g, steps=30, big=False):
    """Many clients and servers at once; requests, late answers, aborts and closes in any order."""
    r = g.r
    e = E2E(g, r.choice([2, 3, 5, 8]), r.choice([1, 2, 3]), down=r.random() < .2)
    for cl in range(1, e.nc + 1):           # some ask again as soon as they are told the end
        for _ in range(r.choice([0, 0, 1, 3])):
            e.s["clients"][cl - 1]["onFinished"].append([e.ask(cl, later=.2)] if r.random() < .7 else [dict(op=r.choice(["follow", "abort", "consume"]), cl=cl)])
        for l in ("onHeaders", "onData"):
            if r.random() < .15:
                e.s["clients"][cl - 1][l].append([dict(op=r.choice(["abort", "consume", "follow"]), cl=cl)] + ([e.ask(cl)] if r.random() < .5 else []))
    for _ in range(steps):
        x = r.random()
        cl = r.randint(1, e.nc)
        if x < .5:
            e.ops.append(e.ask(cl, srv=e.ns if e.s["servers"][-1] == "down" and r.random() < .3 else None, redirect=r.random() < .08, big=big))
        elif x < .7 and e.pend:
            e.late()
        elif x < .75:
            e.ops.append(dict(op="abort", cl=cl))
        elif x < .79:
            e.ops.append(dict(op="follow", cl=cl))
        elif x < .83 and e.pend:
            e.ops.append(dict(IDLE))
            u, _ = r.choice(e.pend)
            e.ops.append(dict(op="late", u=u, ops=[dict(op="close")]))
            e.ops.append(dict(IDLE))
        else:
            e.ops.append(dict(IDLE))
    return e.finish()


def bounded(g, n=4):
    """Clients that hold no more than so much at a time and consume at any pace."""
    r = g.r
    e = E2E(g, 1, 1)
    e.ops.append(dict(op="limit", cl=1, n=r.choice([1, 10, 100, 1000, 1024, 5000, 65536])))
    auto = r.random() < .5
    if auto:
        e.s["clients"][0].update(onData=[[dict(op="consume", cl=1)]], repeat=True)
    for _ in range(n):
        e.ops += [e.ask(1, big=not auto, m=b"GET"), dict(IDLE)]
        while e.pend:
            e.late()
            e.ops.append(dict(IDLE))
        for _ in range(0 if auto else r.choice([3, 10, 30])):
            e.ops += [dict(op="consume", cl=1), dict(IDLE)]
        if not auto:
            e.ops += [dict(op="abort", cl=1), dict(IDLE)]
    return e.finish()
