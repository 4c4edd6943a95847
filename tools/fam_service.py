"""Scripts for the service driver: many clients, any transport, trees of handlers."""
from gen_conn import pattern
from rle import rle, hdrs

TRANSPORTS = ["tcp", "local", "tls", "mem", "mem2"]
APP = {"t": "probe", "id": "app", "acc": True}


class Script:
    def __init__(self, g, transport, tree=APP, logs=(), hold=False, fs=()):
        self.g, self.r = g, g.r
        self.s = {"transport": transport, "tree": tree, "logs": list(logs), "hold": hold, "fs": list(fs), "app": {}, "ops": []}
        self.ops = self.s["ops"]
        self.odd = []           # tails of URIs to mix in
        self.n = 0
        self.live = []          # clients that may still send
        self.pend = []          # URIs to be answered later: (uri, remaining calls, client)
        self.serial = 0

    def open(self):
        self.n += 1
        self.ops.append(dict(op="open", c=self.n))
        self.live.append(self.n)
        return self.n

    def idle(self):
        self.ops.append(dict(op="idle"))

    def leave(self, c, how):
        self.ops.append(dict(op=how, c=c))
        if c in self.live:
            self.live.remove(c)
        self.pend = [p for p in self.pend if p[2] != c]

    def send(self, c, data, n=None, idle=.3):
        for p in self.g.cuts(data, n):
            self.ops.append(dict(op="send", c=c, d=rle(p)))
            if self.r.random() < idle:
                self.idle()

    def uri(self, c):
        self.serial += 1
        u = "/c%d/r%d" % (c, self.serial)
        if self.odd and self.r.random() < .5:
            return u + "/" + self.r.choice(self.odd).decode()
        if self.r.random() < .3:
            u += self.r.choice(["?a=1", "?q=%41&b", "%20x", ";p=1", "?x=&y=2&x=3"])
        return u

    def request(self, c, keep=None, big=False, method=None, body=None):
        """Bytes of a request and whether it may end the connection."""
        r = self.r
        u = self.uri(c)
        kind = "keep" if keep else r.choice(["keep"] * 8 + ["close", "old", "oldka"])
        v, cn = {"keep": (b"HTTP/1.1", None), "close": (b"HTTP/1.1", b"close"), "old": (b"HTTP/1.0", None), "oldka": (b"HTTP/1.0", b"keep-alive")}[kind]
        if method is None:
            method = r.choice([b"GET"] * 4 + [b"POST", b"PUT", b"HEAD", b"HEAD"])
        if body is None:
            body = pattern(r, self.g.size(big)) if method in (b"POST", b"PUT") else b""
        d = self.g.request(version=v, method=method, conn=cn or b"", body=body, expect=bool(body) and r.random() < .3, small=True, hs=self.g.headers(r.choice([0, 1, 3])), uri=u.encode())
        return u, d, kind in ("close", "old")

    def answer(self, u, c, ends, later=.25, big=False):
        """Choose what the application does with the request for u; True if the connection may end."""
        r = self.r
        x = r.random()
        if x < .35:
            return ends
        style = r.choice(["wr", "ws", "len", "chunk", "open"])
        calls = self.g.response(big, style)
        ends = ends or style in ("open", "chunk") or any(h[0] and bytes([z % 256 for z in h[0] for _ in range(z // 256)]).lower() == b"connection" for o in calls for h in o.get("h", []))
        if r.random() < .08:
            calls = calls[:r.randint(0, len(calls))] + [dict(op="close")]
            ends = True
        if r.random() < later:
            k = r.randint(0, len(calls))
            self.s["app"][u] = calls[:k]
            if k < len(calls):
                self.pend.append((u, calls[k:], c))
        else:
            self.s["app"][u] = calls
        return ends

    def late(self, one=True):
        if not self.pend:
            return
        i = self.r.randrange(len(self.pend))
        u, calls, c = self.pend.pop(i)
        k = self.r.randint(1, len(calls)) if one else len(calls)
        self.ops.append(dict(op="late", u=u, ops=calls[:k]))
        if k < len(calls):
            self.pend.append((u, calls[k:], c))

    def finish(self):
        while self.pend:
            self.late(one=False)
            if self.r.random() < .5:
                self.idle()
        self.idle()
        return self.s


def traffic(g, transport, steps=25, most=5, big=False, leave=.12, tree=APP, logs=(), odd=()):
    """Clients come, make requests (pipelined, in pieces, answered now or later) and leave, in any order."""
    r = g.r
    s = Script(g, transport, tree, logs)
    s.odd = list(odd)
    for _ in range(steps):
        x = r.random()
        if not s.live or (x < .2 and len(s.live) < most):
            s.open()
            if r.random() < .3:
                s.idle()
        elif x < .2 + leave:
            if r.random() < .5:
                s.idle()
            s.leave(r.choice(s.live), r.choice(["fin", "rst", "half"]))
        elif x < .45 and s.pend:
            s.late()
        elif x < .5 and not any(p[2] in s.live for p in s.pend):
            c = r.choice(s.live)
            bad = r.choice([b"GARBAGE\r\n\r\n", b"GET / HTTP/1.1\r\nContent-Length: 999999999\r\n\r\n", b"GET /%zz HTTP/1.1\r\n\r\n", b"\x16\x03\x01\x02\x00\x01"])
            s.idle()
            s.send(c, bad, 0)
            s.idle()
            s.live.remove(c)
        elif x < .6:
            s.idle()
        else:
            c = r.choice(s.live)
            data = b""
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                u, d, ends = s.request(c, big=big)
                data += d
                if s.answer(u, c, ends, big=big):
                    s.live.remove(c)
                    break
            s.send(c, data)
    return s.finish()


def waves(g, transport, n=40, rounds=3, tree=APP, logs=()):
    """More clients at once than the server keeps connection objects for, coming and going in waves."""
    r = g.r
    s = Script(g, transport, tree, logs)
    for k in range(rounds):
        for i in range(n):
            s.open()
            if i % 10 == 9:
                s.idle()
        s.idle()
        order = list(s.live)
        r.shuffle(order)
        for c in order:
            u, d, ends = s.request(c, keep=True, body=b"x" * r.choice([0, 10]) )
            s.send(c, d, r.choice([0, 0, 1]), 0)
            if r.random() < .2:
                s.idle()
        s.idle()
        r.shuffle(order)
        for c in order[:n if k == rounds - 1 else r.randint(n // 2, n)]:
            s.leave(c, r.choice(["fin", "rst", "half"]))
            if r.random() < .1:
                s.idle()
        s.idle()
    return s.finish()


def everywhere(make, g, n):
    """The same script on every transport."""
    out = []
    for _ in range(n):
        s = make(g, "tcp")
        for t in TRANSPORTS:
            out.append(dict(s, transport=t))
    return out
