"""Script families for the client properties C15-C21."""
import itertools
from gen_client import CGen, head, chunked, gz, IDLE, exchange
from gen_conn import pattern, SIZES
from rle import rle, hdrs

ABORT, FOLLOW, CONSUME = ({"op": o} for o in ("abort", "follow", "consume"))
FIN, RST, MUTE = ({"op": o} for o in ("fin", "rst", "mute"))


def REQ(m=b"GET", t=b"/", h=(), d=b"", s=0, via=0):
    return {"op": "req", "s": s, "m": rle(m), "t": rle(t), "h": hdrs(h), "d": rle(d), "via": via}


def SEND(x, c=-1):
    return {"op": "send", "c": c, "d": rle(x)}


def WAIT(n):
    return {"op": "wait", "n": n}


def sc(ops, servers=("up",), onHeaders=(), onData=(), onFinished=(), **kw):
    return dict({"servers": list(servers), "ops": list(ops), "onHeaders": [list(x) for x in onHeaders], "onData": [list(x) for x in onData],
                 "onFinished": [list(x) for x in onFinished], "codings": []}, **kw)


def mix(r, n):
    """Servers that differ in address, in port, or in both, on default and other ports."""
    return [r.choice(["up", "up", "up80"])] + [r.choice(["up", "up", "sib", "sib", "twin", "up80"]) for _ in range(n - 1)]


def with_idles(ops):
    return [x for o in ops for x in (o, IDLE)]


L = b"Content-Length"
OK2 = head(200, [(L, b"2")]) + b"ok"


def samples():
    """(method, bytes, ended by the close) one of each shape"""
    ch = [(b"Transfer-Encoding", b"chunked")]
    return [
        (b"GET", head(200, [(b"A", b"b"), (L, b"5")]) + b"hello", False),
        (b"GET", head(200, ch) + chunked(b"abcdefghij", [1, 4], b"", [(b"T", b"u"), (b"V", b"")]), False),
        (b"GET", head(200, ch + [(b"X", b"")]) + chunked(b"0123456789abcdefXYZ", [17], b";e=1"), False),
        (b"GET", head(404, [(b"A", b"b")], b"1.1", b"") + b"until the end", True),
        (b"GET", head(200, [(L, b"1"), (b"Connection", b"close")]) + b"x", False),
        (b"GET", head(200, [(L, b"3")], b"1.0") + b"old", False),
        (b"GET", head(200, [(L, b"3"), (b"connection", b"Keep-Alive")], b"1.0") + b"oka", False),
        (b"HEAD", head(200, [(L, b"77")]), False),
        (b"HEAD", head(200, ch), False),
        (b"GET", head(204, []), False),
        (b"GET", head(304, [(L, b"9"), (b"ETag", b"\"x\"")]), False),
        (b"POST", head(100, [(b"I", b"1")]) + head(102, []) + head(201, [(L, b"2")]) + b"ok", False),
        (b"GET", head(302, [(b"Location", b"/r"), (L, b"0")]), False),
        (b"GET", head(200, [(b"Upgrade", b"h2c"), (b"Connection", b"Upgrade"), (L, b"4")]) + b"body", False),
        (b"GET", head(200, [(L, b"00004")]) + b"zero", False),
    ]


def bads():
    ok = head(200, [(b"A", b"b"), (L, b"3")]) + b"abc"
    ch = head(200, [(b"Transfer-Encoding", b"chunked")])
    out = [b"XTTP/1.1 200 OK\r\n\r\n", b"HTTQ/1.1 200 OK\r\n\r\n", b"HTTP 200 OK\r\n\r\n", b"HTTP/x.1 200 OK\r\n\r\n", b"HTTP/1.x 200 OK\r\n\r\n",
           b"HTTP/1.1 abc\r\n\r\n", b"HTTP/1.1 2x0 OK\r\n\r\n", b"<html>", b"\x00\x01\x02", b"GET / HTTP/1.1\r\n\r\n", b"HTTP/1.1200 OK\r\n\r\n"]
    for c in b"\x00\x01\x1f\x7f()<>@,;\\\"/[]?={}\t":
        n = b"B" + bytes([c]) + b"C"
        if c in b"\t ":
            continue
        out.append(b"HTTP/1.1 200 OK\r\nA: b\r\n" + n + b": x\r\n\r\n")
    out += [b"HTTP/1.1 200 OK\r\nNoColon\r\n\r\n", b"HTTP/1.1 200 OK\r\n: v\r\n\r\n", b"HTTP/1.1 200 OK\r\nA: b\rX\r\n\r\n",
            b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 1x\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n"]
    for bad in (b"g\r\n", b"\r\n", b"-1\r\n", b"1\rx", b"1\r\nab\r\n", b"2\r\nab\rx", b"2\r\nabX\r\n", b"1\r\na\r\nz\r\n", b"0\r\nBad Trailer\x01\r\n\r\n", b"0\r\nT@\r\n\r\n",
                b"0\r\n\rX", b"5x\r\nhello\r\n"):
        out += [ch + bad, ch + b"3\r\nxyz\r\n" + bad]
    out += [head(100, []) + b"XTTP/1.1 200 OK\r\n\r\n", head(100, []) + head(102, []) + ch + b"q\r\n"]
    return out


# ---------------------------------------------------------------- C15
def truncations(g, every=1):
    """Every response shape broken off after every byte, then a fresh exchange."""
    out = []
    for m, x, eof in samples():
        for k in range(0, len(x) + 1, every):
            for end in (FIN, RST):
                ops = [REQ(m), IDLE] + ([SEND(x[:k]), IDLE] if k else []) + [end, IDLE]
                nested = g.r.random() < .4
                fin = [REQ(t=b"/again")] if nested else []
                ops += ([] if nested else [REQ(t=b"/again"), IDLE]) + [SEND(OK2), IDLE]
                out.append(sc(ops, onFinished=[fin] if fin else []))
    return out


def malformed(g, cuts=3):
    out = []
    for x in bads():
        for cut in [None] + [g.r.randrange(1, len(x)) for _ in range(cuts)]:
            segs = [x] if cut is None else [x[:cut], x[cut:]]
            nested = g.r.random() < .4
            ops = [REQ(), IDLE] + with_idles([SEND(s) for s in segs])
            ops += ([] if nested else [REQ(t=b"/again"), IDLE]) + [SEND(OK2), IDLE]
            out.append(sc(ops, onFinished=[[REQ(t=b"/again")]] if nested else []))
    return out


def nested(g, n):
    """Calls of every kind thrown into notifications and between events of random exchanges."""
    r = g.r
    out = []

    def call(nsrv):
        k = r.random()
        if k < .4:
            return g.req(r.randrange(nsrv))[0]
        return dict(ABORT) if k < .7 else dict(FOLLOW) if k < .85 else dict(CONSUME)
    for _ in range(n):
        nsrv = r.choice([1, 1, 2])
        servers = ["up"] * nsrv
        if r.random() < .2:
            servers[-1] = "down"
        s = sc([], servers)
        for l in ("onHeaders", "onData", "onFinished"):
            s[l] = [[call(nsrv) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))] for _ in range(r.choice([0, 1, 2, 3]))]
        for _ in range(r.choice([1, 2, 3])):
            o, m = g.req(r.randrange(nsrv))
            s["ops"] += [o, IDLE]
            if r.random() < .15:
                s["ops"] += [call(nsrv), IDLE]
            a = g.response(m, big=r.random() < .2, redirect=r.choice([None, None, b"/red", b"/r?q=1", b"@%d@" % r.randint(1, nsrv), b"http://@%d@/abs" % r.randint(1, nsrv)]))
            segs = g.segments(a["bytes"])
            k = r.randrange(len(segs) + 1)
            for i, x in enumerate(segs):
                if i == k and r.random() < .4:
                    s["ops"] += [r.choice([call(nsrv), dict(FIN), dict(RST)]), IDLE]
                s["ops"] += [SEND(x), IDLE]
            if a["eof"] or r.random() < .1:
                s["ops"] += [dict(FIN), IDLE]
        out.append(s)
    return out


def refused(g):
    out = []
    for nested_ in (0, 1, 2):
        for first in (0, 1):
            for calls in ([], [ABORT], [REQ(t=b"/x", s=1)], [FOLLOW]):
                ops = ([REQ(s=1), IDLE, SEND(OK2), IDLE] if first else []) + [REQ(s=0), IDLE]
                fin = ([[]] if first else []) + [[REQ(t=b"/n%d" % k, s=1) for k in range(nested_)] + list(calls)]
                ops += ([SEND(OK2), IDLE] if nested_ or REQ(t=b"/x", s=1) in calls else []) + [REQ(s=1), IDLE, SEND(OK2), IDLE, REQ(s=0), REQ(s=1), IDLE, REQ(s=1), IDLE, SEND(OK2), IDLE]
                out.append(sc(ops, ("down", "up"), onFinished=fin))
    return out


# ---------------------------------------------------------------- C16
def every_cut(g):
    out = []
    for m, x, eof in samples():
        end = [FIN, IDLE] if eof else []
        second = [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE]
        for k in range(1, len(x)):
            out.append(sc([REQ(m), IDLE, SEND(x[:k]), IDLE, SEND(x[k:]), IDLE] + end + second))
        out.append(sc([REQ(m), IDLE] + with_idles([SEND(x[i:i + 1]) for i in range(len(x))]) + end + second))
        out.append(sc([REQ(m), IDLE, SEND(x)] + end + [IDLE] + second))
    return out


def two_cuts(g, n):
    out = []
    for _ in range(n):
        s = sc([])
        for _ in range(g.r.choice([1, 1, 2, 3])):
            exchange(g, s, mode=g.r.choice(["two", "few", "few", "bytes"]), big=False)
        out.append(s)
    return out


def response_heads(g):
    out = []
    for n in (0, 1, 2, 15, 16, 31, 32, 33, 64, 100, 255, 600):
        for frame in ("len", "chunk"):
            hs = [(b"N%d" % (i % 9), pattern(g.r, g.r.choice([0, 1, 8, 30]))) for i in range(n)]
            b = pattern(g.r, 10)
            x = head(200, hs + [(L, b"10")]) + b if frame == "len" else head(200, [(b"Transfer-Encoding", b"chunked")] + hs) + chunked(b, [3], b"", hs[:n % 40])
            for mode in ("one", "few", "few", "tail"):
                out.append(sc([REQ(), IDLE] + with_idles([SEND(y) for y in g.segments(x, mode)]) + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE]))
    for code in list(range(101, 104)) + list(range(199, 209)) + list(range(225, 228)) + list(range(299, 310)) + list(range(399, 432)) + list(range(499, 512)) + [599, 600, 999]:
        for reason in (b"", b"Reason", b"Several Words: x"):
            body = b"" if code in (101, 204, 304) else b"body"
            if code in (102, 103):
                continue
            x = head(code, [(L, b"%d" % len(body))] if body else [], b"1.1", reason) + body
            out.append(sc([REQ(), IDLE] + with_idles([SEND(y) for y in g.segments(x)]) + ([] if code == 101 else [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE])))
    for k in range(0, 12):            # interim replies, all at once or one by one
        inter = [head(c, [(b"I%d" % i, b"j")] if i % 2 else []) for i, c in enumerate(g.r.choices([100, 102, 103, 199], k=k))]
        for m in (b"GET", b"HEAD", b"POST"):
            fin = head(200, [(L, b"0")]) if m == b"HEAD" else OK2
            for segs in ([b"".join(inter) + fin], inter + [fin], [b"".join(inter), fin], g.segments(b"".join(inter) + fin, "few")):
                out.append(sc([REQ(m, d=b"d" if m == b"POST" else b""), IDLE] + with_idles([SEND(y) for y in segs if y]) + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE]))
    for n in (1, 100, 1000, 7000, 9000, 20000, 70000):     # long values, names, reasons
        x = [head(200, [(b"V", pattern(g.r, n)), (L, b"2")]) + b"ok", head(200, [(b"X" * n, b"v"), (L, b"2")]) + b"ok", head(200, [(L, b"2")], b"1.1", b"r" * n) + b"ok"]
        for y in x:
            if len(y) > 75000:
                continue
            for mode in ("one", "few"):
                out.append(sc([REQ(), IDLE] + with_idles([SEND(z) for z in g.segments(y, mode)]) + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE]))
    return out


def body_sizes(g, big=False):
    out = []
    for n in SIZES + [32000, 131071, 131072, 131073, 262144, 1000003] + ([20 << 20] if big else [3 << 20]):
        body = pattern(g.r, n) if n < 200000 else b"a" * (n // 2) + b"b" * (n - n // 2 - 1) + b"c"
        for frame in ("len", "chunk", "eof"):
            if frame == "len":
                x = head(200, [(L, b"%d" % n)]) + body
            elif frame == "chunk":
                x = head(200, [(b"Transfer-Encoding", b"chunked")]) + chunked(body, [n // 3, n // 2] if n > 4 else [], g.r.choice([b"", b";x"]), (), True)
            else:
                x = head(200, [(b"K", b"v")]) + body
            for mode in (["one", "few", "tail"] if n < 300000 else ["one", "two"]):
                ops = [REQ(), IDLE] + with_idles([SEND(y) for y in g.segments(x, mode)]) + ([FIN, IDLE] if frame == "eof" else [])
                out.append(sc(ops + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE], onData=[[CONSUME]] if g.r.random() < .3 else [], repeat=True))
    return out


# ---------------------------------------------------------------- C17
def reuse(g, n):
    """Sequences of exchanges over several servers with closing answers, timeouts, closes and stray bytes in between."""
    r, out = g.r, []
    for _ in range(n):
        nsrv = r.choice([1, 2, 2, 3])
        s = sc([], mix(g.r, nsrv))
        slow = r.random() < .25
        if slow:
            s["ops"].append({"op": "timeout", "n": r.choice([60, 60, 60, 0])})
        elif r.random() < .3:
            s["ops"].append({"op": "timeout", "n": r.choice([100000, -1])})
        nested_ = r.random() < .3
        for k in range(r.choice([2, 3, 4, 5])):
            srv = r.choice([0, 0, r.randrange(nsrv)])
            exchange(g, s, srv=srv, big=False, code=r.choice([200, 204, 304, 500]), mode=r.choice(["one", "one", "few"]))
            x = r.random()
            if slow and x < .35:
                s["ops"].append(WAIT(95))
            elif x < .45:
                s["ops"] += [dict(FIN), IDLE]
            elif x < .52:
                s["ops"] += [dict(RST), IDLE]
            elif x < .62:
                s["ops"] += [SEND(r.choice([b"x", OK2, head(200, []), b"\r\n"])), IDLE]
            elif x < .68:
                s["ops"] += [dict(ABORT), IDLE]
            elif x < .72:
                s["ops"] += [{"op": "timeout", "n": r.choice([0, 100000, -1])}]
            elif x < .8 and not nested_:
                s["ops"] += [dict(CONSUME), IDLE]
        if nested_:
            s["onFinished"] = [[]] * r.randrange(3) + [[g.req(r.randrange(nsrv))[0]]]
        out.append(s)
    return out


def reuse_table(g):
    """What each kind of first answer, ended at each moment, leaves of the connection."""
    out = []
    after = [[], [FIN, IDLE], [RST, IDLE], [SEND(b"stray"), IDLE], [SEND(OK2), IDLE], [ABORT, IDLE], [CONSUME, IDLE], [{"op": "timeout", "n": 0}], [{"op": "timeout", "n": 100000}]]
    for m, x, eof in samples():
        for aft in after:
            for srv in (0, 1):
                for nest in (False, True):
                    ops = [REQ(m), IDLE, SEND(x), IDLE] + ([FIN, IDLE] if eof else [])
                    second = REQ(t=b"/2", s=srv)
                    if nest:
                        if aft:
                            continue
                        s = sc(ops + [SEND(OK2), IDLE], mix(g.r, 2), onFinished=[[second]])
                    else:
                        s = sc(ops + aft + [second, IDLE, SEND(OK2), IDLE], mix(g.r, 2))
                    s["ops"] += [REQ(t=b"/3", s=0), IDLE, SEND(OK2), IDLE]
                    out.append(s)
        # an answer with junk behind it, in one segment
        if not eof:
            for junk in (b"j", OK2, b"\r\n"):
                for nest in (False, True):
                    out.append(sc([REQ(m), IDLE, SEND(x + junk), IDLE] + ([] if nest else [REQ(t=b"/2"), IDLE]) + [SEND(OK2), IDLE, REQ(t=b"/3"), IDLE, SEND(OK2), IDLE],
                                  onFinished=[[REQ(t=b"/2")]] if nest else []))
    for t in (-1, 0, 60, 100000):
        for w in (0, 95):
            for t2 in (None, -1, 0, 60):
                ops = [{"op": "timeout", "n": t}, REQ(), IDLE, SEND(OK2), IDLE] + ([{"op": "timeout", "n": t2}] if t2 is not None else []) + ([WAIT(w)] if w else [])
                out.append(sc(ops + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE, REQ(t=b"/3"), IDLE, SEND(OK2), IDLE]))
                out.append(sc(ops + [REQ(t=b"/2", s=1), IDLE, SEND(OK2), IDLE, REQ(t=b"/3"), IDLE, SEND(OK2), IDLE], mix(g.r, 2)))
    return out


# ---------------------------------------------------------------- C18
def leftovers(g, n=None):
    """An exchange ended in every way after every byte, then another one of each kind."""
    out = []
    z = gz(b"compressed text, compressed text", 6)
    zh = head(200, [(b"Content-Encoding", b"gzip"), (L, b"%d" % len(z))])
    firsts = [(m, x, ()) for m, x, _ in samples()] + [(b"GET", zh + z, ((z, b"compressed text, compressed text"),)),
              (b"GET", head(200, [(b"Content-Encoding", b"gzip"), (b"Transfer-Encoding", b"chunked")]) + chunked(z, [5, 11]), ((z, b"compressed text, compressed text"),))]
    seconds = [(b"GET", OK2, False), (b"GET", head(200, [(b"Transfer-Encoding", b"chunked")]) + chunked(b"fresh", [2], b"", [(b"Z", b"z")]), False),
               (b"GET", head(200, []) + b"tail", True), (b"HEAD", head(200, [(L, b"5")]), False), (b"GET", head(204, []), False)]
    for m, x, codings in firsts:
        for k in range(0, len(x)):
            for how in ("abort", "fin", "rst", "bad", "abortnested"):
                if how == "bad" and codings:
                    continue
                m2, y, eof = g.r.choice(seconds)
                ops = [REQ(m, d=b"body" if m == b"POST" else b""), IDLE] + ([SEND(x[:k]), IDLE] if k else [])
                nest = g.r.random() < .4
                again = REQ(m2, b"/again")
                onH = []
                if how == "abort":
                    ops += [ABORT, IDLE]
                elif how == "bad":
                    ops += [SEND(b"\r\x00\x00\x00\x00"), IDLE]
                    # where zero bytes are content the exchange goes on: end it
                    ops += [ABORT, IDLE]
                elif how == "abortnested":
                    onH = [[ABORT]]
                    ops += [ABORT, IDLE]
                else:
                    ops += [FIN if how == "fin" else RST, IDLE]
                s = sc(ops + ([] if nest else [again, IDLE]) + with_idles([SEND(q) for q in g.segments(y)]) + ([FIN, IDLE] if eof else []) +
                       [REQ(t=b"/3"), IDLE, SEND(OK2), IDLE], onHeaders=onH, onFinished=[[again]] if nest else [])
                for c in codings:
                    s["codings"].append({"raw": rle(c[0]), "plain": rle(c[1])})
                out.append(s)
    if n and len(out) > n:
        out = g.r.sample(out, n)
    return out


# ---------------------------------------------------------------- C19
def requests(g, n):
    out = []
    targets = [b"", b"/", b"?", b"?a=b", b"/?", b"/a", b"/a/", b"/a//b", b"/a/../b", b"/%20", b"/%2F%2F", b"/a%3Fb", b"/a?b=c&d=e", b"/a?b=c?d", b"/a?%20=%26",
               b"/a#frag", b"/a?q#frag", b"?q#f", b"/~u/-_.!$&'()*+,;=:@", b"/caf%C3%A9", b"/%FF", b"/a?x=/y", b"/" + b"l" * 3000, b"/a?" + b"q=1&" * 600]
    for t in targets:
        for via in (0, 1):
            for m in (b"GET", b"HEAD", b"POST"):
                ok = head(200, [(L, b"2")]) if m == b"HEAD" else OK2
                out.append(sc([REQ(m, t, [(b"A", b"b")], b"data" if m == b"POST" else b"", via=via), IDLE, SEND(ok), IDLE, REQ(m, t, via=via), IDLE, SEND(ok), IDLE]))
    for m in (b"GET", b"get", b"HEAD", b"POST", b"PUT", b"DELETE", b"PATCH", b"OPTIONS", b"X-CUSTOM", b"M" * 200):
        for d in (b"", b"x", b"x" * 4095, b"x" * 4096, b"x" * 4097, b"y" * 8192, b"z" * 16384, b"w" * 70000):
            for via in (0, 1):
                ok = head(200, [(L, b"2")]) if m == b"HEAD" else OK2
                if m == b"get":
                    continue
                out.append(sc([REQ(m, b"/m", [(b"K", b"v"), (b"k", b"")], d, via=via), IDLE, SEND(ok), IDLE, REQ(b"GET", b"/next"), IDLE, SEND(OK2), IDLE]))
    for k in (0, 1, 2, 10, 50, 300):
        for size in (0, 1, 50, 400):
            hs = [(g.token(), pattern(g.r, size)) for _ in range(k)]
            out.append(sc([REQ(b"POST", b"/h", hs, b"dd"), IDLE, SEND(OK2), IDLE, REQ(b"GET", b"/h2", hs[:2]), IDLE, SEND(OK2), IDLE]))
    for _ in range(n):
        nsrv = g.r.choice([1, 2])
        s = sc([], mix(g.r, nsrv))
        for _ in range(g.r.choice([1, 2, 3])):
            exchange(g, s, srv=g.r.randrange(nsrv), mode="one", big=False)
        out.append(s)
    return out


def hosts(g, n):
    """Servers on the default port, on the IPv6 loopback, and mixtures, with redirections between them."""
    r, out = g.r, []
    for kinds in (["up80"], ["up6"], ["up80", "sib"], ["up", "twin", "sib"], ["up80", "up"], ["up6", "up80"], ["up6", "up6", "up"]):
        for _ in range(n):
            s = sc([], kinds)
            for _ in range(r.choice([1, 2, 3])):
                m = r.choice([b"GET", b"POST"])
                to = r.randint(1, len(kinds))
                s["ops"] += [REQ(m, g.target(), [(b"A", b"b")], b"xyz" if m == b"POST" else b"", r.randrange(len(kinds)), r.randrange(2)), IDLE]
                if r.random() < .5:
                    loc = r.choice([b"http://@%d@/x" % to, b"/local", b"http://@%d@" % to, b"http://@%d@?q" % to])
                    s["ops"] += [SEND(head(302, [(b"Location", loc), (L, b"0")])), IDLE, dict(FOLLOW), IDLE]
                s["ops"] += [SEND(OK2), IDLE]
            out.append(s)
    return out


def redirects(g, n):
    """Chains of redirections, absolute and relative to the root, with and without a location, from every call site."""
    r, out = g.r, []
    for _ in range(n):
        nsrv = r.choice([1, 2, 3])
        s = sc([], mix(g.r, nsrv))
        o, m = g.req(0)
        s["ops"] += [o, IDLE]
        inside = r.random() < .4
        hops = r.choice([1, 1, 2, 3, 5])
        for k in range(hops):
            code = r.choice([300, 301, 302, 303, 307, 307, 200, 304, 404])
            loc = r.choice([None, b"/r%d" % k, b"/r%d?x=%%20&y" % k, b"/", b"http://@%d@/abs%d" % (r.randint(1, nsrv), k), b"http://@%d@" % r.randint(1, nsrv),
                            b"http://@%d@/q?z" % r.randint(1, nsrv), b"http://@%d@?only=query" % r.randint(1, nsrv), b"/r#frag"])
            a = g.response(m, code=code, redirect=loc, big=False)
            g.coding(s, a["coding"])
            s["ops"] += g.sends(g.segments(a["bytes"]), -1)
            if a["eof"]:
                s["ops"] += [dict(FIN), IDLE]
            if not inside:
                s["ops"] += [dict(FOLLOW), IDLE]
        if inside:
            s["onFinished"] = [[dict(FOLLOW)]] * hops
        elif r.random() < .2:
            s["onHeaders"] = [[dict(FOLLOW)]] * hops
        s["ops"] += [SEND(head(200, [(L, b"0")])), IDLE]
        out.append(s)
    for code in range(298, 312):
        for loc in (None, b"/there"):
            hs = [(L, b"0")] + ([(b"location", loc)] if loc else [])
            for inside in (False, True):
                out.append(sc([REQ(b"POST", b"/p?q", [(b"A", b"b")], b"body"), IDLE, SEND(head(code, hs)), IDLE] + ([] if inside else [FOLLOW, IDLE]) + [SEND(OK2), IDLE],
                              onFinished=[[FOLLOW]] if inside else []))
    return out


def unread(g):
    """A server that answers before reading a large request body."""
    out = []
    for n in (3 << 20, 10 << 20):
        for nsrv in (1, 2):
            for close in (b"close", None):
                hs = [(L, b"2")] + ([(b"Connection", close)] if close else [])
                out.append(sc([REQ(b"POST", b"/big", [], b"p" * n), IDLE, SEND(head(413, hs) + b"no"), IDLE, REQ(b"GET", b"/n", s=nsrv - 1), IDLE] +
                              ([SEND(OK2), IDLE] if close or nsrv == 2 else []), ["up"] * nsrv, mute=0))
    return out


# ---------------------------------------------------------------- C20
def bounded(g, n):
    r, out = g.r, []
    for _ in range(n):
        lim = r.choice([1, 2, 3, 7, 16, 100, 100, 1000, 1024, 4096, 20000, 65536])
        size = r.choice([0, 1, lim - 1, lim, lim + 1, 2 * lim, 3 * lim + 1, 10 * lim])
        size = min(size, 300000) if lim > 50 else min(size, 60)
        s = sc([{"op": "limit", "n": lim}])
        body = pattern(r, size)
        frame = r.choice(["len", "chunk", "eof"])
        if frame == "len":
            x = head(200, g.headers() + [(L, b"%d" % size)]) + body
        elif frame == "chunk":
            x = head(200, [(b"Transfer-Encoding", b"chunked")]) + chunked(body, [r.randrange(1, size) for _ in range(r.choice([0, 1, 3, 8]))] if size > 1 else [], b"", g.headers(r.choice([0, 1])))
        else:
            x = head(200, g.headers()) + body
        s["ops"] += [REQ(), IDLE]
        segs = g.segments(x, r.choice(["one", "two", "few"]))
        style = r.choice(["eager", "onData", "late", "mixed"])
        for y in segs:
            s["ops"] += [SEND(y), IDLE]
            if style in ("eager", "mixed"):
                s["ops"] += [CONSUME, IDLE] * r.choice([1, 1, 2, 3])
        if frame == "eof":
            s["ops"] += [FIN, IDLE]
        elif r.random() < .3:
            s["ops"] += [dict(FIN), IDLE]
        rounds = (len(x) + lim - 1) // lim + 3
        if style == "onData" or style == "mixed":
            s["onData"] = [[CONSUME]]
            s["repeat"] = True
        s["ops"] += [CONSUME, IDLE] * min(rounds, 80)
        if rounds > 80:
            s["onData"] = [[CONSUME]]
            s["repeat"] = True
            s["ops"] += [CONSUME, IDLE]
        s["ops"] += [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE] + [CONSUME, IDLE] * min(4 + 60 // lim, 45)
        out.append(s)
    return out


# ---------------------------------------------------------------- C21
def compressed(g, big=False):
    r, out = g.r, []
    sizes = [0, 1, 2, 10, 100, 1000, 5000, 32767, 32768, 32769, 65536, 100000, 300000] + ([3000000] if big else [])
    for n in sizes:
        for kind in ("zeros", "text", "random"):
            plain = b"\0" * n if kind == "zeros" else pattern(r, n) if kind == "text" else bytes(r.randrange(256) for _ in range(min(n, 66000)))
            for level in (range(0, 10) if n in (100, 65536) else (0, 1, 6, 9)):
                z = gz(plain, level, "name" if r.random() < .3 else None)
                for frame in (["len", "chunk", "eof"] if level in (0, 6) else [r.choice(["len", "chunk", "eof"])]):
                    hs = [(r.choice([b"Content-Encoding", b"content-encoding", b"CONTENT-ENCODING"]), r.choice([b"gzip", b"Gzip", b"GZIP"]))] + g.headers()
                    if frame == "len":
                        x = head(200, hs + [(L, b"%d" % len(z))]) + z
                    elif frame == "chunk":
                        x = head(200, hs + [(b"Transfer-Encoding", b"chunked")]) + chunked(z, [r.randrange(1, len(z)) for _ in range(r.choice([0, 1, 5]))], b"", [(b"T", b"1")] if r.random() < .3 else [])
                    else:
                        x = head(200, hs) + z
                    s = sc([REQ(), IDLE] + with_idles([SEND(y) for y in g.segments(x, r.choice(["one", "two", "few", "tail"]) if len(x) > 300 else None)]) + ([FIN, IDLE] if frame == "eof" else []))
                    s["codings"].append({"raw": rle(z), "plain": rle(plain)})
                    if r.random() < .3:
                        s["onData"] = [[CONSUME]]
                        s["repeat"] = True
                    s["ops"] += [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE]
                    out.append(s)
    return out


def compressed_cuts(g):
    out = []
    for plain, level in ((b"hello hello hello hello", 6), (b"", 6), (b"q", 0), (b"A" * 100000, 9)):
        z = gz(plain, level)
        for pre in (head(200, [(b"Content-Encoding", b"gzip"), (L, b"%d" % len(z))]),):
            for k in range(len(z) + 1):
                s = sc([REQ(), IDLE] + with_idles([SEND(y) for y in (pre + z[:k], z[k:]) if y]) + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE])
                s["codings"].append({"raw": rle(z), "plain": rle(plain)})
                out.append(s)
            s = sc([REQ(), IDLE, SEND(pre), IDLE] + with_idles([SEND(z[i:i + 1]) for i in range(len(z))]))
            s["codings"].append({"raw": rle(z), "plain": rle(plain)})
            out.append(s)
    return out


def undecodable(g):
    """Bodies announced as compressed that are not, other codings, and what follows them."""
    r, out = g.r, []
    z = gz(b"payload payload payload", 6)
    bodies = [b"plain text", b"x", b"", b"\x1f", b"\x1f\x8b", b"\x1f\x8b\x08", b"\x1f\x8bnot really", b"\x1f\x8c\x08abc", z[:5], z[:10], z[:11], b"<html>" + b"y" * 5000, b"\x1f\x8b\x07" + z[3:], z[:3] + b"\xff" + z[4:],
              z[:10] + b"\xff" * 20, b"\x1e" + z[1:]]
    for b in bodies:
        for enc in (b"gzip", b"identity", b"deflate", b"x-gzip", b"gzipped", b"br", None):
            if enc is None and b.startswith(b"<"):
                continue
            for frame in ("len", "chunk"):
                hs = [(b"Content-Encoding", enc)] if enc else [(b"Content-Type", b"application/gzip")]
                x = head(200, hs + [(L, b"%d" % len(b))]) + b if frame == "len" else head(200, hs + [(b"Transfer-Encoding", b"chunked")]) + chunked(b, range(1, min(len(b), 12)))
                for segs in ([x], g.segments(x, "few"), [x[:i + 1][-1:] for i in range(len(x))] if len(x) < 150 else g.segments(x, "tail")):
                    s = sc([REQ(), IDLE] + with_idles([SEND(y) for y in segs]))
                    x2 = r.choice([OK2, head(200, [(b"Content-Encoding", b"gzip"), (L, b"%d" % len(z))]) + z])
                    s["ops"] += [REQ(t=b"/2"), IDLE, SEND(x2), IDLE]
                    if x2 is not OK2:
                        s["codings"].append({"raw": rle(z), "plain": rle(b"payload payload payload")})
                    if enc != b"gzip":
                        s["codings"] = []
                        if x2 is not OK2:
                            s["codings"].append({"raw": rle(z), "plain": rle(b"payload payload payload")})
                    out.append(s)
    # padding behind the compressed stream
    for plain, pad in itertools.product((b"payload payload payload", b"", b"z" * 100000), (1, 4, 100, 20000)):
        y = gz(plain, 6) + b"\0" * pad
        for frame in ("len", "chunk"):
            x = head(200, [(b"Content-Encoding", b"gzip")] + [(L, b"%d" % len(y))]) + y if frame == "len" else \
                head(200, [(b"Content-Encoding", b"gzip"), (b"Transfer-Encoding", b"chunked")]) + chunked(y, [10, 20, 30])
            for segs in ([x], g.segments(x, "few"), g.segments(x, "tail")):
                s = sc([REQ(), IDLE] + with_idles([SEND(q) for q in segs]) + [REQ(t=b"/2"), IDLE, SEND(OK2), IDLE])
                s["codings"].append({"raw": rle(y), "plain": rle(plain)})
                out.append(s)
    # two compressed ones in a row, one broken off
    for k in range(len(z)):
        h = head(200, [(b"Content-Encoding", b"gzip"), (L, b"%d" % len(z))])
        for how in (ABORT, FIN, RST):
            for y in (OK2, h + z):
                s = sc([REQ(), IDLE, SEND(h + z[:k]), IDLE, how, IDLE, REQ(t=b"/2"), IDLE, SEND(y), IDLE])
                s["codings"].append({"raw": rle(z), "plain": rle(b"payload payload payload")})
                out.append(s)
    return out


def mixed(g, n, gz=.2, **kw):
    out = []
    for _ in range(n):
        nsrv = g.r.choice([1, 1, 2])
        s = sc([], mix(g.r, nsrv))
        for _ in range(g.r.choice([1, 2, 3, 4])):
            exchange(g, s, srv=g.r.randrange(nsrv), gzipped=g.r.random() < gz, **kw)
        out.append(s)
    return out
