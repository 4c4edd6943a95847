"""Script families for the connection properties C01-C10."""
import itertools
from gen_conn import Gen, pattern, SIZES
from rle import rle, hdrs

R = lambda s, h=(), c=b"": dict(op="wr", s=s, h=hdrs(h), c=rle(c))
WH = lambda s, h=(): dict(op="wh", s=s, h=hdrs(h))
WC = lambda c: dict(op="wc", c=rle(c))
EC, FLUSH, CLOSE, IDLE, PEER, FIELDS = (dict(op=o) for o in ("ec", "flush", "close", "idle", "peer", "fields"))
FEED = lambda d: dict(op="feed", d=rle(d))
DRAIN = lambda n: dict(op="drain", n=n)
ALL = DRAIN(1000000000)


def INIT(hold=False, split=False, pre=None):
    o = dict(op="init", hold=hold, split=split)
    if pre is not None:
        o["pre"] = rle(pre)
    return o


def script(ops, onReady=((),), onCompleted=((),), onClosed=((),)):
    return {"ops": list(ops), "onReady": [list(x) for x in onReady], "onCompleted": [list(x) for x in onCompleted],
            "onClosed": [list(x) for x in onClosed]}


def head(method=b"GET", uri=b"/", version=b"HTTP/1.1", hs=()):
    return method + b" " + uri + b" " + version + b"\r\n" + b"".join(n + b": " + v + b"\r\n" for n, v in hs) + b"\r\n"


def req(method=b"GET", uri=b"/", version=b"HTTP/1.1", hs=(), body=None):
    hs = list(hs)
    if body is not None:
        hs.append((b"Content-Length", b"%d" % len(body)))
    return head(method, uri, version, hs) + (body or b"")


OK = [R(200, [(b"X-S", b"1")], b"ok")]


# ---------------------------------------------------------------- C01
def every_cut(g):
    """Fixed streams, cut once at every byte, and fed byte by byte."""
    streams = [
        req(uri=b"/a;p/b?x=1&y#fr", hs=[(b"Host", b"h"), (b"A", b""), (b"a", b" v v ")]) + req(b"HEAD", b"*", hs=[(b"Connection", b"x")]),
        req(b"POST", b"/p", hs=[(b"K", b"v")], body=b"hello\r\n\r\nGET") + req(b"PUT", b"/q?", b"HTTP/1.1", [], b"") + req(),
        req(b"OPTIONS", b"http://h:1/p", hs=[(b"Expect", b"100-continue")], body=b"xyz") + req(b"DELETE", b"/%41%2f"),
    ]
    out = []
    for st in streams:
        for k in range(1, len(st)):
            sync = k % 2
            out.append(script([INIT(), FEED(st[:k]), IDLE, FEED(st[k:]), IDLE] + ([] if sync else [FIELDS, OK[0], IDLE] * 3),
                              [OK if sync else []], [[FIELDS]]))
        out.append(script([INIT()] + [FEED(st[i:i + 1]) for i in range(len(st))], [OK], [[FIELDS]]))
        out.append(script([INIT()] + [o for i in range(len(st)) for o in (FEED(st[i:i + 1]), FIELDS, IDLE)] + [OK[0], IDLE] * 3))
        out.append(script([INIT(pre=st)], [OK], [[FIELDS]]))
        out.append(script([INIT(pre=st[:40]), FEED(st[40:])], [OK], [[FIELDS]]))
    return out


def two_cuts(g, n):
    out = []
    for _ in range(n):
        st = b"".join(g.request(small=True) for _ in range(g.r.choice([2, 3, 4])))
        out.append(script([INIT(split=g.r.random() < .3)] + g.feed(st, 2), [OK], [[FIELDS]]))
    return out


def many_headers(g):
    out = []
    for n in [0, 1, 2, 15, 16, 30, 31, 32, 33, 34, 48, 63, 64, 65, 100, 127, 128, 129, 500, 1200]:
        for body in (None, b"", b"b", pattern(g.r, 3000), pattern(g.r, 70000)):
            hs = [(b"N%d" % (i % 50), b"v%d" % i) for i in range(n)]
            st = req(b"POST", b"/h?q=%d" % n, hs=hs, body=body)
            st2 = req(b"GET", b"/second", hs=hs[:3])
            if len(head(hs=hs)) > 30000:
                continue
            for cut in (None, 5, len(st) // 2, len(st) - 1):
                ops = [INIT()] + ([FEED(st + st2)] if cut is None else [FEED(st[:cut]), IDLE, FEED(st[cut:] + st2)])
                out.append(script(ops, [[FIELDS] + OK], [[FIELDS]]))
    return out


def body_sizes(g, big=False):
    out = []
    sizes = SIZES + [32600, 32700, 33000, 262144, 1000003] + ([8 << 20, 60 << 20, 134217727, 134217728] if big else [5 << 20])
    for n in sizes:
        body = pattern(g.r, n) if n < 300000 else b"a" * (n // 2) + b"b" * (n - n // 2 - 1) + b"c"
        st = req(b"POST", b"/body?n=%d" % n, hs=[(b"A", b"1"), (b"B", b"2")], body=body)
        tail = req(b"GET", b"/after") + req(b"POST", b"/x", body=b"12")
        h = len(st) - n
        for cuts in ([], [h], [h + n // 2], [h - 1], [len(st) - 1], [10, h + 1], [len(st) + 5]):
            data = st + tail
            ps = [0] + sorted(c for c in cuts if 0 < c < len(data)) + [len(data)]
            if n > 2000000 and len(cuts) != 1:
                continue
            ops = [INIT()]
            for a, b in zip(ps, ps[1:]):
                ops += [FEED(data[a:b])]
            out.append(script(ops, [[FIELDS] + OK], [[FIELDS]]))
    return out


def deep_pipeline(n):
    return [script([INIT(), FEED(b"GET / HTTP/1.1\r\n\r\n" * n)], [[R(200, (), b"x")]]),
            script([INIT(), FEED(b"HEAD /a HTTP/1.1\r\n\r\n" * (n // 2) + b"PUT / HTTP/1.1\r\nContent-Length: 2\r\n\r\nzz" * (n // 4))],
                   [[WH(200, [(b"Transfer-Encoding", b"chunked")]), WC(b"a"), EC]])]


# ---------------------------------------------------------------- C02
def endings(g, n):
    """Well-behaved scenarios into which closings and calls are thrown at random places."""
    out = []
    for _ in range(n):
        sc = g.scenario(big=False)
        for _ in range(g.r.choice([1, 1, 2])):
            where = g.r.choice(["ops", "onReady", "onReady", "onCompleted", "onCompleted", "onClosed"])
            what = [g.r.choice([CLOSE, CLOSE, CLOSE, R(200, (), b"zz"), WC(b"q"), EC])]
            if where == "ops":
                what = [g.r.choice([CLOSE, PEER, PEER])]
                sc["ops"].insert(g.r.randint(1, len(sc["ops"])), what[0])
            else:
                l = sc[where]
                if not l:
                    l.append([])
                k = g.r.randrange(len(l))
                l[k] = list(l[k])
                at = g.r.randint(0, len(l[k]))
                l[k][at:at] = what
        if g.r.random() < .5:      # another life
            more = g.scenario(nreq=g.r.choice([1, 2]), sync=True)
            sc["ops"] += [g.r.choice([PEER, CLOSE, IDLE]), CLOSE] + more["ops"]
        out.append(sc)
    return out


# ---------------------------------------------------------------- C03
def response_sizes(g):
    out = []
    ns = [0, 1, 2, 9, 10, 15, 16, 17, 99, 100, 255, 256, 257, 999, 1000, 4095, 4096, 4097, 9999, 65535, 65536, 65537, 1048576]
    for n in ns:
        body = pattern(g.r, n) if n < 100000 else b"a" * (n - 1) + b"b"
        for m in (b"GET", b"HEAD"):
            st = req(m, b"/") + req(b"GET", b"/2")
            variants = [
                [R(200, (), body)],
                [dict(op="ws", s=201, h=[], c=rle(body))],
                [WH(200, [(b"Content-Length", b"%d" % n)])] + ([WC(body)] if n else []),
                [WH(200, [(b"Content-Length", b"%d" % n)]), WC(body[:n // 2]), WC(body[n // 2:])],
                [WH(200, [(b"transfer-encoding", b"chunked")]), WC(body), EC],
                [WH(200, [(b"Transfer-Encoding", b"Chunked")]), WC(body[:1]), WC(b""), WC(body[1:]), EC],
                [WH(200), WC(body), EC],
                # beyond the announced length, or short of it
                [WH(200, [(b"Content-Length", b"%d" % n)]), WC(body + b"!"), WC(body), WC(b"!")],
                [WH(200, [(b"Content-Length", b"%d" % (n + 3))]), WC(body), WC(b"abcd"), WC(b"abc")],
                [R(200, [(b"Content-Length", b"%d" % (n + 2))], body), WC(b"xy")],
                [R(200, [(b"Content-Length", b"%d" % max(0, n - 1))], body), WC(b"z"), FLUSH],
            ]
            for i, v in enumerate(variants):
                out.append(script([INIT(), FEED(st)], [v, OK]))
                if n in (0, 1, 17, 4097):
                    out.append(script([INIT(), FEED(st)] + v + [IDLE] + OK, [[]]))
    return out


def response_heads(g):
    out = []
    for code in list(range(99, 104)) + list(range(199, 209)) + list(range(299, 310)) + list(range(399, 420)) + list(range(499, 508)) + [-1, 0, 600, 1000, 20, 2000000]:
        if code in (100, 101, 204, 304):
            v = [R(code)]
        else:
            v = [R(code, [(b"A", b"b")], b"body")]
        for ver in (b"HTTP/1.1", b"HTTP/1.0"):
            out.append(script([INIT(), FEED(req(version=ver) + req())], [v, OK]))
    sizes = [0, 1, 500, 900, 950, 980, 1000, 1010, 1020, 1024, 1030, 2000, 4000, 4050, 4090, 4096, 4100, 8200, 70000]
    for n in sizes:
        for k in (1, 3, 40):
            hs = [(b"H%d" % (i % 7), pattern(g.r, n // k)) for i in range(k)]
            out.append(script([INIT(), FEED(req() + req() + req())], [[R(200, hs, b"one")], [R(200, hs[:1], b"two")], OK]))
    for n in (0, 1, 10, 100, 300):
        hs = [(b"Set-Cookie", b"c%d" % i) for i in range(n)]
        out.append(script([INIT(), FEED(req() + req())], [[R(200, hs, b"x")], OK]))
    special = [(b"Content-Type", b"text/html"), (b"content-type", b"a/b"), (b"CONTENT-LENGTH", b"2"), (b"Content-Length", b"bogus"), (b"Content-Length", b""),
               (b"Connection", b"close"), (b"connection", b"Keep-Alive"), (b"Transfer-Encoding", b"chunked"), (b"transfer-encoding", b"gzip"),
               (b"Content-Length", b"-3"), (b"Content-Length", b"000000002"), (b"Date", b"today"), (b"X", b"")]
    for k in (1, 2, 3):
        combos = list(itertools.permutations(special, k))
        if k == 3:
            combos = g.r.sample(combos, 250)
        for hs in combos:
            m, ver = g.r.choice([b"GET", b"GET", b"HEAD"]), g.r.choice([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0"])
            out.append(script([INIT(), FEED(req(m, version=ver) + req())], [[R(200, hs, b"ab"), WC(b"ab"), EC], OK]))
            out.append(script([INIT(), FEED(req(m, version=ver) + req())], [[WH(200, hs), WC(b"a"), WC(b"b"), EC], OK]))
    for big in (b"2147483647", b"2147483648", b"3000000000", b"4294967296", b"4294967300", b"9999999999", b"1099511627776", b"9223372036854775807"):
        for m in (b"HEAD", b"GET"):
            out.append(script([INIT(), FEED(req(m) + req())], [[WH(200, [(b"Content-Length", big)]), WC(b"some")], OK]))
    return out


# ---------------------------------------------------------------- C04
def keepalive_table(g):
    out = []
    versions = [b"HTTP/1.1", b"HTTP/1.0", b"HTTP/1.2", b"HTTP/0.9"]
    conns = [[], [b"close"], [b"Close"], [b"keep-alive"], [b"Keep-Alive"], [b"upgrade"], [b"close", b"keep-alive"], [b""]]
    rconns = [[], [b"close"], [b"CLOSE"], [b"keep-alive"], [b"whatever"]]
    styles = ["wr", "wr0", "len", "chunk", "Chunked", "lenchunk", "gzip", "open", "len0", "badlen"]
    for v, cn, rc, st in itertools.product(versions, conns, rconns, styles):
        for m in (b"GET", b"HEAD", b"POST"):
            hs = [(b"Connection", x) for x in rc]
            if st == "wr":
                resp = [R(200, hs, b"abc")]
            elif st == "wr0":
                resp = [R(200, hs)]
            elif st == "len":
                resp = [WH(200, hs + [(b"Content-Length", b"3")]), WC(b"abc")]
            elif st == "len0":
                resp = [WH(200, [(b"Content-Length", b"0")] + hs)]
            elif st == "badlen":
                resp = [WH(200, [(b"Content-Length", b"x3")] + hs), WC(b"abc"), EC]
            elif st in ("chunk", "Chunked", "gzip"):
                resp = [WH(200, hs + [(b"Transfer-Encoding", {"chunk": b"chunked"}.get(st, st.encode()))]), WC(b"abc"), EC]
            elif st == "lenchunk":
                resp = [WH(200, hs + [(b"Transfer-Encoding", b"chunked"), (b"Content-Length", b"3")]), WC(b"abc")]
            else:
                resp = [WH(200, hs), WC(b"abc"), EC]
            st1 = req(m, b"/", v, [(b"Connection", x) for x in cn], b"q" if m == b"POST" else None)
            pos = g.r.choice([0, 0, 1])
            first = req(b"GET", b"/first") if pos else b""
            sync = g.r.random() < .6
            if sync:
                out.append(script([INIT(), FEED(first + st1), IDLE, FEED(req(b"GET", b"/next"))], ([OK] if pos else []) + [resp, OK]))
            else:
                out.append(script([INIT(), FEED(first + st1 + req(b"GET", b"/next"))] + (OK if pos else []) + resp + [IDLE] + OK))
    return out


# ---------------------------------------------------------------- C05
def drains(g, n):
    out = []
    for _ in range(n):
        r = g.r
        kind = r.choice(["old", "closehdr", "appclose", "open", "bad", "toolarge", "second"])
        body = pattern(r, g.size())
        resp = [R(200, (), body)]
        if kind == "old":
            st = req(version=b"HTTP/1.0")
        elif kind == "closehdr":
            st = req(hs=[(b"Connection", b"close")])
        elif kind == "appclose":
            st, resp = req(), [R(200, [(b"Connection", b"close")], body)]
        elif kind == "open":
            st, resp = req(), [WH(200)] + [WC(p) for p in g.pieces(body)] + [EC]
        elif kind == "bad":
            st = r.choice([b"G(T", b"GET / HTTP/1.1\r\nContent-Length: -4\r\n\r\n"])
        elif kind == "toolarge":
            st = b"POST / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n"
        else:
            st, resp = req() + req(version=b"HTTP/1.0"), None
        ops = [INIT(hold=True, split=r.random() < .4), FEED(st)]
        sync = r.random() < .5
        ready = [resp] if resp else [[R(200, (), pattern(r, g.size()))], [R(200, (), body)]]
        if not sync:
            for x in ready:
                ops += [IDLE] + x
        if r.random() < .3:
            ops.append(FEED(req()))                    # more requests on a closing connection
        total = len(body) + 300
        for _ in range(r.choice([0, 1, 2, 5, 9])):
            ops.append(DRAIN(r.choice([1, 2, 50, 100, total // 2 or 1, total])))
            if r.random() < .5:
                ops.append(IDLE)
            if r.random() < .1:
                ops.append(r.choice([FLUSH, R(200, (), b"zz"), WC(b"x"), EC, FEED(b"x")]))
        ops.append(r.choice([ALL, ALL, ALL, ALL, CLOSE, PEER]))
        ops += [IDLE, ALL, IDLE]
        if r.random() < .3:
            ops += [INIT(hold=True), FEED(req(version=b"HTTP/1.0")), IDLE] + ([] if sync else [R(200, (), b"again")]) + [DRAIN(1), IDLE, ALL, IDLE]
        out.append(script(ops, ready if sync else [[]]))
    return out


# ---------------------------------------------------------------- C06
def grammar_scripts(table, g, n=None):
    """Every (automaton state, byte): shortest way there, the byte, and a shortest way to an end."""
    delta = {q: row for q, row in table.items()}
    back = {"done": b""}
    prefer = b"GEThp/ aAxX1.:\r\n"

    def pick(q):
        return sorted(range(256), key=lambda b: (prefer.find(bytes([b])) if bytes([b]) in prefer else 99, b))
    # shortest suffix to done
    fwd = {"start": b""}
    todo = ["start"]
    while todo:
        q = todo.pop(0)
        for b in pick(q):
            r = delta[q][b]
            if r not in fwd and r != "bad":
                fwd[r] = fwd[q] + bytes([b])
                todo.append(r)
    rev = {}
    for q in delta:
        for b in pick(q):
            rev.setdefault(delta[q][b], []).append((q, b))
    todo = ["done"]
    while todo:
        q = todo.pop(0)
        for p, b in rev.get(q, []):
            if p not in back and p not in ("done", "bad"):
                back[p] = bytes([b]) + back[q]
                todo.append(p)
    pairs = [(q, b) for q in delta if q not in ("done", "bad") for b in range(256)]
    if n and n < len(pairs):
        pairs = g.r.sample(pairs, n)
    out = []
    for q, b in pairs:
        r = delta[q][b]
        data = fwd[q] + bytes([b]) + back.get(r, b"X / HTTP/1.1\r\n\r\n")
        if b"\r\n" in fwd[q]:           # keep a body-length header from being formed by chance
            pass
        how = g.r.choice(["one", "cut", "bytes", "behind"])
        ops = [INIT()]
        if how == "one":
            ops += [FEED(data)]
        elif how == "cut":
            k = len(fwd[q])
            ops += [FEED(data[:k])] * (k > 0) + [IDLE, FEED(data[k:k + 1]), IDLE] + ([FEED(data[k + 1:])] if data[k + 1:] else [])
        elif how == "bytes":
            ops += [FEED(data[i:i + 1]) for i in range(len(data))]
        else:
            ops += [FEED(req() + data)]
        ops += [FEED(req(uri=b"/z"))]
        out.append(script(ops, [[FIELDS] + OK]))
    return out


def limits(g):
    out = []
    for total in (32000, 32766, 32767, 32769, 32770, 33000, 40000, 70000):
        for shape in ("uri", "value", "many", "name", "method"):
            if shape == "uri":
                h = head(uri=b"/" + b"u" * (total - len(head(uri=b"/"))))
            elif shape == "value":
                h = head(hs=[(b"A", b"v" * (total - len(head(hs=[(b"A", b"")]))))])
            elif shape == "name":
                h = head(hs=[(b"n" * (total - len(head(hs=[(b"", b"v")]))), b"v")])
            elif shape == "many":
                k = (total - len(head())) // 8
                h = head(hs=[(b"N%d" % (i % 10), b"v") for i in range(k)])
                h = head(hs=[(b"N%d" % (i % 10), b"v") for i in range(k - 1)] + [(b"M", b"w" * (total - len(h) + 1 + 7 - 6 - 0))])
                h = h if len(h) != 32768 else head(hs=[(b"L", b"x")])
            else:
                h = head(method=b"M" * 21) if total < 32769 else head(method=b"M" * 20)
            if len(h) == 32768:
                continue
            for cut in (None, 100, 20000, len(h) - 2):
                if cut is not None and not 0 < cut < len(h):
                    continue
                data = h + req(uri=b"/n")
                out.append(script([INIT(), *([FEED(data)] if cut is None else [FEED(data[:cut]), IDLE, FEED(data[cut:])])], [[FIELDS] + OK]))
            # never ending head
            if total > 32768 and shape != "method":
                out.append(script([INIT(), FEED(h[:-3])], [OK]))
    vals = [b"0", b"00", b"5", b"0005", b"-0", b"-1", b"-5", b"-99999999", b"134217728", b"134217729", b"2147483647", b"2147483648", b"4294967296",
            b"4294967301", b"99999999999999999999", b"", b"x", b"5x", b"x5", b"0x5", b"5,5", b"1e1", b"5.0", b"--5", b"five"]
    for v in vals:
        for name in (b"Content-Length", b"content-LENGTH"):
            for extra in ([], [(b"Expect", b"100-continue")], [(b"Content-Lengt", b"3"), (b"Content-Length2", b"7"), (b"XContent-Length", b"9")]):
                h = head(b"POST", hs=extra + [(name, v)])
                for n in (0, 5, 12):
                    out.append(script([INIT(), FEED(h + b"GET / HTTP/1"[:n])], [[FIELDS] + OK]))
                out.append(script([INIT(), FEED(h), IDLE, FEED(b"12345"), IDLE, FEED(req())], [[FIELDS] + OK]))
    for a, b in itertools.product([b"3", b"0", b"-1", b"x", b"99999999999"], repeat=2):
        out.append(script([INIT(), FEED(head(b"POST", hs=[(b"Content-Length", a), (b"A", b"1"), (b"content-length", b)]) + b"abc" + req())], [[FIELDS] + OK]))
    return out


def mutants(g, n):
    """Well-formed streams with a few bytes changed, dropped or inserted."""
    out = []
    while len(out) < n:
        st = bytearray(b"".join(g.request(small=True, expect=False) for _ in range(g.r.choice([1, 2]))))
        for _ in range(g.r.choice([1, 1, 2])):
            k = g.r.randrange(len(st))
            x = g.r.random()
            if x < .4:
                st[k] = g.r.choice(b"\r\n :%?#\0\x7f\x80\xffA0/()") if g.r.random() < .7 else g.r.randrange(256)
            elif x < .6:
                del st[k]
            else:
                st.insert(k, g.r.choice(b"\r\n :%?#\0\x7f\x80A0/"))
        s = bytes(st)
        low = s.lower()
        import re
        if any(re.search(rb"[^0-9-]", v) for v in re.findall(rb"content-length: *([^\r]*)", low)):
            continue            # odd spellings of numbers are covered by the limits family
        out.append(script([INIT()] + g.feed(s), [[FIELDS] + OK]))
    return out


# ---------------------------------------------------------------- C07
def expectations(g):
    out = []
    vals = [b"100-continue", b"100-Continue", b"100-CONTINUE", b"100-continu", b"100-continuee", b"100 continue", b"", b"continue", b"200-ok"]
    for name, v, n, ver, where in itertools.product([b"Expect", b"expect", b"EXPECT", b"Expec", b"Expects"], vals, [None, 0, 1, 5, 40000],
                                                    [b"HTTP/1.1", b"HTTP/1.0"], [0, 1]):
        body = None if n is None else pattern(g.r, n)
        hs = [(name, v), (b"Host", b"h")] if where else [(b"Host", b"h"), (b"B", b"c"), (name, v)]
        st = req(b"PUT", b"/", ver, hs, body)
        h = len(st) - (n or 0)
        k = g.r.choice([0, 0, 1, 2, 3])
        pre = req() if g.r.random() < .4 else b""
        ops = [INIT(split=g.r.random() < .3)]
        if k == 0:
            ops += [FEED(pre + st)]
        elif k == 1:
            ops += [FEED(pre + st[:h]), IDLE] + ([FEED(st[h:])] if st[h:] else [])
        elif k == 2:
            ops += [FEED(pre + st[:h - 1]), IDLE, FEED(st[h - 1:])]
        else:
            ops += [FEED(pre + st[:h])] + [o for i in range(h, min(len(st), h + 3)) for o in (FEED(st[i:i + 1]), IDLE)] + ([FEED(st[h + 3:])] if st[h + 3:] else [])
        out.append(script(ops + [IDLE, FEED(req())], [[FIELDS] + OK]))
    out.append(script([INIT(), FEED(head(b"PUT", hs=[(b"Expect", b"foo"), (b"Expect", b"100-continue"), (b"Content-Length", b"1")]) + b"x")], [OK]))
    out.append(script([INIT(), FEED(head(b"PUT", hs=[(b"Expect", b"100-continue"), (b"Expect", b"foo"), (b"Content-Length", b"1")]) + b"x")], [OK]))
    out.append(script([INIT(), FEED(head(b"PUT", hs=[(b"Expect", b"100-continue"), (b"Content-Length", b"-7")]) + b"x")], [OK]))
    out.append(script([INIT(), FEED(head(b"PUT", hs=[(b"Expect", b"100-continue"), (b"Content-Length", b"999999999999")]) + b"x")], [OK]))
    return out


# ---------------------------------------------------------------- C08
def second_lives(g, n):
    """A first connection that ends anywhere, then a perfectly ordinary second one (and third)."""
    out = []
    r = g.r
    for _ in range(n):
        big = r.random() < .3
        st = b"".join(g.request(small=not big, expect=r.random() < .2) for _ in range(r.choice([1, 2, 3])))
        x = r.random()
        if x < .15:
            st += b"BAD(REQUEST\r\n"
        elif x < .3:
            st += head(b"PUT", hs=[(b"Content-Length", b"500"), (b"P", b"q")]) + b"partial"
        k = r.randint(0, len(st)) if r.random() < .7 else len(st)
        hold = r.random() < .4
        ops = [INIT(hold=hold, split=r.random() < .3)] + g.feed(st[:k], r.choice([0, 0, 1, 2]))
        ready = [r.choice([[], [], [R(200, (), b"done")], [WH(200, [(b"Content-Length", b"10")]), WC(b"part")],
                           [WH(200, [(b"Transfer-Encoding", b"chunked")]), WC(b"part")], [WH(200), WC(b"open")],
                           [dict(op="setparam", k=rle(b"left"), v=rle(b"over")), dict(op="params")],
                           [dict(op="params"), dict(op="decoded")], [R(200, [(b"Connection", b"close")], b"bye")]])
                 for _ in range(3)]
        comp = [r.choice([[], [], [], [CLOSE], [dict(op="setparam", k=rle(b"c"), v=rle(b"d"))]]) for _ in range(2)]
        if r.random() < .3:
            ops += [IDLE, R(200, g_h(g), pattern(r, g.size(False)))]
        if hold and r.random() < .5:
            ops.append(DRAIN(r.choice([1, 20])))
        ops += [r.choice([CLOSE, PEER, CLOSE, ALL]), IDLE, CLOSE]
        for _ in range(r.choice([0, 0, 0, 1, 2])):      # lives in which hardly anything happens
            ops += [INIT(hold=False, split=r.random() < .3)] + r.choice([[], [IDLE], [FEED(b"GE"), IDLE]]) + [r.choice([CLOSE, PEER, CLOSE]), IDLE]
        # the second life answers outside the notifications, so its handlers' lists do not matter
        for _ in range(r.choice([1, 1, 2])):
            st2 = b"".join(g.request(small=True, uri=r.choice([b"/", b"/second?a=1&b=2", b"/s", b"/?x"])) for _ in range(r.choice([1, 2])))
            hold2 = r.random() < .2
            ops += [INIT(hold=hold2, split=r.random() < .3, pre=None if r.random() < .7 else st2[:7])]
            rest = st2 if "pre" not in ops[-1] else st2[7:]
            ops += g.feed(rest, r.choice([0, 1])) + [IDLE]
            for _ in range(2):
                ops += [dict(op="params"), FIELDS, dict(op="decoded"), dict(op="param", k=rle(b"a")), r.choice([R(200, (), b"second life"), R(200), WH(200, [(b"Content-Length", b"0")])]), EC, IDLE]
            ops += [ALL, IDLE, CLOSE]
        out.append(script(ops, ready + [[]], comp + [[]]))
    return out


def g_h(g):
    return [(b"X-First", b"life")]


# ---------------------------------------------------------------- C09
def misplaced(g, n):
    """Valid scenarios with calls thrown in where they do not apply."""
    out = []
    calls = lambda: g.r.choice([R(200, [(b"Bad", b"1")], b"BAD"), dict(op="ws", s=500, h=[], c=rle(b"BAD")), WH(200, [(b"Content-Length", b"9")]), WH(404), WC(b"BAD"), WC(b""),
                                WC(b"B" * 70000), EC, FLUSH, EC])
    for _ in range(n):
        sc = g.scenario(big=False)
        for _ in range(g.r.choice([1, 2, 4])):
            where = g.r.choice(["ops", "ops", "onReady", "onCompleted", "onClosed"])
            if where == "ops":
                sc["ops"].insert(g.r.randint(1, len(sc["ops"])), calls())
            else:
                l = sc[where]
                if not l:
                    l.append([])
                k = g.r.randrange(len(l))
                l[k] = list(l[k])
                l[k].insert(g.r.randint(0, len(l[k])), calls())
        if g.r.random() < .3:
            sc["ops"] += [CLOSE, calls(), calls(), IDLE, CLOSE] + g.scenario(nreq=1, sync=True)["ops"]
        out.append(sc)
    return out


# ---------------------------------------------------------------- C10
def esc(b, r):
    return b"%%%02x" % b if r.random() < .5 else b"%%%02X" % b


def parameters(g, n):
    out = []
    r = g.r

    def text(k):
        s = b""
        while len(s) < k:
            x = r.random()
            if x < .3:
                s += esc(r.randrange(32, 127), r)
            elif x < .36:
                s += b"".join(esc(b, r) for b in r.choice(["é", "€", "𝄞", "ü"]).encode())
            elif x < .4:
                s += r.choice(["é", "€"]).encode()
            elif x < .45:
                s += esc(r.choice([1, 9, 10, 13, 127, 37, 38, 61, 43]), r)
            else:
                s += bytes([r.choice(b"abcABC019-_.~!*'(),+$:@/;")])
        return s
    for i in range(n):
        k = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 18, 40])
        pairs = []
        for _ in range(k):
            key = r.choice([b"k", b"K", b"key", b"Key", b"", b"%6b", b"%6B"]) if r.random() < .6 else text(r.choice([1, 3, 8]))
            x = r.random()
            pairs.append(key if x < .15 else key + b"=" + (b"" if x < .3 else text(r.choice([1, 2, 5, 20])) + (b"=x" if r.random() < .1 else b"")))
        q = b"&".join(pairs)
        if r.random() < .15:
            q += r.choice([b"&", b"&&", b"&=", b"&=v", b"="])
        if r.random() < .1:
            q += b"&long=" + text(r.choice([1000, 1020, 1023, 1024, 1025, 1026, 1030, 2048, 5000]))
        path = b"/" + text(r.choice([0, 1, 5, 20]))
        if r.random() < .15:
            path = b"/" + b"a" * r.choice([1015, 1019, 1020, 1021, 1022, 1023, 1024, 2047]) + esc(65, r) + b"z" * r.choice([0, 1, 2, 1024])
        uri = path + (b"?" + q if q else b"") + (b"#" + text(r.choice([1, 4])) if r.random() < .3 else b"")
        names = [b"k", b"key", b"KEY", b"", b"nope", "é".encode(), b"long"]
        ops = []
        for _ in range(r.choice([1, 3, 6])):
            x = r.random()
            if x < .3:
                ops.append(dict(op="params"))
            elif x < .6:
                ops.append(dict(op="param", k=rle(r.choice(names))))
            elif x < .85:
                ops.append(dict(op="setparam", k=rle(r.choice(names)), v=rle(r.choice([b"", b"v1", "ü&=%41".encode()]))))
            else:
                ops.append(dict(op="decoded"))
        ops += [dict(op="params"), dict(op="decoded"), FIELDS]
        st = req(r.choice([b"GET", b"POST"]), uri) + req(b"GET", b"/next" + r.choice([b"", b"?k=other", b"?z"]))
        tail = [dict(op="params"), dict(op="param", k=rle(b"k")), dict(op="decoded")]
        if r.random() < .6:
            out.append(script([INIT(), FEED(st)], [ops + OK + [], tail + OK], [[dict(op="params")], []]))
        else:
            out.append(script([INIT(), FEED(st)] + ops + OK + [IDLE] + tail + OK))
    return out


def escapes(g):
    """Every escape, in path, query, fragment and parameters."""
    out = []
    for hi, lo in itertools.product(b"0123456789abcdefABCDEF", repeat=2):
        v = int(bytes([hi, lo]), 16)
        if v == 0 or v >= 128:
            continue
        e = b"%" + bytes([hi, lo])
        uri = b"/" + e + b"a?" + e + b"k=" + e + b"&z" + e + b"#" + e
        out.append(script([INIT(), FEED(req(b"GET", uri))], [[dict(op="decoded"), dict(op="params"), FIELDS] + OK]))
    for n in list(range(0, 40)) + list(range(1000, 1050)):
        for kind in range(3):
            body = (b"%41" * n) if kind == 0 else (b"a" * n + b"%42") if kind == 1 else (b"%43" + b"b" * n)
            out.append(script([INIT(), FEED(req(b"GET", b"/" + body + b"?" + body + b"=" + body))],
                              [[dict(op="decoded"), dict(op="params")] + OK]))
    for i, ch in enumerate(["\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "é", "ß", "中", "😀"]):
        if ch == "\uffff":
            continue
        for mode in range(3):
            b = ch.encode() if mode == 0 else b"".join(b"%%%02X" % x for x in ch.encode()) if mode == 1 else b"".join(b"%%%02x" % x if k % 2 else bytes([x]) for k, x in enumerate(ch.encode()))
            out.append(script([INIT(), FEED(req(b"GET", b"/" + b + b"?" + b + b"=" + b + b"#" + b))],
                              [[dict(op="decoded"), dict(op="params"), dict(op="param", k=rle(ch.encode())), dict(op="setparam", k=rle(ch.encode()), v=rle(b"1")), dict(op="params")] + OK]))
    return out
