"""Scripts for the service driver: file handlers, stacks and routers, access logs."""
from gen_conn import pattern
from fam_service import Script, APP, TRANSPORTS
from rle import rle, hdrs


def P(path):
    return [rle(x) for x in path.strip(b"/").split(b"/") if x]


def d(path):
    return dict(p=P(path), n=dict(t="d"))


def f(path, content):
    return dict(p=P(path), n=dict(t="f", c=rle(content)))


def l(path, to):
    return dict(p=P(path), n=dict(t="l", to=rle(to)))


def fifo(path):
    return dict(p=P(path), n=dict(t="p"))


def stack(*kids):
    return dict(t="stack", kids=list(kids))


def files(root, buf=0):
    return dict(t="file", root=rle(root), buf=buf)


def esc(r, b, how=None):
    """Percent-encode a name: what must be, and at random what need not be."""
    p = r.choice([0, 0, .15, 1]) if how is None else how
    out = b""
    for c in b:
        if c in b" %?#" or c < 33 or c > 126 or r.random() < p:
            out += (b"%%%02x" if r.random() < .5 else b"%%%02X") % c
        else:
            out += bytes([c])
    return out


# ---------------------------------------------------------------- C12: what may be served at all
WORLD = [d(b"/pub"), d(b"/pub/sub"), d(b"/pub/sub/deep"), d(b"/pub/empty"), d(b"/pub-secret"), d(b"/pub-secret/sub"), d(b"/secret"), d(b"/pubsub"), d(b"/pub/..."),
         f(b"/pub/index.html", b"<public>"), f(b"/pub/sub/a.txt", b"inner a"), f(b"/pub/sub/deep/b.css", b"deep b"), f(b"/pub/a b.js", b"blank"), f(b"/pub/%41.xml", b"literal percent"),
         f(b"/pub/A.xml", b"the letter"), f(b"/pub/nothing", b""), f(b"/pub/.hidden", b"hidden"), f(b"/pub/.../x", b"three dots"), f(b"/pub/\xc3\xa9t\xc3\xa9.png", b"summer"), f(b"/pub/..a", b"two dots a"),
         f(b"/pub/back\\slash", b"backslash"), f(b"/pub/q?x#y", b"question"), f(b"/pub/secret", b"public secret"),
         f(b"/pub-secret/x.txt", b"SECRET sibling"), f(b"/pub-secret/index.html", b"SECRET index"), f(b"/pub-secret/sub/a.txt", b"SECRET sub"), f(b"/secret/s.txt", b"SECRET s"), f(b"/pub.txt", b"SECRET pub.txt"),
         f(b"/pubindex.html", b"SECRET pubindex"), f(b"/pubsub/a.txt", b"SECRET pubsub"), f(b"/index.html", b"SECRET top"), f(b"/pub*", b"SECRET star"),
         l(b"/pub/in.txt", b"sub/a.txt"), l(b"/pub/abs.txt", b"/pub/sub/a.txt"), l(b"/pub/out.txt", b"../secret/s.txt"), l(b"/pub/absout.txt", b"/secret/s.txt"),
         l(b"/pub/sib.txt", b"../pub-secret/x.txt"), l(b"/pub/insub", b"sub"), l(b"/pub/outdir", b"../secret"), l(b"/pub/sibdir", b"/pub-secret"), l(b"/pub/loop", b"loop"), l(b"/pub/dangle", b"no/such"),
         l(b"/pub/up", b".."), l(b"/pub/self", b"."), l(b"/pub/sub/back", b"../../pub/index.html"), l(b"/pub/chain", b"chain2"), l(b"/pub/chain2", b"out.txt"), l(b"/pub/chin", b"in.txt"),
         l(b"/alias", b"pub"), l(b"/alias2", b"/alias/sub"), fifo(b"/pub/fifo"), fifo(b"/secret/fifo")]
ROOTS = [b"/pub", b"/pub", b"/pub", b"/pub/", b"/pub/.", b"/pub/sub/..", b"/alias", b"/alias2", b"/pub/sub", b"/pub/insub", b"/nothing", b"/pub/index.html", b"/pub-secret/../pub", b"//pub", b"/pub/empty", b""]
SEGS = [b"pub", b"pub", b"sub", b"sub", b"deep", b"empty", b"pub-secret", b"secret", b"pubsub", b"...", b"index.html", b"a.txt", b"b.css", b"a b.js", b"%41.xml", b"A.xml", b"nothing", b".hidden", b"x", b"x.txt",
        "été.png".encode(), b"..a", b"back\\slash", b"q?x#y", b"s.txt", b"pub.txt", b"in.txt", b"abs.txt", b"out.txt", b"absout.txt", b"sib.txt", b"insub", b"outdir", b"sibdir", b"loop", b"dangle", b"up", b"self", b"back",
        b"chain", b"chain2", b"chin", b"alias", b"alias2", b"fifo", b"nosuch", b"INDEX.HTML", b"-secret", b"a\x00b", b"\xff\xfe", b"n" * 300]
DIRECT = [b"/", b"/.", b"/..", b"//", b"/index.html", b"//index.html", b"/./index.html", b"/index.html/", b"/index.html/.", b"/index.html/..", b"/index.html/../index.html", b"/sub/../index.html", b"/nosuch/../index.html",
          b"/%2e%2e/secret/s.txt", b"/..%2fsecret%2Fs.txt", b"/../pub-secret/x.txt", b"/../pub/index.html", b"/..%00/secret/s.txt", b"/index.html%00", b"/index.html%00.png", b"/%00", b"/sub%2fa.txt", b"%2findex.html",
          b"/out.txt", b"/absout.txt", b"/sib.txt", b"/outdir/s.txt", b"/sibdir/x.txt", b"/sibdir/../pub/index.html", b"/chain", b"/up/secret/s.txt", b"/up/pub/index.html", b"/self/self/index.html", b"/sub/back", b"/insub/a.txt",
          b"/insub/../index.html", b"/outdir/../index.html", b"/outdir/../secret/s.txt", b"/fifo", b"/loop", b"/dangle", b"/pub/index.html", b"/%41.xml", b"/%2541.xml", b"/a%20b.js", b"/a+b.js", b"/%2e", b"/%2e%2e", b"/%2e%2e%2f%2e%2e",
          b"/sub/", b"/sub", b"/empty", b"/nothing", b"/.hidden", b"/...", b"/.../x", b"/..a", b"/back\\slash", b"/..\\secret\\s.txt", b"/q%3fx%23y", b"/q?x#y", b"/index.html?../secret", b"/index.html#x", b"/\xc3\xa9t\xc3\xa9.png", b"/%c3%a9t%c3%a9.png",
          b"*", b"http://h/index.html", b"/http://h/index.html", b"/-secret/x.txt", b"/../pub-secret", b"/../pub.txt", b"/../pubindex.html", b"/../../" + b"../" * 20 + b"etc/passwd", b"//etc/passwd", b"/" + b"%2e%2e/" * 30 + b"etc/hostname",
          b"/proc/self/environ", b"/./././sub/./a.txt", b"/sub//a.txt", b"///sub///deep///b.css", b"/sub/deep/../../sub/deep/b.css", b"/index.html;x", b"/index.html%20", b"/index.html%0a", b"/~", b"/~root"]


def target(r):
    x = r.random()
    if x < .3:
        return r.choice(DIRECT)
    segs = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
        segs.append(r.choice([b"..", b"..", b".", b""]) if r.random() < .35 else r.choice(SEGS))
    return b"/" + (b"/" if r.random() < .9 else b"%2f").join(esc(r, s) for s in segs) + (b"/" if r.random() < .08 else b"")


def get(u, method=b"GET", hs=()):
    return method + b" " + u + b" HTTP/1.1\r\n" + b"".join(n + b": " + v + b"\r\n" for n, v in hs) + b"\r\n"


def file_access(g, roots=None, targets=None, n=40, changes=.08):
    """Requests for every kind of path, the published directory changing its content meanwhile."""
    r = g.r
    out = []
    root = r.choice(ROOTS) if roots is None else roots
    s = Script(g, r.choice(["mem", "mem", "tcp", "local"]), stack(files(root, r.choice([0, 0, 4])), APP), fs=WORLD)
    c = s.open()
    paths = [target(r) for _ in range(n)] if targets is None else targets
    for u in paths:
        s.send(c, get(u, r.choice([b"GET", b"GET", b"GET", b"HEAD", b"POST"])), 0, 0)
        if r.random() < .7:
            s.idle()
        if r.random() < changes:
            s.idle()
            s.ops.append(dict(op="fs", **r.choice([
                l(b"/pub/sub/a.txt", b"../../secret/s.txt"), f(b"/pub/sub/a.txt", b"inner again"), l(b"/pub/index.html", b"../pub-secret/index.html"), f(b"/pub/index.html", b"<public again>"),
                dict(p=P(b"/pub/nothing"), n=dict(t="x")), f(b"/pub/nothing", b"something"), l(b"/pub/in.txt", b"/pub-secret/x.txt"), l(b"/pub/in.txt", b"sub/deep/b.css"),
                dict(p=P(b"/pub/sub/deep"), n=dict(t="x")), l(b"/pub/A.xml", b"../pub*")])))
    return s.finish()


def all_direct(g):
    return [file_access(g, root, DIRECT, changes=0) for root in sorted(set(ROOTS))]


# ---------------------------------------------------------------- C13: served completely and exactly
NAMES = [b"a.html", b"b.HTML", b"c.jpg", b"d.JPEG", b"e.png", b"f.gif", b"g.css", b"h.js", b"i.xml", b"j.txt", b"k", b"html", b".html", b"l.html.gz", b"m.htm", b"n.Js", b"o.xml.png", b"p.jpegx", b"q.jpeg", b"r.GiF", b"s.CSS", b"t.PnG"]


def file_sizes(buf):
    cap = buf or 524288
    eff = max(cap, 512)
    return sorted({0, 1, 2, cap - 1, cap, cap + 1, cap + 2, eff - 1, eff, eff + 1, 2 * eff - 1, 2 * eff, 2 * eff + 1, 3 * eff + 7} | ({5 * eff, 100, 40 * eff + 3} if cap < 10000 else set()) - {-1})


def transfer(g, transport=None, buf=None, big=False, hold=None, steps=None):
    """Files of every size asked for in every way, behind and before other requests, output draining at any pace."""
    r = g.r
    transport = transport or r.choice(["mem", "mem", "mem2", "tcp", "local", "tls"])
    hold = (transport[:3] == "mem" and r.random() < .75) if hold is None else hold
    buf = r.choice([512, 513, 600, 1000, 1024, 4096, 100, 1, 8192, 65536] + ([0] if big else [])) if buf is None else buf
    eff = max(buf or 524288, 512)
    names = r.sample(NAMES, r.choice([2, 3, 4]))
    size = lambda: r.choice(file_sizes(buf)) if r.random() < .8 else r.randint(0, 3 * eff)
    fs = [d(b"/pub")] + [f(b"/pub/" + n, pattern(r, size())) for n in names]
    if r.random() < .2:
        fs.append(f(b"/pub/empty.js", b""))
        names.append(b"empty.js")
    s = Script(g, transport, stack(files(b"/pub", buf), APP), hold=hold, fs=fs)
    for _ in range(r.choice([1, 1, 2, 3])):
        s.open()
    gone = False

    def one(c, tags):
        x = r.random()
        if x < .12:
            u, data, ends = s.request(c, keep=True)
            return data, s.answer(u, c, ends, later=.1 if not hold else .3)
        n = r.choice(names)
        hs = []
        method = r.choice([b"GET"] * 6 + [b"HEAD", b"HEAD", b"POST"])
        if r.random() < .3:
            hs.append((b"If-None-Match", r.choice([b"@ETAG@", b"@ETAG@", b"@ETAG@", b'"@ETAG@"', b"*", b"x", b"W/@ETAG@", b"@ETAG@,x"] if tags else [b"*", b"x"])))
        ends = r.random() < .06
        if ends:
            hs.append((b"Connection", b"close"))
        u = b"/" + esc(r, n)
        s.uris = getattr(s, "uris", 0) + 1
        if s.n > 1 or r.random() < .2:      # requests of different clients must not look alike
            u += b"?%d" % s.uris
        return get(u, method, hs), ends
    for _ in range(steps or r.choice([3, 6, 12])):
        if not s.live:
            s.open()
        c = r.choice(s.live)
        data = b""
        tags = not s.pend and r.random() < .6
        if tags and hold:       # only what has been delivered is known
            for k in range(1, s.n + 1):
                s.ops.append(dict(op="drainall", c=k, n=r.choice([eff, 100000])))
        for _ in range(r.choice([1, 1, 2, 4])):
            q, ends = one(c, tags)
            data += q
            if ends:
                s.live.remove(c)
                break
        if b"@ETAG@" in data:
            s.idle()
            s.send(c, data, 0)
        else:
            s.send(c, data)
        x = r.random()
        if x < .1:
            n = r.choice(names)
            s.idle()
            s.ops.append(dict(op="fs", **f(b"/pub/" + n, pattern(r, size()))))
        elif x < .2 and s.live:
            s.leave(r.choice(s.live), r.choice(["fin", "rst"]))
        elif x < .3:
            s.late()
        elif x < .4 and not hold and transport in ("tcp", "local"):
            s.ops.append(dict(op="mute", c=c))
            s.idle()
            s.ops.append(dict(op="unmute", c=c))
        elif x < .6:
            s.idle()
        if hold:
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                k = r.randint(1, s.n)
                s.idle()
                s.ops.append(dict(op="drain", c=k, n=r.choice([1, 7, 100, 511, 512, eff - 1, eff, eff + 1, eff // 2, 10 * eff])))
    while s.pend:
        s.late(one=False)
    for _ in range(3 if hold else 0):
        for c in range(1, s.n + 1):
            s.ops.append(dict(op="drainall", c=c, n=r.choice([eff // 3 + 1, eff, eff, 3 * eff, 100000])))
    return s.finish()


def flip(r, b):
    """The same content but for one byte anywhere."""
    if not b:
        return b"\0"
    i = r.choice([0, len(b) - 1, len(b) // 2, r.randrange(len(b))])
    return b[:i] + bytes([b[i] ^ r.choice([1, 32, 128])]) + b[i + 1:]


def edits(g):
    """Files that change in one byte, or end a byte earlier, at the same length or time, asked for with the tag they had."""
    r = g.r
    buf = r.choice([0, 1000, 8192, 65536, 65536, 700000])
    size = lambda: min(r.choice([1, 2, 100, 511, 512, 513, 1000, 1023, 4095, 4096, 4097, 5000, 8191, 8192, 16385, 65535, 65536, r.randint(1, 200000)]), buf or 524288)
    cur = {b"/pub/a": pattern(r, size()), b"/pub/b.js": pattern(r, size())}
    s = Script(g, r.choice(["mem", "tcp", "local"]), stack(files(b"/pub", buf), APP), fs=[d(b"/pub")] + [f(n, c) for n, c in cur.items()])
    c = s.open()
    for _ in range(5):
        n = r.choice(list(cur))
        u = n[4:]
        s.send(c, get(u, r.choice([b"GET", b"HEAD"])), 0)
        s.idle()
        old = cur[n]
        x = r.random()
        if x < .7:
            cur[n] = flip(r, old)
        elif x < .8:
            cur[n] = old[:-1]
        elif x < .9:
            cur[n] = old[::-1]
        if cur[n] != old:
            s.ops.append(dict(op="fs", **f(n, cur[n])))
        s.send(c, get(u, r.choice([b"GET", b"GET", b"HEAD"]), [(b"If-None-Match", b"@ETAG@")]), 0)
        s.idle()
        if cur[n] != old and r.random() < .3:       # and back again
            cur[n] = old
            s.ops.append(dict(op="fs", **f(n, old)))
            s.send(c, get(u, b"GET", [(b"If-None-Match", b"@ETAG@")]), 0)
            s.idle()
    return s.finish()


def etags(g):
    """Entity tags before and after the contents change."""
    r = g.r
    n = r.choice([2, 3])
    a, b = pattern(r, r.choice([0, 1, 50, 600])), pattern(r, r.choice([1, 51, 600]))
    s = Script(g, r.choice(["mem", "tcp", "local"]), stack(files(b"/pub", 1000), APP), fs=[d(b"/pub"), f(b"/pub/a.txt", a), f(b"/pub/b.txt", r.choice([a, b])), f(b"/pub/big", pattern(r, 5000))])
    c = s.open()
    for _ in range(12):
        u = r.choice([b"/a.txt", b"/a.txt", b"/b.txt", b"/big"])
        hs = [(r.choice([b"If-None-Match", b"if-none-match", b"IF-NONE-MATCH"]), r.choice([b"@ETAG@", b"@ETAG@", b"@ETAG@", b"@ETAG@", b"@ETAG@x", b"x", b"", b"@TAG-END@", b"@TAG-HALF@", b"@TAG-START@", b"@TAG-OFF@", b"@TAG-UPPER@"]))] if r.random() < .7 else []
        if r.random() < .2:
            hs.append((b"X-Other", b"@ETAG@"))
        s.send(c, get(u, r.choice([b"GET", b"GET", b"HEAD"]), hs), 0)
        s.idle()
        if r.random() < .3:
            s.ops.append(dict(op="fs", **f(r.choice([b"/pub/a.txt", b"/pub/b.txt"]), r.choice([a, b, pattern(r, 70)]))))
    return s.finish()


# ---------------------------------------------------------------- C14: dispatch
WORDS = [b"a", b"b", b"item", b"x-1", b"Z_9", b"users", b"0"]


def pattern_pieces(r):
    """A route pattern as pieces and text."""
    n = r.choice([0, 1, 1, 2, 2, 3])
    ps, txt = [], b""

    def lit(b):
        nonlocal txt
        if ps and ps[-1]["t"] == "lit":
            ps[-1]["d"] = rle(b"".join(bytes([z % 256]) * (z // 256) for z in ps[-1]["d"]) + b)
        else:
            ps.append(dict(t="lit", d=rle(b)))
        txt += b
    lit(b"/")
    names = r.sample([b"id", b"name", b"rest", b"Id", b"k2", b"a", b"q", b"_u"], 4)
    for k in range(n):
        x = r.random()
        if x < .4:
            lit(r.choice(WORDS))
        elif x < .75:
            nm = names[k]
            if r.random() < .2:
                lit(r.choice([b"v", b"p-"]))
            ps.append(dict(t="one", n=rle(nm)))
            txt += b":" + nm
        else:
            nm = names[k]
            ps.append(dict(t="any", n=rle(nm)))
            txt += b"*" + nm
        if k < n - 1:
            lit(r.choice([b"/", b"/", b"/", b"/x/", b"~", b"/%", b",", b"@"]))
        elif r.random() < .15:
            lit(r.choice([b"/", b"~end", b"/edit"]))
    return ps, txt


class Trees:
    def __init__(self, g):
        self.g, self.r, self.n, self.ids, self.pats = g, g.r, 0, [], []

    def probe(self, acc, kind=None):
        self.n += 1
        i = "p%d" % self.n
        if kind != "fn":
            self.ids.append(i)
        p = dict(t="probe", id=i, acc=acc)
        if kind:
            p["kind"] = kind
        return p

    def leaf(self):
        r = self.r
        x = r.random()
        if x < .35:
            return self.probe(False)
        if x < .6:
            return self.probe(True, r.choice([None, "fn"]))
        if x < .7:
            return dict(t="none")
        if x < .85:
            return dict(t="fixed", s=r.choice([200, 403, 503, 201, 999]), c=rle(pattern(r, r.choice([0, 1, 20]))), set=r.random() < .3)
        return dict(t="404") if r.random() < .6 else files(b"/pub")

    def router(self, depth):
        r = self.r
        routes = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            if self.pats and r.random() < .35:
                ps, txt = r.choice(self.pats)
            else:
                ps, txt = pattern_pieces(r)
                self.pats.append((ps, txt))
            kind = r.choice(["handler", "handler", "slot", "name", "invokable", "func", "static", "static", "badname"])
            if kind == "handler":
                to = self.node(depth - 1) if depth else self.leaf()
                kind = "handler"
            elif kind == "static":
                to = dict(t="static", s=r.choice([200, 302, 404, 500]), h=hdrs(r.choice([[], [(b"Location", b"/x")], [(b"Content-Type", b"text/html"), (b"X-A", b"1")]])), c=rle(pattern(r, r.choice([0, 1, 30]))))
            elif kind == "badname":
                to = dict(t="none")
            else:
                to = self.probe(True)
                if kind == "func":
                    self.ids.remove(to["id"])
            routes.append(dict(m=rle(r.choice([b"", b"GET", b"GET", b"POST", b"get", b"PUT", b"Delete"])), p=ps, path=rle(txt), kind=kind, to=to))
        return dict(t="router", routes=routes, mm=r.random() < .5, un=r.random() < .4, mp=r.random() < .4)

    def node(self, depth):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .3:
            return self.leaf()
        if x < .6:
            return stack(*[self.node(depth - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))])
        return self.router(depth)

    def path(self):
        """A path that is likely to fit (or nearly fit) some route."""
        r = self.r
        if not self.pats or r.random() < .1:
            return b"/" + r.choice([b"", b"a", b"nothing", b"a/b", b"pub"])
        ps, _ = r.choice(self.pats)
        out = b""
        for p in ps:
            if p["t"] == "lit":
                out += b"".join(bytes([z % 256]) * (z // 256) for z in p["d"])
            elif p["t"] == "one":
                out += r.choice(WORDS + [b"a_b-c", b"-", b"longer-name_0"] + ([b"", b"a.b", b"a b", b"a/b", b"%", "é".encode()[:0]] if r.random() < .2 else []))
            else:
                out += r.choice([b"", b"a", b"a/b", b"/", b"a b/c.d", b"x?y#z", b"%41", "é/ü".encode(), b"..", b"a~end", b"x/edit/edit"])
        x = r.random()
        if x < .08:
            out += r.choice([b"/", b"x", b"\n", b" "])
        elif x < .12:
            out = out[:-1] if len(out) > 1 and out[-1] < 128 else b"/"
        elif x < .15:
            out = out.swapcase()
        elif x < .18:
            out = b"/" + out
        return esc(r, out, r.choice([0, 0, 0, .2]))


def dispatch(g, tree=None, n=14):
    r = g.r
    t = Trees(g)
    root = stack(*[t.node(3) for _ in range(r.choice([1, 2, 3]))]) if r.random() < .5 else t.router(2)
    s = Script(g, r.choice(["mem", "mem", "mem", "tcp"]), root, fs=[d(b"/pub"), f(b"/pub/a", b"file a"), f(b"/pub/item", b"file item")])
    c = s.open()
    for _ in range(n):
        u = t.path()
        x = r.random()
        if x < .3:
            m = r.choice([b"GET", b"POST", b"get", b"PUT", b"", b"delete", b"%47ET", b"HEAD", b"XX"])
            u += b"?" + r.choice([b"a=1&", b"", b"id=7&"]) + r.choice([b"_method", b"_METHOD", b"_Method"]) + b"=" + m
        elif x < .5:
            u += b"?" + r.choice([b"id=1", b"ID=2&id=3", b"name=x&rest=y", b"a=1&a=2", b"k2", b"q=%20&Rest=1"])
        s.send(c, get(u, r.choice([b"GET", b"GET", b"GET", b"POST", b"PUT", b"DELETE", b"HEAD", b"OPTIONS"])), 0, 0)
        if r.random() < .8:
            s.idle()
        if r.random() < .05 and t.ids:
            s.idle()
            s.ops.append(dict(op="kill", id=t.ids.pop(r.randrange(len(t.ids)))))
    return s.finish()


# ---------------------------------------------------------------- C24: access logs
ODD = [b"%2F", b"a%0ab", b"%3Dx", b"%1", b"%12", b"%25", b"%7F?%20", b"x%2Fy%3D%4A", b"%99", b"%L1", b"%5", b"?q=%31%32%33%34%35%36%37%38", b"%22", b"%0d%0a", b"?a=%2F%2F", b"%08",
       "\u00e9".encode(), "\u20ac/\U0001f600".encode(), "?q=\u4e2d%41".encode()]


def logged(g, transport=None, modes=None, **kw):
    """Traffic through logging handlers, with every URI a client may use."""
    from fam_service import traffic
    r = g.r
    modes = modes or r.choice([["trace"], ["done"], ["done"], ["trace", "done"], ["done", "done"], ["trace", "trace"]])
    tree = stack(*[dict(t="log", n=i + 1, set=r.random() < .3) for i in range(len(modes))], *r.choice([[APP], [APP], [dict(t="probe", id="no", acc=False), APP], [dict(t="none")], [dict(t="404")]]))
    return traffic(g, transport or r.choice(["mem", "mem", "mem2", "tcp", "local"]), tree=tree, logs=modes, odd=[u for u in ODD if r.random() < .6], **kw)


def logged_waves(g):
    """More clients at once than connection objects are kept for, all of them logged."""
    from fam_service import waves
    r = g.r
    modes = r.choice([["trace"], ["done"], ["trace", "done"]])
    return waves(g, r.choice(["tcp", "local", "mem"]), n=r.choice([12, 26, 40]), rounds=r.choice([1, 2]), tree=stack(*[dict(t="log", n=i + 1) for i in range(len(modes))], APP), logs=modes)
