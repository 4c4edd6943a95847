"""Scripts for the script-handler driver: requests, what the handling script does, and edits of it."""
from gen_conn import Gen, pattern
from rle import rle

IDLE = {"op": "idle"}
USABLE = ["good", "good", "good", "later", "local"]
UNUSABLE = ["syntax", "toperror", "nofunction", "number", "empty"]
FAILS = ["error", "string", "number", "zero", "thrown-object", "undefined", "type", "native", "recursion"]
UNI = ["é", "€", "ß", "漢", "😀"]


class SGen:
    def __init__(self, g):
        self.r, self.g = g.r, g

    # ---- requests (everything decodes to proper text)
    def text(self, n, pool="abcdefghijXYZ0189-_.~!*'(),:@$", uni=.08, esc=.12):
        r, out = self.r, ""
        for _ in range(n):
            x = r.random()
            if x < esc:
                c = r.choice([r.choice(" \"<>%&=#?/+;abcZ019\t\r\n"), r.choice(UNI)])
                out += "".join(("%%%02x" if r.random() < .5 else "%%%02X") % b for b in c.encode())
            elif x < esc + uni:
                out += r.choice(UNI)
            else:
                out += r.choice(pool)
        return out

    def query(self):
        r = self.r
        if r.random() < .04:
            return "&".join("n%d=%s" % (i, self.text(2)) for i in range(r.choice([17, 40, 200])))
        parts = []
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            k = r.choice(["a", "b", "x", "A", "name", self.text(r.choice([0, 1, 3, 8]))])
            parts.append(k if r.random() < .12 else k + "=" + (self.text(r.choice([0, 1, 3, 10]), pool="abcXYZ012-_.+=;:@/?,") if r.random() < .95 else self.text(2000)))
        return "&".join(parts) + ("&" if r.random() < .05 else "")

    def request(self, last=False, big=False):
        r = self.r
        m = r.choice(["GET", "GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "OPTIONS", "X-9._$"])
        u = "/" + "/".join(self.text(r.choice([0, 1, 4, 9])) for _ in range(r.choice([1, 1, 2, 3])))
        if r.random() < .03:
            u = r.choice(["*", "//h/x", "http://h:80/x", "/:/:", "/[::1]/[", "//[x/y", ":8080/?"])
        if r.random() < .6:
            u += ("?" if "?" not in u else "&") + self.query()
        if r.random() < .1:
            u += "#" + self.text(r.choice([1, 5]))
        hs, ver = [], r.choice(["HTTP/1.1"] * 9 + ["HTTP/1.0"])
        for _ in range(r.choice([0, 1, 2, 4, 12, 40 if big else 5])):
            n = r.choice(["Host", "Accept", "X-A", "x-a", "Cookie", "X-" + self.g.token(1, 8).decode(), "toString", "constructor", "length"])
            hs.append((n, self.text(r.choice([0, 1, 5, 30]), pool="abcdefXYZ019 -_.;,=/\"").strip(" \t\r\n")))
        body = ""
        if m in ("POST", "PUT", "X-9._$") and r.random() < .85:
            body = self.text(r.choice([1, 5, 40, 300]), pool="abcdef &=+\r\n{}\":,") if r.random() < .7 else pattern(r, self.g.size(big)).decode()
        if r.random() < .08:
            hs.insert(r.randint(0, len(hs)), ("Connection", r.choice(["keep-alive", "close"] if last else ["keep-alive"])))
        d = body.encode()
        if d or r.random() < .05:
            hs.insert(r.randint(0, len(hs)), ("Content-Length", "%d" % len(d)))
        if d and r.random() < .1:
            hs.insert(r.randint(0, len(hs)), ("Expect", "100-continue"))
        return ("%s %s %s\r\n" % (m, u, ver) + "".join("%s: %s\r\n" % h for h in hs) + "\r\n").encode() + d

    # ---- what the script does
    def headers(self):
        r, hs = self.r, []
        for _ in range(r.choice([0, 0, 1, 2, 4, 12])):
            n = r.choice(["X-A", "x-a", "ETag", "Server", "Set-Cookie", "X-" + self.g.token(1, 8).decode()])
            v = "".join(r.choice("abcXYZ 0129;=,\"" + "".join(UNI)) for _ in range(r.choice([0, 1, 5, 30, 300, 1000, 4000] if r.random() < .3 else [0, 1, 5, 30]))).strip(" ")
            if n.lower() not in [x.lower() for x, _ in hs]:
                hs.append([n, v])
        if r.random() < .25:
            hs.append([r.choice(["Content-Type", "content-type"]), r.choice(["text/html", "application/json; charset=utf-8"])])
        if r.random() < .08:
            hs.append(["Connection", r.choice(["close", "keep-alive"])])
        return hs

    def content(self, big=False):
        r = self.r
        if r.random() < .15:
            return ""
        if r.random() < .6:
            return "".join(r.choice("abcdef \"\\<>{}\n" + "".join(UNI)) for _ in range(r.choice([1, 3, 20, 200])))
        return pattern(r, self.g.size(big)).decode()

    CODES = [200, 200, 200, 201, 206, 299, 302, 400, 403, 404, 410, 500, 503, 999]

    def response(self, big=False):
        r = self.r
        hs, code, body = self.headers(), r.choice(self.CODES), self.content(big)
        style = r.choice(["wr", "ws", "ws", "len", "chunk", "open"])
        if style in ("wr", "ws"):
            return [dict(op=style, s=code, h=hs, c=body)]
        put = lambda h: hs.insert(r.randint(0, len(hs)), h)
        if style == "len":
            put(["Content-Length", "%d" % len(body.encode())])
        elif style == "chunk":
            put(["Transfer-Encoding", "chunked"])
        out = [dict(op="wh", s=code, h=hs)]
        while body:
            k = r.choice([1, 2, 5, 100, 4096, len(body)]) if len(out) < 10 else len(body)
            out.append(dict(op="wc", c=body[:k]))
            body = body[k:]
            if r.random() < .1:
                out.append(dict(op=r.choice(["flush", "wc"]), c=""))
        return out + ([dict(op="ec")] if style != "len" else [])

    def plan(self, big=False, fails=.2, passes=.2):
        r = self.r
        x = r.random()
        if x < fails:
            acts = self.response(big) if r.random() < .5 else []
            whole = r.random() < .5
            if not whole:
                acts = acts[:r.randint(0, len(acts))]
            p = dict(acts=acts, end=r.choice(FAILS))
            if 0 < len(acts) and not whole:
                p["leave"] = True                # what is left of a response begun cannot be told
            return p
        if x < fails + passes:
            return dict(r.choice([dict(end="nothing"), dict(end="value", value=r.choice([False, 0, "", None]))]), acts=[], **{"else": self.response(big) if r.random() < .8 else []})
        if x < fails + passes + .1:              # answered later, or never
            return dict(acts=[], end="value", value=True)
        return dict(acts=self.response(big), **r.choice([dict(end="value", value=r.choice([True, 1, "x", "false"])), dict(end="object")]))


def file_op(g, n, kind=None, **kw):
    r = g.r
    o = dict(op="file", kind=kind or r.choice(USABLE), n=n, dt=r.choice([1, 2, 10, 1000, 5000, 100000, -1, -1000, -77777]), replace=r.random() < .4)
    o.update(kw)
    return o


def requests(g, n=8, big=False, mode=None, fails=.2, passes=.2, edits=0.):
    """Requests one after the other or pipelined, each handled by a script its own way."""
    r, s = g.r, SGen(g)
    mode = mode or r.choice(["file", "fn"])
    sc = dict(mode=mode, auto=r.random() < .7, plans=[], ops=[])
    v = 1
    sc["ops"] += [file_op(g, v) if mode == "file" else dict(op="fn", kind="good", n=v), dict(op="init")]
    k = 0
    while k < n:
        if r.random() < edits:
            v += 1
            if mode == "fn":
                sc["ops"].append(dict(op="fn", kind=r.choice(["good", "good", "number", "none"]), n=v))
            else:
                x = r.random()
                o = file_op(g, v, r.choice(UNUSABLE + ["topstring"]) if x < .3 else "missing" if x < .36 else None)
                if o["kind"] in USABLE and r.random() < .25:
                    v += 1
                    o["during"] = [file_op(g, v, r.choice(USABLE + UNUSABLE))]
                sc["ops"].append(o)
                if r.random() < .15:
                    v += 1
                    sc["ops"].append(file_op(g, v))
        m = r.choice([1, 1, 1, 2, 4])
        data = b""
        for _ in range(m):
            p = s.plan(big, fails, passes)
            sc["plans"].append(p)
            data += s.request(big=big)
            k += 1
        sc["ops"] += [x for d in g.cuts(data) for x in [dict(op="feed", d=rle(d))] + ([IDLE] if r.random() < .1 else [])]
        for _ in range(m):
            sc["ops"] += [IDLE, dict(op="late", acts=s.response(big)), dict(op="late", acts=[dict(op="ec"), dict(op="close")] if r.random() < .05 else [])]
        sc["ops"].append(IDLE)
        if any(p.get("leave") or p["acts"] and p["acts"][-1]["op"] in ("close",) for p in sc["plans"][-m:]) or r.random() < .1:
            sc["ops"] += [dict(op="peer"), IDLE, dict(op="init")]
        elif r.random() < .25:
            sc["ops"] += [dict(op="peer"), IDLE, dict(op="init")]
    return sc
