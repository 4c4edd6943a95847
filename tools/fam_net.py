"""Script families for the network access manager (C22)."""
from gen_client import head, gz
from rle import rle, hdrs

IDLE = {"op": "idle"}


def START(s=0, m=b"GET", t=b"", h=(), d=b"", pre=False):
    return {"op": "start", "s": s, "m": rle(m), "t": rle(t), "h": hdrs(h), "d": rle(d), "pre": pre}


def OP(op, k, **kw):
    return dict({"op": op, "k": k}, **kw)


def SEND(k, d):
    return OP("send", k, d=rle(d))


def reply(g, m, k, nsrv, cookies=True):
    """An answer that says which request it answers."""
    r = g.r
    gzipped = r.random() < .15
    a = g.response(m, big=r.random() < .15, gzipped=gzipped, redirect=r.choice([None, None, None, b"/red", b"http://@%d@/abs" % r.randint(1, nsrv), b"rel?x=%20"]))
    x, cut = a["bytes"], a["bytes"].find(b"HTTP/1.")
    h = a["bytes"]
    end = a["headlen"] - 2
    extra = b"X-Answer: %d\r\n" % k
    if r.random() < .3:
        extra += b"".join(b"%s: %s\r\n" % (r.choice([b"Via", b"VIA", b"via"]), r.choice([b"a", b"b, c", b"1.1 x"])) for _ in range(r.choice([1, 2, 3])))
    if cookies and r.random() < .5:
        for _ in range(r.choice([1, 1, 2, 3])):
            extra += r.choice([b"Set-Cookie", b"set-cookie"]) + b": " + r.choice([b"a", b"b", b"sid"]) + b"=" + r.choice([b"%d" % k, b"v%dx" % k, b""]) \
                + r.choice([b"", b"", b"", b"; Path=/p1", b"; path=/", b"; Max-Age=0", b"; Max-Age=3600", b"; HttpOnly"]) + b"\r\n"
    return dict(a, bytes=x[:end] + extra + x[end:])


def request(g, nsrv, s=None, heads=True):
    r = g.r
    m = r.choice([b"GET", b"GET", b"GET", b"HEAD" if heads else b"GET", b"POST", b"PUT", b"DELETE", b"PATCH"])
    d = g.body(big=r.random() < .2) if m in (b"POST", b"PUT", b"PATCH") and r.random() < .8 else b""
    hs, seen = [], set()
    for n, v in g.headers():
        if v and n.lower() not in seen:
            hs.append((n, v))
            seen.add(n.lower())
    pre = r.random() < .3
    t = r.choice([b"/p1", b"/p1", b"/p1/q", b"/p2", b"/p11"]) if pre else r.choice([b"", b"/p1", b"?q=1", b"/x?y=/p1"])
    return START(r.randrange(nsrv) if s is None else s, m, t, hs, d, pre), m


def parallel(g, n, most=8, aborts=.1, ends=.1, drops=0., nest=.3):
    """Many replies over several servers, answered piecewise in every order."""
    r = g.r
    out = []
    for _ in range(n):
        nsrv = r.choice([1, 2, 2, 3])
        servers = ["up"] + [r.choice(["up", "up", "sib"]) for _ in range(nsrv - 1)]
        if r.random() < .15:
            servers.append("down")
        codings, ops, on = [], [], {}
        todo = {}                      # reply -> [segments, eof]
        n_started = [0]
        drop = r.random() < drops

        # requests started inside notifications shift the numbers of the later ones; no answer meant for
        # another method may then reach a HEAD request, whose surplus bytes would race with the next one
        nests = r.random() < .6

        def start(nested=False):
            o, m = request(g, len(servers), heads=not nests)
            k = n_started[0]
            n_started[0] += 1
            if servers[o["s"]] != "down":
                a = reply(g, m, k, nsrv, cookies=not drop)
                if a["coding"]:
                    codings.append({"raw": rle(a["coding"][0]), "plain": rle(a["coding"][1])})
                todo[k] = [g.segments(a["bytes"]), a["eof"]]
            return o

        total = r.choice([2, 3, 5, most])
        budget = 6 * total + 20
        asleep = []                    # replies that exist once a notification comes
        while budget and (n_started[0] < total or todo):
            budget -= 1
            x = r.random()
            live = [k for k in todo if k not in asleep]
            if n_started[0] < total and (x < .35 or not live):
                ops.append(start())
                if r.random() < .6:
                    ops.append(IDLE)
            elif live:
                k = r.choice(live)
                y = r.random()
                ops.append(IDLE)       # so that the connection of k is known
                if y < aborts:
                    ops += [OP("abort", k), r.choice([IDLE, IDLE, OP("abort", k)])]
                    del todo[k]
                elif y < aborts + ends:
                    ops += [OP(r.choice(["fin", "rst"]), k), IDLE]
                    del todo[k]
                elif drop and y < aborts + ends + .1:
                    ops += [OP("drop", k)]
                else:
                    segs, eof = todo[k]
                    if segs:
                        ops.append(SEND(k, segs.pop(0)))
                    if not segs:
                        if eof:
                            ops.append(OP("fin", k))
                        ops.append(IDLE)
                        del todo[k]
                    elif r.random() < .5:
                        ops.append(IDLE)
                    if r.random() < .2:
                        ops.append(OP("read", k, n=r.choice([0, 1, 5, 100, -1])))
        s = dict(servers=servers, ops=ops, on=on, codings=codings)
        for k in range(n_started[0]):
            for what in ("meta", "ready", "error", "done", "told"):
                if r.random() < nest * .4:
                    l = []
                    for _ in range(r.choice([1, 1, 2])):
                        z = r.random()
                        if z < .4:
                            l.append(OP("read", k, n=r.choice([1, 7, -1])))
                        elif z < .7 or not nests:
                            l.append(OP("abort", r.choice([k, k, r.randrange(n_started[0])])))
                        else:
                            o, m = request(g, len(servers), heads=False)
                            o.pop("drop", None)
                            l.append(o)
                    on["%s:%d:%d" % (what, k, 0)] = l
        out.append(s)
    return out


def chains(g, n):
    """Every finished reply starts the next ones from inside its notifications, on the same servers."""
    r = g.r
    out = []
    for _ in range(n):
        nsrv = r.choice([1, 1, 2])
        on, ops, codings = {}, [], []
        width = r.choice([1, 1, 2, 3])
        k = 0
        order = []
        for _ in range(width):
            o, m = request(g, nsrv)
            ops.append(o)
            order.append((k, m))
            k += 1
        ops.append(IDLE)
        for _ in range(r.choice([2, 4, 8])):
            if not order:
                break
            j, m = order.pop(r.randrange(len(order)))
            a = reply(g, m, j, nsrv)
            if a["coding"]:
                codings.append({"raw": rle(a["coding"][0]), "plain": rle(a["coding"][1])})
            what = r.choice(["done", "done", "told", "error", "meta"])
            how = r.random()
            nxt = []
            for _ in range(r.choice([1, 1, 2])):
                o, m2 = request(g, nsrv)
                nxt.append(o)
                new = (k, m2)
                k += 1
                if r.random() < .3:
                    nxt.append(OP("abort", j))
                order.append(new)
            if how < .15:
                if what in ("meta",):
                    what = "done"
                on["%s:%d:0" % (what, j)] = nxt
                ops += [OP("abort", j), IDLE]
                started = what in ("done", "told", "error")
            elif how < .3:
                segs = g.segments(a["bytes"])[:-1]
                what = "error" if what == "meta" else what
                on["%s:%d:0" % (what, j)] = nxt
                ops += [SEND(j, x) for x in segs] + [OP(r.choice(["fin", "rst"]), j), IDLE]
                break                        # whether it failed is for the specification to say
            else:
                what = "done" if what == "error" else what
                on["%s:%d:0" % (what, j)] = nxt
                if what == "meta":           # an abort of j there ends it
                    nxt[:] = [x for x in nxt if x["op"] != "abort"]
                for x in g.segments(a["bytes"]):
                    ops += [SEND(j, x)] + ([IDLE] if r.random() < .5 else [])
                if a["eof"]:
                    ops.append(OP("fin", j))
                ops.append(IDLE)
        out.append(dict(servers=["up"] * nsrv, ops=ops, on=on, codings=codings))
    return out
