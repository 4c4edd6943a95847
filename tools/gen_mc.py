"""Scripts from the behaviours TLC explores: every transition of the bounded model is replayed."""
import json, re, zlib


def read_hists(out):
    return [l[8:-1].replace('\\"', '"') for l in out.split("\n") if l.startswith('"SCRIPT [')]


def maximal(hists, most=None, rng=None):
    """Drop the behaviours that are prefixes of others; at most so many of the rest, and how many there were."""
    keys = sorted(h[:-1].lstrip("[") + "," for h in hists)
    keep = [a for a, b in zip(keys, keys[1:] + [None]) if b is None or not b.startswith(a)]
    n = len(keep)
    if most and n > most:
        keep = sorted(rng.sample(keep, most))
    return [json.loads("[" + a[:-1] + "]") for a in keep], n


NAME = {"ready": "onReady", "completed": "onCompleted", "closed": "onClosed"}


def to_script(h, idle=True):
    sc = {"ops": [], "onReady": [], "onCompleted": [], "onClosed": []}
    split = zlib.crc32(json.dumps(h).encode()) % 3 == 0
    stack = [sc["ops"]]
    last = None
    for o in h:
        if o["op"] == "in":
            l = [{"op": "fields"}] if o["f"] != "closed" else []
            sc[NAME[o["f"]]].append(l)
            stack.append(l)
        elif o["op"] == "out":
            stack.pop()
        else:
            o = dict(o)
            if o["op"] == "init":
                o["split"] = split
            stack[-1].append(o)
            if len(stack) == 1 and idle:
                stack[-1] += [{"op": "fields"}, {"op": "idle"}]
    for k in ("onReady", "onCompleted", "onClosed"):
        sc[k].append([])
    sc["ops"] += [{"op": "drain", "n": 10000000}, {"op": "idle"}]
    return sc


CNAME = {"headers": "onHeaders", "data": "onData", "finished": "onFinished"}


def to_client_script(h, servers=1, down=False, timeout=None, mute=None):
    k = zlib.crc32(json.dumps(h).encode()) % 15
    kinds = [["up", "up80"][k % 2]] + [["up", "sib", "twin"][k % 3]] * (servers - 1)
    if down:
        kinds[-1] = "down"
    sc = {"servers": kinds, "ops": [], "onHeaders": [], "onData": [], "onFinished": [], "codings": []}
    if timeout is not None:
        sc["ops"].append({"op": "timeout", "n": timeout})
    stack = [sc["ops"]]
    via = zlib.crc32(json.dumps(h).encode()) % 2
    for o in h:
        if o["op"] == "in":
            l = []
            sc[CNAME[o["f"]]].append(l)
            stack.append(l)
        elif o["op"] == "out":
            stack.pop()
        else:
            o = dict(o)
            if o["op"] == "req":
                o["s"] -= 1
                o["via"] = via
            stack[-1].append(o)
            if len(stack) == 1:
                stack[-1].append({"op": "idle"})
    sc["ops"].append({"op": "idle"})
    return sc


# ---------------------------------------------------------------- dispatch
def _text(runs):
    return b"".join(bytes([z % 256]) * (z // 256) for z in runs)


def read_marked(out, mark):
    k = len(mark) + 2
    return [json.loads(l[k:-1].replace('\\"', '"').replace("\\\\", "\\")) for l in out.split("\n") if l.startswith('"' + mark + " ")]


def real_tree(n, r):
    """A tree of the model as the driver builds it: routes get their text and one of the ways to register them."""
    if n["t"] == "stack":
        return dict(n, kids=[real_tree(k, r) for k in n["kids"]])
    if n["t"] == "router":
        out = []
        for rt in n["routes"]:
            txt = b"".join(_text(p["d"]) if p["t"] == "lit" else (b":" if p["t"] == "one" else b"*") + _text(p["n"]) for p in rt["p"])
            to = rt["to"]
            kind = "handler"
            if to["t"] == "probe" and to["acc"]:
                kind = r.choice(["handler", "slot", "name", "invokable", "func"])
            elif to["t"] == "none":
                kind = r.choice(["badname", "handler"])
            from rle import rle
            out.append(dict(m=rt["m"], p=rt["p"], path=rle(txt), kind=kind, to=real_tree(to, r)))
        return dict(n, routes=out)
    return n


def dispatch_scripts(out, g, most):
    import fam_app as FA
    r = g.r
    reqs = read_marked(out, "REQUESTS")[0]
    trees = read_marked(out, "TREE")
    n = len(trees)
    if n > most:
        trees = r.sample(trees, most)
    res = []
    for t in trees:
        s = FA.Script(g, r.choice(["mem", "mem", "mem", "tcp"]), real_tree(t, r))
        c = s.open()
        qs = list(reqs)
        r.shuffle(qs)
        for q in qs:
            s.send(c, FA.get(_text(q["p"]) + (b"?" + _text(q["q"]) if q["q"] else b""), _text(q["m"])), 0, 0)
            s.idle()
        res.append(s.finish())
    return res, n


# ---------------------------------------------------------------- published directories
def filespace_scripts(out, g, most, segs, depth, per=None):
    """Worlds of the model, each asked for (at most per of) the paths of the model."""
    import itertools
    import fam_app as FA
    r = g.r
    worlds = read_marked(out, "WORLD")
    n = len(worlds)
    if n > most:
        worlds = r.sample(worlds, most)
    paths = [p for k in range(1, depth + 1) for p in itertools.product(segs, repeat=k)]
    res = []
    for w in worlds:
        order = sorted(w["fs"], key=lambda e: len(e["p"]))
        s = FA.Script(g, r.choice(["mem", "mem", "mem", "local"]), FA.stack(FA.files(_text(w["root"]), r.choice([0, 0, 4])), FA.APP), fs=order)
        c = s.open()
        for p in (paths if not per or per >= len(paths) else r.sample(paths, per)):
            u = b"/" + r.choice([b"/", b"/", b"%2f"]).join(FA.esc(r, x.encode(), r.choice([0, 0, 1])) for x in p)
            if u[:2] == b"//":          # would be an authority
                u = b"/." + u[1:] if r.random() < .5 else b"/%2f" + u[2:]
            s.send(c, FA.get(u), 0, 0)
            s.idle()
        res.append(s.finish())
    return res, n


# ---------------------------------------------------------------- the service
def service_script(h, transport, tree, logs):
    sc = dict(transport=transport, tree=tree, logs=logs, hold=False, app={}, ops=[],
              fs=[dict(p=[[368, 373, 354]], n=dict(t="d")), dict(p=[[368, 373, 354], [358]], n=dict(t="f", c=[179270]))])
    n = 0
    for o in h:
        if o["op"] == "open":
            n += 1
            sc["ops"].append(dict(op="open", c=n))
        elif o["op"] == "send":
            if o["app"]:
                sc["app"][_text(o["u"]).decode()] = o["now"]
            sc["ops"].append(dict(op="send", c=o["c"], d=o["d"]))
        elif o["op"] == "late":
            if transport[:3] != "mem":
                sc["ops"].append(dict(op="idle"))
            sc["ops"].append(dict(op="late", u=_text(o["u"]).decode(), ops=o["ops"]))
        else:
            sc["ops"].append(dict(o))
    sc["ops"].append(dict(op="idle"))
    return sc


def service_scripts(out, r, most, logs, transports):
    from rle import rle
    hs, n = maximal(read_hists(out), most, r)
    tree = dict(t="stack", kids=[dict(t="log", n=i + 1) for i in range(len(logs))] + [dict(t="file", root=rle(b"/pub"), buf=1), dict(t="probe", id="app", acc=True)])
    return [service_script(h, r.choice(transports), tree, logs) for h in hs], n


# ---------------------------------------------------------------- network access manager
def to_net_script(h, servers, down):
    sc = {"servers": ["up"] * servers, "ops": [], "on": {}, "codings": []}
    if down:
        sc["servers"][-1] = "down"
    stack, seen = [sc["ops"]], {}
    for o in h:
        if o["op"] == "in":
            key = "%s:%d" % (o["f"], o["k"] - 1)
            n = seen[key] = seen.get(key, -1) + 1
            stack.append(sc["on"].setdefault("%s:%d" % (key, n), []))
        elif o["op"] == "out":
            stack.pop()
        else:
            o = dict(o)
            if o["op"] == "start":
                o.update(s=o["s"] - 1, t=[], h=[], d=[])
            else:
                o["k"] -= 1
            stack[-1].append(o)
            if len(stack) == 1:
                stack[-1].append({"op": "idle"})
    return sc


# ---------------------------------------------------------------- proxy
def to_proxy_script(h, clients, down, r):
    ops = [{"op": "conn"} for _ in range(clients)]
    waits = ("forwarded", "answered", "relayed", "closed", "released")
    for i, o in enumerate(h):
        o = dict(o)
        if o["op"] == "ulast":
            ops += [dict(o, op="usend"), {"op": "ufin", "k": o["k"]}]
        elif o["op"] in ("ufin", "urst") and o["bare"]:      # tried again by the real one: the same happens to it again
            ops += [{"op": "doom", "k": o["k"], "how": o["op"][1:], "d": []}, o]
        elif o["op"] == "usend" and o["bad"]:
            ops += [{"op": "doom", "k": o["k"], "how": "", "d": o["d"]}, o]
        else:
            ops.append(o)
        if i + 1 < len(h) and h[i + 1]["op"] not in waits and r.random() < .4:
            ops.append({"op": "sync", "ms": 4})
    return {"ops": ops + [{"op": "sync", "ms": 12}], "down": down}


# ---------------------------------------------------------------- client and server
def to_e2e_script(h, clients, down, timeout, r):
    sc = {"servers": ["up"] + (["down"] if down else []), "clients": [{"onHeaders": [], "onData": [], "onFinished": []} for _ in range(clients)], "codings": [], "app": {}, "ops": []}
    if timeout == 0:
        sc["ops"] += [{"op": "timeout", "cl": c + 1, "n": timeout} for c in range(clients)]

    def real(o):
        o = dict(o)
        if o["op"] in ("req", "follow"):
            sc["app"][_text(o["t"]).decode()] = o.pop("app")
        if o["op"] == "req":
            o["s"] -= 1
        elif o["op"] == "follow":
            del o["t"]
        return o
    for o in h:
        if o["op"] == "in":
            sc["clients"][o["cl"] - 1][CNAME[o["f"]]].append([real(x) for x in o["ops"]])
        elif o["op"] == "late":
            close = o["ops"][0]["op"] == "close"
            if close or r.random() < .7:
                sc["ops"].append({"op": "idle"})
            sc["ops"].append({"op": "late", "u": _text(o["u"]).decode(), "ops": o["ops"]})
            if close:
                sc["ops"].append({"op": "idle"})
        else:
            if o["op"] == "follow" or r.random() < .6:
                sc["ops"].append({"op": "idle"})
            sc["ops"].append(real(o))
    sc["ops"].append({"op": "idle"})
    return sc


# ---------------------------------------------------------------- scripts
def to_script_script(h, mode, auto, r):
    plans, ops = [], []
    ws = lambda s, c: [{"op": "ws", "s": s, "h": [], "c": c}]
    fails = ["string", "number", "zero", "thrown-object", "undefined", "type", "native", "recursion"]
    for o in h:
        if o["op"] != "ask":
            ops += [{"op": "idle"}, o] if o["op"] == "init" and ops else [o]
            continue
        b = o["b"]
        p = {"answer": dict(acts=ws(201, "yes"), end="value", value=True), "pass": dict(acts=[], end="nothing"), "later": dict(acts=[], end="object"),
             "error": dict(acts=[], end="error"), "throw": dict(acts=[], end=r.choice(fails)), "whole": dict(acts=ws(201, "yes"), end=r.choice(["error"] + fails)),
             "torn": dict(acts=[{"op": "wh", "s": 201, "h": [["Content-Length", "3"]]}], end=r.choice(["error"] + fails), leave=True)}[b]
        plans.append(dict(p, **{"else": ws(404, "other")}))
        ops.append({"op": "feed", "d": o["d"]})
        if b == "later":
            ops += [{"op": "idle"}, {"op": "late", "acts": ws(404, "other")}]
        if r.random() < .5:
            ops.append({"op": "idle"})
    return {"mode": mode, "auto": auto, "plans": plans, "ops": ops + [{"op": "idle"}]}


def to_param_scripts(hs, size=40):
    """Targets of the parameter model, many to a connection: each one is the path, the query and the fragment of a request."""
    from rle import rle, unrle
    out = []
    call = [{"op": "wr", "s": 200, "h": [], "c": rle(b"ok")}]
    for i in range(0, len(hs), size):
        stream, ready = b"", []
        for (h,) in hs[i:i + size]:
            q = unrle(h["q"])
            stream += b"GET /" + q + b"?" + q + b"#" + q + b" HTTP/1.1\r\n\r\n"
            sets = [{"op": "setparam", "k": k, "v": v} for k, v in h["sets"]]
            ask = [{"op": "param", "k": rle(k)} for k in (b"a", b"A", b"4", b"", b"=", b"zz")]
            ready.append([{"op": "fields"}, {"op": "decoded"}, {"op": "params"}] + [o for x in sets for o in (x, {"op": "params"})] + ask + call)
        out.append({"ops": [{"op": "init", "hold": False, "split": False}, {"op": "feed", "d": rle(stream)}, {"op": "idle"}],
                    "onReady": ready, "onCompleted": [[]], "onClosed": [[]]})
    return out
