import json
import os
import gen_mc
import fam_conn as F
import fam_client as FC
import fam_service as FS
import fam_app as FA
import fam_header as FH
import fam_net as FN
import fam_proxy as FX
import fam_e2e as FE
import fam_script as FG
import vlib
from gen_conn import Gen, pattern
from gen_client import CGen
from rle import rle, hdrs

CONN = dict(driver="conn_driver", module="TraceHttpConnection")


def conn(c, family, scripts, **kw):
    c.conform(family, scripts=scripts, **dict(CONN, **kw))


KINDS = ["get", "query", "head", "post", "expect", "old", "oldka", "close", "bad", "neg", "huge"]
CALLS = ["wr", "wr0", "wrc", "wrlen0", "wrbad", "whlen", "whzero", "whopen", "whch", "wc1", "wc2", "wc0", "ec", "flush", "close"]
CONN_INV = ["NoError", "DeliveredExactly", "LifeCycle", "Framing", "NothingElse", "KeepAliveAgrees", "FlushBeforeClose",
            "Refused", "Interim", "FreshStart"]


def conn_model(c, name, ops=2, reqs=2, lives=1, hold=False, kinds=KINDS, calls=CALLS, replay=None):
    """Exhaustive check of the connection model; replay=n sends (at most n of) its behaviours to the real code."""
    consts = dict(MaxOps=ops, MaxReqs=reqs, MaxLives=lives, Hold=hold, Kinds=kinds, Calls=calls, Emit=bool(replay))
    out = c.model_check("MCHttpConnection", c.config("MC-" + name, view="Ghost", invariants=CONN_INV, constants=consts))
    if replay:
        hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
        c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
        conn(c, "model-" + name, [gen_mc.to_script(h) for h in hs])


def C01(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "deliver", ops=3 if t else 2, reqs=2, kinds=["query", "head", "post", "expect", "oldka"] if t else ["query", "post", "oldka"],
               calls=["wr", "whch", "wc1", "ec"], replay=30000 if t else 1500)
    conn(c, "cuts", F.every_cut(g) + F.two_cuts(g, 4000 if t else 300))
    conn(c, "headers", F.many_headers(g))
    conn(c, "bodies", F.body_sizes(g, t), limit=120)
    conn(c, "pipeline", F.deep_pipeline(6000 if t else 2500), limit=120)
    conn(c, "random", [g.scenario(big=c.rng.random() < .3) for _ in range(12000 if t else 700)])


def C02(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "life", ops=3 if t else 2, reqs=2, kinds=["get", "head", "old", "bad", "expect"] if t else ["get", "head", "bad"],
               calls=["wr", "whopen", "ec", "close"] + (["wc1", "whch"] if t else []), replay=40000 if t else 3000)
    conn_model(c, "lives", ops=2, reqs=1, lives=2, kinds=["get", "old", "bad"], calls=["wr", "close", "whopen"], replay=20000 if t else 1500)
    conn(c, "endings", F.endings(g, 12000 if t else 1200))


def C03(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "framing", ops=4 if t else 3, reqs=1, kinds=["get", "head", "old"] if not t else ["get", "head", "old", "oldka", "post"],
               calls=[k for k in CALLS if k not in ("flush", "close")], replay=40000 if t else 3000)
    conn(c, "sizes", F.response_sizes(g))
    conn(c, "heads", F.response_heads(g))
    conn(c, "random", [g.scenario(big=True) for _ in range(8000 if t else 400)])


def C04(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "keepalive", ops=3, reqs=2 if t else 1, kinds=["get", "head", "old", "oldka", "close"],
               calls=["wr", "wrc", "whlen", "whzero", "whopen", "whch", "wc2", "ec"], replay=30000 if t else 1500)
    conn(c, "table", F.keepalive_table(g))


def C05(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "drain", ops=3 if t else 2, reqs=2, hold=True, kinds=["get", "old", "bad", "close"] if t else ["get", "old", "bad"],
               calls=["wr", "whopen", "wc1", "ec", "close"] if t else ["wr", "whopen", "ec", "close"], replay=30000 if t else 3000)
    conn(c, "drains", F.drains(g, 12000 if t else 1500))


def grammar(c):
    p = c.work + "/grammar.json"
    c.model_check("DumpGrammar", env={"OUT": p})
    return json.load(open(p))


def C06(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "refuse", ops=2, reqs=2, hold=t, kinds=["get", "post", "bad", "neg", "huge"], calls=["wr", "whopen", "ec"], replay=20000 if t else 800)
    conn(c, "grammar", F.grammar_scripts(grammar(c), g, None if t else 5000))
    conn(c, "limits", F.limits(g))
    conn(c, "mutants", F.mutants(g, 12000 if t else 700))


def C07(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "interim", ops=2, reqs=2, hold=False, kinds=["get", "expect", "post"], calls=["wr", "whch", "ec", "close"], replay=20000 if t else 1500)
    conn(c, "expect", F.expectations(g))
    conn(c, "random", [g.scenario(expect=True) for _ in range(8000 if t else 400)])


def C08(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "lives", ops=3 if t else 2, reqs=1, lives=2, kinds=["query", "expect", "bad"] if not t else ["query", "expect", "old", "bad", "head"],
               calls=["wr", "whopen", "wc1", "close"], replay=40000 if t else 2500)
    conn(c, "lives", F.second_lives(g, 15000 if t else 1500))


def C09(c):
    g, t = Gen(c.rng), c.thorough
    conn_model(c, "inert", ops=4 if t else 3, reqs=1, kinds=["get", "head", "oldka"] if t else ["get", "head"], calls=CALLS if t else
               ["wr", "wrlen0", "whlen", "whzero", "whopen", "whch", "wc1", "wc2", "ec"], replay=40000 if t else 4000)
    conn(c, "misplaced", F.misplaced(g, 12000 if t else 1200))


def param_model(c, name, replay, **kw):
    """Every short text of letters, separators and escapes, read declaratively; sequences of settings."""
    k = dict(Letters=["a", "A", "plus", "four", "one", "amp", "eq", "xamp", "xeq", "xpct", "xa", "semi"], MaxLen=3, MaxSets=0, Emit=True,
             Wrong=["first", "plus", "semi", "never", "drop", "keep", "novalue", "unique", "raw", "lasteq"])
    k.update(kw)
    out = c.model_check("MCUrlParams", c.config("MC-" + name, invariants=["Decodes", "Reads", "Escapes", "Finds", "Others"], constants=k))
    hs = [json.loads(h) for h in gen_mc.read_hists(out)]
    n = len(hs)
    if n > replay:
        hs = c.rng.sample(hs, replay)
    c.notes.append("model %s: %d of %d targets replayed" % (name, len(hs), n))
    conn(c, "model-" + name, gen_mc.to_param_scripts(hs))


def C10(c):
    g, t = Gen(c.rng), c.thorough
    param_model(c, "decoding", 40000 if t else 8000, MaxLen=5 if t else 4)
    param_model(c, "setting", 30000 if t else 4000, MaxLen=3 if t else 2, MaxSets=2)
    conn(c, "escapes", F.escapes(g))
    conn(c, "parameters", F.parameters(g, 12000 if t else 1200))


# ------------------------------------------------------------------ the client
CLIENT_INV = ["NoError", "FinishOnce", "Truthful", "RightServer", "CleanStart"]
NOTIMEOUT = 100000


def client(c, family, scripts, **kw):
    c.conform(family, "client_driver", scripts, "TraceHttpClient", **kw)


def client_model(c, name, replay=None, **kw):
    """Exhaustive check of the client model; replay=n runs (at most n of) its behaviours on the real code."""
    k = dict(MaxReqs=2, MaxCalls=1, MaxEnds=1, Servers=2, Down=False, Timeout=NOTIMEOUT, Waits=[90], Reqs=["get", "head"], Answers=["ok"],
             Calls=["abort"], Emit=bool(replay))
    k.update(kw)
    out = c.model_check("MCHttpClient", c.config("MC-" + name, view="Ghost", invariants=CLIENT_INV, constants=k))
    if replay:
        hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
        c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
        client(c, "model-" + name, [gen_mc.to_client_script(h, k["Servers"], k["Down"], None if k["Timeout"] == NOTIMEOUT else k["Timeout"]) for h in hs])


def C15(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "outcome", 12000 if t else 1500, Answers=["ok", "eof", "bad"] if t else ["ok", "bad"], Servers=1, MaxCalls=2 if t else 1)
    client_model(c, "down", 8000 if t else 1000, Down=True, Reqs=["get", "other"], MaxCalls=2, MaxReqs=3 if t else 2)
    client(c, "truncations", FC.truncations(g, 1 if t else 4))
    client(c, "malformed", FC.malformed(g))
    client(c, "nested", FC.nested(g, 12000 if t else 1200))
    client(c, "refused", FC.refused(g))


def C16(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "answers", 12000 if t else 2000, Servers=1, Answers=["chunk", "inter", "none", "badch", "badhd"] if t else ["chunk", "inter", "none"],
                 Calls=["abort", "consume"] if t else [], Reqs=["get", "head", "post"])
    client(c, "cuts", FC.every_cut(g))
    client(c, "two-cuts", FC.two_cuts(g, 6000 if t else 400))
    client(c, "heads", FC.response_heads(g))
    client(c, "sizes", FC.body_sizes(g, t), limit=120)
    client(c, "mixed", FC.mixed(g, 8000 if t else 500))


def C17(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "reuse", 12000 if t else 1500, Reqs=["get", "other"], Answers=["ok", "close", "chunk"] if t else ["ok", "close"], MaxCalls=0, MaxReqs=3)
    client_model(c, "timeout", 8000 if t else 500, Servers=1, Timeout=60, Answers=["ok", "redir"], Calls=["abort", "follow"], MaxCalls=2 if t else 1)
    client(c, "table", FC.reuse_table(g))
    client(c, "sequences", FC.reuse(g, 10000 if t else 900))


def C18(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "next", 12000 if t else 1500, Servers=1, Answers=["ok", "chunk", "badch"] if t else ["ok", "badch"], Reqs=["get", "head"] if t else ["get"],
                 MaxCalls=2 if t else 1, MaxReqs=2)
    client(c, "leftovers", FC.leftovers(g, None if t else 1800))


def C19(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "follow", 12000 if t else 1500, Servers=2, Answers=["redir", "ok"], Calls=["follow", "abort"] if t else ["follow"], MaxCalls=2)
    client(c, "requests", FC.requests(g, 6000 if t else 300))
    client(c, "hosts", FC.hosts(g, 200 if t else 25))
    client(c, "redirects", FC.redirects(g, 8000 if t else 700))
    client(c, "unread", FC.unread(g), limit=60)


def C20(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "consume", 8000 if t else 1000, Servers=1, Answers=["ok", "chunk", "eof"], Calls=["consume", "abort"] if t else ["consume"], Reqs=["get"], MaxCalls=2)
    client(c, "bounded", FC.bounded(g, 8000 if t else 800), limit=60)


def C21(c):
    g, t = CGen(c.rng), c.thorough
    client_model(c, "switch", 6000 if t else 800, Servers=1, Answers=["ok", "chunk", "none"], Calls=["abort"], Reqs=["get"])
    client(c, "compressed", FC.compressed(g, t), limit=60)
    client(c, "cuts", FC.compressed_cuts(g))
    client(c, "undecodable", FC.undecodable(g))
    client(c, "mixed", FC.mixed(g, 8000 if t else 400, gz=.7))


# ------------------------------------------------------------------ the service: pool, handlers, files, log
def service(c, family, scripts, **kw):
    c.conform(family, "service_driver", scripts, "TraceHttpService", **dict(dict(limit=60), **kw))


SERVICE_INV = ["NoError", "OneEach", "FreeAgain", "AnnouncedInOrder", "RightAnswers", "OwedAll", "Logged", "NothingLeft"]
LOGS = dict(none=[], done=["done"], trace=["trace"], both=["trace", "done"])


def service_model(c, g, name, replay, transports=("mem", "mem2", "tcp", "local"), **kw):
    """Exhaustive check of the service model; at most replay of its behaviours on the real code."""
    k = dict(MaxClients=2, MaxReqs=1, MaxActs=5, Objects=2, Kinds=["now", "later"], Leaves=["gone"], Cut=False, LogKind="none", Emit=True)
    k.update(kw)
    out = c.model_check("MCHttpService", c.config("MC-" + name, view="Ghost", invariants=SERVICE_INV, constants=k))
    scripts, n = gen_mc.service_scripts(out, g.r, replay, LOGS[k["LogKind"]], transports)
    c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(scripts), n))
    service(c, "model-" + name, scripts)


def C11(c):
    g, t = Gen(c.rng), c.thorough
    service_model(c, g, "clients", 12000 if t else 1500, Kinds=["now", "later", "close"] + (["post", "bad"] if t else []), Leaves=["gone", "half"], MaxReqs=2, MaxActs=6)
    service_model(c, g, "objects", 8000 if t else 600, Kinds=["now", "later"], MaxClients=3, Objects=3, MaxReqs=1, MaxActs=7 if t else 6)
    for tr, n in (("tcp", 3000 if t else 300), ("local", 2000 if t else 200), ("tls", 400 if t else 40), ("mem", 3000 if t else 300), ("mem2", 1000 if t else 100)):
        service(c, "traffic-" + tr, [FS.traffic(g, tr, steps=c.rng.choice([10, 25, 60]), most=c.rng.choice([2, 5, 12])) for _ in range(n)])
    service(c, "waves", [FS.waves(g, c.rng.choice(["tcp", "local", "mem"]), n=c.rng.choice([12, 26, 40, 60]), rounds=c.rng.choice([2, 3, 4])) for _ in range(120 if t else 14)], limit=120)


def C26(c):
    g, t = Gen(c.rng), c.thorough
    service(c, "everywhere", FS.everywhere(lambda g, tr: FS.traffic(g, tr, steps=c.rng.choice([10, 25])), g, 800 if t else 80))
    service(c, "large", FS.everywhere(lambda g, tr: FS.traffic(g, tr, steps=8, most=2, big=True), g, 200 if t else 15))
    service(c, "files", FS.everywhere(lambda g, tr: FA.transfer(g, tr, hold=False), g, 300 if t else 25))


FILES_INV = ["OnlyBelow", "NeverSecret", "OwnPath", "NotThere", "SameWithout", "SameEscaped", "NothingFromNothing"]


def files_model(c, g, segs, depth, rich, replay, per):
    """Every small world against every short path; at most replay of the worlds on the real handler."""
    out = c.model_check("MCFileSpace", c.config("MC-files", invariants=FILES_INV, constants=dict(Segs=segs, MaxSegs=depth, Rich=rich, Emit=True)))
    scripts, n = gen_mc.filespace_scripts(out, g, replay, segs, depth, per)
    c.notes.append("model files: %d of %d worlds replayed, each with %d paths" % (len(scripts), n, sum(o["op"] == "send" for o in scripts[0]["ops"])))
    service(c, "model-files", scripts)


def C12(c):
    g, t = Gen(c.rng), c.thorough
    files_model(c, g, ["a", "b", "..", "", "s"] + ([".", "pq"] if t else []), 3, t, 1500 if t else 150, 400 if t else 60)
    service(c, "direct", FA.all_direct(g))
    service(c, "paths", [FA.file_access(g) for _ in range(8000 if t else 900)])


def C13(c):
    g, t = Gen(c.rng), c.thorough
    service_model(c, g, "files", 8000 if t else 800, Kinds=["file", "now", "later"] + (["head", "close"] if t else []), MaxReqs=2, MaxActs=6 if t else 5)
    service(c, "transfer", [FA.transfer(g) for _ in range(8000 if t else 1200)])
    service(c, "default", [FA.transfer(g, big=True, buf=0, steps=3) for _ in range(150 if t else 12)], limit=120)
    service(c, "etags", [FA.etags(g) for _ in range(4000 if t else 300)])
    service(c, "edits", [FA.edits(g) for _ in range(2000 if t else 200)])


DISPATCH_INV = ["TakenIffAccepted", "SeenIffNotTakenBefore", "NothingAfterTheTaker", "AnsweredOnce", "Readable"]


def dispatch_model(c, g, shapes, pats, replay):
    """Every small tree of handlers against every small request; at most replay of the trees on the real handlers."""
    out = c.model_check("MCDispatch", c.config("MC-" + shapes, invariants=DISPATCH_INV, constants=dict(Shapes=shapes, PatternIds=pats, Emit=True)))
    scripts, n = gen_mc.dispatch_scripts(out, g, replay)
    c.notes.append("model %s: %d of %d trees replayed, each with every request" % (shapes, len(scripts), n))
    service(c, "model-" + shapes, scripts)


def C14(c):
    g, t = Gen(c.rng), c.thorough
    dispatch_model(c, g, "stacks", ["x"], 900 if t else 100)
    dispatch_model(c, g, "nested", ["x", "s", "xs", "xy"] if t else ["x", "s"], 3000 if t else 80)
    dispatch_model(c, g, "routers", ["root", "a", "x", "s", "xs", "sx", "ax", "xy", "st", "xe"][(0 if t else 2):(6 if t else 4)], 5000 if t else 150)
    service(c, "dispatch", [FA.dispatch(g) for _ in range(15000 if t else 1500)])


def C24(c):
    g, t = Gen(c.rng), c.thorough
    service_model(c, g, "log-trace", 8000 if t else 800, Kinds=["now", "later", "close", "lost"] + (["file", "parts"] if t else []), LogKind="both" if t else "trace", MaxReqs=2, MaxActs=6 if t else 5)
    service_model(c, g, "log-done", 8000 if t else 800, Kinds=["now", "later", "bad", "shut"] + (["open", "head"] if t else []), LogKind="done", MaxReqs=2, MaxActs=6 if t else 5)
    service(c, "logged", [FA.logged(g) for _ in range(8000 if t else 1200)])
    service(c, "waves", [FA.logged_waves(g) for _ in range(120 if t else 14)], limit=120)


# ------------------------------------------------------------------ header collections
HEADER_INV = ["FirstIsFirst", "AllInOrder", "HasIffThere", "CaseBlind", "Symmetric", "FoldsRight"]


def C25(c):
    g, t = Gen(c.rng), c.thorough
    hd = dict(driver="header_driver", module="TraceHeaders")
    out = c.model_check("MCHeaders", c.config("MC-headers", view="Ghost", invariants=HEADER_INV, constants=dict(MaxOps=4 if t else 3, Emit=True)))
    hs, n = gen_mc.maximal(gen_mc.read_hists(out), 8000 if t else 800, c.rng)
    c.notes.append("model: %d of %d maximal behaviours replayed" % (len(hs), n))
    c.conform("model", scripts=[FH.of_model(h, c.rng) for h in hs], **hd)
    c.conform("bytes", scripts=FH.pair_scripts(), **hd)
    c.conform("anything", scripts=[FH.anything(c.rng) for _ in range(10000 if t else 800)], **hd)


# ------------------------------------------------------------------ the network access manager
NET_INV = ["NoError", "Truthful", "OnceEach", "OwnServer", "Exclusive", "Rested"]
NOTES = ["meta", "ready", "error", "told", "done"]


def net(c, family, scripts, **kw):
    c.conform(family, "net_driver", scripts, "TraceNetManager", limit=60)


def net_model(c, name, replay, **kw):
    k = dict(dict(MaxReqs=3, MaxAborts=0, MaxEnds=0, Servers=1, Down=False, Kinds=["g1"], Answers=["ok"], Notes=["done"], Split=False, Emit=True), **kw)
    out = c.model_check("MCNetManager", c.config("MC-" + name, view="Ghost", invariants=NET_INV, constants=k))
    hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
    c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
    net(c, "model-" + name, [gen_mc.to_net_script(h, k["Servers"], k["Down"]) for h in hs])


def C22(c):
    g, t = CGen(c.rng), c.thorough
    m = 6000 if t else 900
    if t:
        net_model(c, "order", m, Servers=2, Kinds=["g1", "g2"], Answers=["ok", "close"], MaxEnds=1, Split=True)
    net_model(c, "nested", m, Answers=["ok", "bad"], Notes=NOTES, MaxAborts=2 if t else 1)
    net_model(c, "ends", m, Answers=["eof", "ok"], Notes=["error", "done"], MaxReqs=2, MaxAborts=1, MaxEnds=2, Split=True, Kinds=["g1", "h1"])
    net_model(c, "cookies", m, Servers=2, Kinds=["g1", "h1", "g2"] if t else ["g1", "g2"], Answers=["cookie", "ok"], Notes=["meta", "done"])
    net_model(c, "down", m, Servers=2, Down=True, Kinds=["g1", "g2"], MaxAborts=1, Notes=["error", "told"])
    net(c, "parallel", FN.parallel(g, 8000 if t else 1000))
    net(c, "crowd", FN.parallel(g, 1000 if t else 100, most=30, aborts=.05, ends=.05))
    net(c, "dropped", FN.parallel(g, 3000 if t else 300, drops=1.))
    net(c, "chains", FN.chains(g, 6000 if t else 800))


# ------------------------------------------------------------------ the proxy
PROXY_INV = ["NoError", "Settles", "OwnAnswers", "Alone", "Found"]
FATES = ["", "gone-sending", "gone-waiting", "gone-reading", "gone-idle", "doom", "cut-fin", "cut-rst"]
WRONG = ["twice", "lost", "other", "early", "silent", "method", "short", "mixed", "field", "status", "astray", "hasty", "hang", "noclose", "lazy"]


def proxy(c, family, scripts):
    c.conform(family, "proxy_driver", scripts, "TraceProxy", limit=60)


def proxy_model(c, name, replay, **kw):
    k = dict(dict(Clients=2, MaxReqs=2, Kinds=["g"], Answers=["len"], MaxEnds=0, MaxGone=0, Split=False, Halves=False, Rush=False, Down=False, Faults=[], Emit=replay > 0), **kw)
    out = c.model_check("MCProxy", c.config("MC-" + name, view="Ghost", invariants=PROXY_INV, constants=k))
    if replay:
        hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
        c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
        proxy(c, "model-" + name, [gen_mc.to_proxy_script(h, k["Clients"], k["Down"], c.rng) for h in hs])


def C23(c):
    g, t = CGen(c.rng), c.thorough
    m = 6000 if t else 700
    every = ["len", "chunk", "eof", "none", "bad"]
    proxy_model(c, "kinds", m, Kinds=["g", "h", "p"], Answers=every, Split=True)
    proxy_model(c, "ends", m, Kinds=["g", "p"], Answers=["len", "eof"], Split=True, Halves=True, MaxEnds=1)
    proxy_model(c, "gone", m, Kinds=["g", "h"], Answers=["chunk", "eof"], Split=True, MaxEnds=1, MaxGone=2)
    proxy_model(c, "pipelined", m, Clients=3 if t else 2, MaxReqs=4 if t else 3, Answers=["len", "chunk"], MaxGone=1)
    proxy_model(c, "rush", m, Answers=["len", "chunk"], MaxGone=1, MaxEnds=1, Rush=True)
    proxy_model(c, "down", 300, Down=True, Kinds=["g", "h"], MaxReqs=3, MaxGone=1, Halves=True)
    proxy_model(c, "wrong-gone", 0, Faults=["keepup"], MaxGone=1, Split=True)
    proxy_model(c, "wrong", 0, Faults=WRONG, Kinds=["g", "h", "p"] if t else ["g", "p"], Answers=every if t else ["len", "chunk", "eof"], Split=True, MaxEnds=1 if t else 0)
    proxy(c, "relays", FX.relays(g, 8000 if t else 800))
    proxy(c, "fates", FX.relays(g, 6000 if t else 600, fates=FATES))
    proxy(c, "downs", FX.downs(g, 500 if t else 60))
    proxy(c, "crowds", FX.crowds(g, 1000 if t else 100))


# ------------------------------------------------------------------ client and server
E2E_INV = ["NoError", "Settles", "Truthful", "Once", "KeepAgrees", "KeptAsMeant", "Found"]
E2E_WRONG = ["content", "field", "target", "method", "again", "unseen", "crossed", "code", "unfield", "lost", "other", "failed", "twice", "stale", "silent", "early", "linger"]


def e2e(c, family, scripts, limit=60):
    c.conform(family, "e2e_driver", scripts, "TraceEndToEnd", limit=limit)


def e2e_model(c, name, replay, **kw):
    k = dict(dict(Clients=1, MaxReqs=2, Kinds=["g"], Plans=["len"], MaxAborts=0, MaxClose=0, Nest=[], Pieces=False, Rush=False, Down=False, Timeout=1000000, Faults=[], Emit=replay > 0), **kw)
    out = c.model_check("MCEndToEnd", c.config("MC-" + name, view="Ghost", invariants=E2E_INV, constants=k))
    if replay:
        hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
        c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
        e2e(c, "model-" + name, [gen_mc.to_e2e_script(h, k["Clients"], k["Down"], k["Timeout"], c.rng) for h in hs])


# ------------------------------------------------------------------ scripts
SCRIPT_INV = ["NoError", "Settles", "Answered", "Current", "Steady", "Used", "Given", "Found"]
SCRIPT_WRONG = {"edits": ["newer", "after", "never", "keepold", "silent", "unhandled", "forget"], "steady": ["eager"], "fn": ["keepfn"],
                "behs": ["blank", "stale", "raw", "params", "deaf", "nonerror", "quiet", "pushy", "twice"]}
SCRIPT_BEHS = ["answer", "pass", "later", "error", "throw", "whole", "torn"]


def script(c, family, scripts):
    c.conform(family, "script_driver", scripts, "TraceScript", limit=120)


def script_model(c, name, replay, **kw):
    k = dict(dict(Mode="file", Auto=True, Files=["good"], During=[], MaxEdits=1, MaxReqs=2, Kinds=["g"], Behs=["answer"], Faults=[], Emit=replay > 0), **kw)
    out = c.model_check("MCScript", c.config("MC-" + name, view="Ghost", invariants=SCRIPT_INV, constants=k))
    if replay:
        hs, n = gen_mc.maximal(gen_mc.read_hists(out), replay, c.rng)
        c.notes.append("model %s: %d of %d maximal behaviours replayed" % (name, len(hs), n))
        script(c, "model-" + name, [gen_mc.to_script_script(h, k["Mode"], k["Auto"], c.rng) for h in hs])


def C27(c):
    g, t = Gen(c.rng), c.thorough
    m = 6000 if t else 700
    edits = dict(Files=["good", "syntax", "missing", "number"], During=["local", "empty"], MaxEdits=4, MaxReqs=4 if t else 3)
    behs = dict(Kinds=["g", "h", "q", "p", "c"], Behs=SCRIPT_BEHS, MaxReqs=2)
    steady = dict(Auto=False, Files=["good", "toperror"], During=["later"], MaxEdits=4, MaxReqs=3, Behs=["answer", "throw"])
    fn = dict(Mode="fn", Files=["good", "none", "number"], MaxEdits=3, MaxReqs=3, Kinds=["g", "p"], Behs=["answer", "pass", "error"])
    for name, k in (("edits", edits), ("behs", behs), ("steady", steady), ("fn", fn)):
        script_model(c, name, m, **k)
        script_model(c, name + "-wrong", 0, **dict(k, Faults=SCRIPT_WRONG[name], MaxReqs=min(k["MaxReqs"], 3)))
    script(c, "requests", [FG.requests(g) for _ in range(4000 if t else 400)])
    script(c, "edits", [FG.requests(g, edits=.5, mode="file" if n % 4 else "fn") for n in range(4000 if t else 500)])
    script(c, "failures", [FG.requests(g, fails=.7, edits=.1) for _ in range(2000 if t else 200)])
    script(c, "large", [FG.requests(g, 4, True) for _ in range(500 if t else 50)])


def C28(c):
    g, t = CGen(c.rng), c.thorough
    m = 6000 if t else 700
    kinds, plans = ["g", "h", "p", "c", "e", "bad"], ["len", "zero", "none", "chunk", "open", "fixed", "bye", "redir"]
    e2e_model(c, "shapes", m, Kinds=kinds, Plans=plans, MaxReqs=2)
    e2e_model(c, "pieces", m, Kinds=["g", "h", "p"], Plans=["chunk", "open", "fixed", "len"], Pieces=True, MaxReqs=2, MaxAborts=1)
    e2e_model(c, "nested", m, Kinds=["g", "c"], Plans=["len", "chunk", "redir"], Nest=["ask", "abort", "consume"], MaxReqs=3 if t else 2, MaxAborts=1, Pieces=t)
    e2e_model(c, "breaks", m, Kinds=["g", "p"], Plans=["chunk", "fixed", "open"], Pieces=True, MaxReqs=2, MaxClose=1)
    e2e_model(c, "crowd", m, Clients=2, MaxReqs=3, Plans=["len", "chunk"], Pieces=True, MaxAborts=1 if t else 0)
    e2e_model(c, "rush", m, Clients=2, MaxReqs=2, Plans=["len", "open"], Kinds=["g", "p"], Rush=True, MaxAborts=1)
    e2e_model(c, "down", 200, Kinds=["g", "d"], Plans=["len"], Down=True, MaxReqs=3, MaxAborts=1, Nest=["ask"])
    e2e_model(c, "once", 300, Kinds=["g", "h"], Plans=["len", "chunk"], Timeout=0, MaxReqs=3)
    e2e_model(c, "wrong", 0, Clients=2, Faults=E2E_WRONG, Kinds=["g", "h", "p"] if t else ["g", "p"], Plans=["chunk", "bye"] + (["len", "open"] if t else []), Pieces=True, MaxReqs=2, MaxAborts=1 if t else 0)
    e2e(c, "exchanges", [FE.exchanges(g) for _ in range(6000 if t else 800)])
    e2e(c, "crowds", [FE.crowd(g) for _ in range(6000 if t else 800)])
    e2e(c, "bounded", [FE.bounded(g) for _ in range(3000 if t else 300)])
    e2e(c, "large", [FE.exchanges(g, 4, True) for _ in range(1500 if t else 150)])


CHECKS = {k: v for k, v in globals().items() if k[:1] == "C" and k[1:].isdigit()}
DRIVERS = ["conn_driver", "client_driver", "service_driver", "header_driver", "net_driver", "proxy_driver", "e2e_driver", "script_driver"]
SUBJECT = {k: "the server connection" for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")}
SUBJECT["C10"] = "request targets and parameters"

SUBJECT.update({k: "the client, the servers it talks to and the response grammar" for k in ("C15", "C16", "C17", "C18", "C19", "C20", "C21")})
SUBJECT.update({k: "the service: connections, connection pool, handlers, published files and logs" for k in ("C11", "C12", "C13", "C14", "C24", "C26")})
SUBJECT["C25"] = "header collections and their lookups"
SUBJECT["C22"] = "the network access manager: replies, connections and cookies"
SUBJECT["C23"] = "the proxy: clients, the proxied server and what is passed between them"
SUBJECT["C28"] = "clients and servers of the library talking to each other"
SUBJECT["C27"] = "requests handled by scripts and the files the scripts come from"
