----------------------------- MODULE HttpService -----------------------------
(***************************************************************************)
(* A server with its clients and its tree of handlers, as a state machine  *)
(* over a record S.  Every client has a connection of its own, which is an *)
(* HttpConnection record; connection objects (k) are bound to clients when *)
(* the first request is announced and free again after the close.  What a  *)
(* handler of the library does is part of the specification (Plan); probes *)
(* are handlers of the test application, whose calls are events.           *)
(***************************************************************************)
EXTENDS HttpConnection, FileSpace, Routes

Client0 == [x |-> Initialize(Fresh), k |-> 0,
            gone |-> FALSE,      \* the peer has left: nothing is owed to it any more
            how |-> "",
            lossy |-> FALSE,     \* closed by the application: output may be discarded
            eof |-> FALSE,       \* the peer has seen the end of the connection
            stream |-> FALSE,    \* a file is on its way, its completion waits for the output to drain
            olds |-> FALSE,      \* ... and has been so since the last time things were idle
            news |-> 0,          \* requests announced since then (and calls made, twice)
            etag |-> <<>>,       \* contents of the answers whose entity tag is still to be learnt
            buf |-> 0]           \* transfer buffer of the stream

S0 == [cl |-> <<>>, tree |-> [t |-> "stack", kids |-> <<>>], modes |-> <<>>, dead |-> {}, fs |-> FsRoot, frames |-> <<>>,
       etags |-> <<>>,           \* <<content, tag>> pairs learnt so far
       due |-> <<>>, got |-> <<>>, \* per log: lines owed and lines written
       seen |-> {},              \* connection objects that have passed the logs
       err |-> ""]

Bad(S, why) == [S EXCEPT !.err = why]
Clients(S) == 1..Len(S.cl)
BoundTo(S, k) == {c \in Clients(S) : S.cl[c].k = k}
TheOne(set) == CHOOSE c \in set : \A d \in set : c <= d
SetX(S, c, x) == IF x.err # "" THEN Bad([S EXCEPT !.cl[c].x = x], x.err) ELSE [S EXCEPT !.cl[c].x = x]

----------------------------------------------------------------------------
(* Handlers *)
nIfNoneMatch == B("if-none-match")
hETag == B("ETag")
hAllow == B("Allow")
nETag == B("etag")
tMethodParam == B("_method")
Missing1 == B("The requested resource '")
Missing2 == B("' does not exist on this server")
AnyValue == <<Run(0, 1)>>                 \* stands for an entity tag that is not known yet

KnownTag(S, c) == LET is == {i \in 1..Len(S.etags) : S.etags[i][1] = c} IN
                  IF is = {} THEN <<>> ELSE <<S.etags[TheOne(is)][2]>>

Answer(s, h, c) == [t |-> "call", e |-> [op |-> "wr", s |-> s, h |-> h, c |-> c]]
DefaultBuffer == 524288
JoinComma(l) == IF l = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, m : CatAll(<<a, B(", "), m>>), l[1], Tail(l))

FilePlan(S, n, r) ==
  LET f == Published(S.fs, n.root, r.p)
      cap == IF n.buf = 0 THEN DefaultBuffer ELSE n.buf
      type == <<hContentType, MediaType(PercentDecode(r.p))>>
      inm == FirstValue(r.h, nIfNoneMatch)
      tag == KnownTag(S, f.c)
  IN IF ~f.ok THEN [steps |-> <<>>, ret |-> FALSE]
     ELSE IF Size(f.c) > cap
          THEN [steps |-> <<[t |-> "file", c |-> f.c, buf |-> IF cap < 512 THEN 512 ELSE cap,
                             h |-> <<type, <<hContentLength, Dec(Size(f.c))>>>>]>>, ret |-> TRUE]
     ELSE IF tag # <<>> /\ inm = tag[1] THEN [steps |-> <<Answer(304, <<>>, <<>>)>>, ret |-> TRUE]
     ELSE [steps |-> <<[t |-> "tagged", c |-> f.c, tag |-> tag, h |-> <<type>>]>>, ret |-> TRUE]

(* What handing request r (with parameters ps) to handler n does. *)
RECURSIVE Plan(_, _, _, _)
Plan(S, n, r, ps) ==
  CASE n.t = "probe"  -> IF n.id \in S.dead THEN [steps |-> <<>>, ret |-> FALSE, ps |-> ps]
                         ELSE [steps |-> <<[t |-> "offer", id |-> n.id]>>, ret |-> n.acc, ps |-> ps]
    [] n.t = "none"   -> [steps |-> <<>>, ret |-> FALSE, ps |-> ps]
    [] n.t = "fixed"  -> [steps |-> <<Answer(n.s, <<>>, n.c)>>, ret |-> TRUE, ps |-> ps]
    [] n.t = "static" -> [steps |-> <<Answer(n.s, n.h, n.c)>>, ret |-> TRUE, ps |-> ps]
    [] n.t = "404"    -> [steps |-> <<Answer(404, <<>>, CatAll(<<Missing1, r.p, Missing2>>))>>, ret |-> TRUE, ps |-> ps]
    [] n.t = "log"    -> [steps |-> <<[t |-> "log", n |-> n.n]>>, ret |-> FALSE, ps |-> ps]
    [] n.t = "file"   -> LET f == FilePlan(S, n, r) IN [steps |-> f.steps, ret |-> f.ret, ps |-> ps]
    [] n.t = "stack"  -> FoldLeft(LAMBDA a, kid : IF a.ret THEN a
                                                  ELSE LET p == Plan(S, kid, r, a.ps) IN
                                                       [steps |-> a.steps \o p.steps, ret |-> p.ret, ps |-> p.ps],
                                  [steps |-> <<>>, ret |-> FALSE, ps |-> ps], n.kids)
    [] n.t = "router" ->
         LET mp == GetParam(ps, tMethodParam)
             m == IF n.mp /\ mp # <<>> THEN mp ELSE r.m
             d == Route(n.routes, m, PercentDecode(r.p))
         IN IF d.k = "route"
            THEN LET ps1 == FoldLeft(LAMBDA a, b : SetParam(a, b[1], b[2]), ps, d.b)
                     p == Plan(S, n.routes[d.i].to, r, ps1)
                 IN [steps |-> <<[t |-> "params", ps |-> ps1]>> \o p.steps, ret |-> p.ret, ps |-> p.ps]
            ELSE IF d.k = "none" /\ n.un THEN [steps |-> <<Answer(404, <<>>, <<>>)>>, ret |-> TRUE, ps |-> ps]
            ELSE IF d.k = "method" /\ n.mm
                 THEN [steps |-> <<Answer(405, <<<<hAllow, JoinComma(d.ms)>>>>, <<>>)>>, ret |-> TRUE, ps |-> ps]
            ELSE [steps |-> <<>>, ret |-> FALSE, ps |-> ps]

(* Lines owed to the logs *)
Line(kind, r, code, len) == [k |-> kind, m |-> r.m, u |-> r.u, v |-> r.v, code |-> code, len |-> len, opt |-> FALSE]
Owe(S, n, l) == [S EXCEPT !.due[n] = Append(@, l)]
OweAll(S, k, mode, l) ==
  FoldLeft(LAMBDA a, n : IF <<k, n>> \in S.seen /\ mode[S.modes[n]] THEN Owe(a, n, l) ELSE a, S, [n \in 1..Len(S.modes) |-> n])
Both == [trace |-> TRUE, done |-> TRUE]
TraceOnly == [trace |-> TRUE, done |-> FALSE]

Streamed(cl, st, buf) ==
  LET x1 == WriteHeaders(cl.x, 200, st.h, [len |-> -1, text |-> <<>>]) IN
  IF x1.st = "completing" THEN [cl EXCEPT !.x = x1]
  ELSE [cl EXCEPT !.x = [x1 EXCEPT !.exp = AddLit(@, st.c), !.resp.sent = Size(st.c), !.st = "completing"],
                  !.stream = TRUE, !.buf = buf]

Exec(S, c, st) ==
  LET cl == S.cl[c] IN
  CASE st.t = "call"   -> SetX(S, c, Call(cl.x, st.e))
    [] st.t = "params" -> [S EXCEPT !.cl[c].x.params = st.ps]
    [] st.t = "file"   -> IF cl.x.st # "sh" THEN S ELSE [S EXCEPT !.cl[c] = Streamed(cl, st, st.buf)]
    [] st.t = "tagged" -> IF cl.x.st # "sh" THEN S
                          ELSE LET h == Append(st.h, <<hETag, IF st.tag = <<>> THEN AnyValue ELSE st.tag[1]>>)
                                   S1 == SetX(S, c, Call(cl.x, [op |-> "wr", s |-> 200, h |-> h, c |-> st.c]))
                               IN IF st.tag = <<>> THEN [S1 EXCEPT !.cl[c].etag = Append(@, st.c)] ELSE S1
    [] st.t = "log"    -> LET k == cl.k S1 == [S EXCEPT !.seen = @ \cup {<<k, st.n>>}] IN
                          IF S.modes[st.n] = "trace" THEN Owe(S1, st.n, Line("[BEGIN] ", cl.x.req, -1, -1)) ELSE S1

(* Do everything the library does by itself up to the next visible step. *)
RECURSIVE Advance(_)
Advance(S) ==
  IF S.err # "" \/ S.frames = <<>> THEN S
  ELSE LET f == S.frames[Len(S.frames)] IN
       IF f.offer \/ f.steps = <<>> \/ f.steps[1].t = "offer" THEN S
       ELSE Advance(Exec([S EXCEPT !.frames[Len(S.frames)].steps = Tail(@)], f.c, f.steps[1]))

Top(S) == S.frames[Len(S.frames)]

----------------------------------------------------------------------------
(* Connections *)
ReadyS(S, e) ==
  LET b == {c \in BoundTo(S, e.k) : S.cl[c].x.st # "closed"}
      free == {c \in Clients(S) : S.cl[c].k = 0 /\ S.cl[c].x.st = "recv"}
      mine == {c \in free : Verdict(S.cl[c].x) = "ready"}
      same == {c \in mine : SameRequest(RequestOf(S.cl[c].x), e)}
      c == IF b # {} THEN TheOne(b) ELSE TheOne(same)
      \* the client this request really belongs to, if it is not the one the connection object serves
      other == {d \in Clients(S) : d # c /\ S.cl[d].x.st = "recv" /\ Verdict(S.cl[d].x) = "ready" /\ SameRequest(RequestOf(S.cl[d].x), e)}
  IN IF b = {} /\ same = {} THEN Bad(S, IF mine = {} THEN "request announced although no client has made one"
                                        ELSE IF Cardinality(mine) = 1 THEN "request delivered with wrong "
                                                \o DiffRequest(RequestOf(S.cl[TheOne(mine)].x), e)
                                        ELSE "a request announced that no client has made")
     ELSE LET x1 == ReadyCore(S.cl[c].x, e) IN
          IF x1.err # "" /\ other # {} THEN Bad(S, "request announced on the connection of another client")
          ELSE IF x1.err # "" THEN Bad(S, x1.err)
          ELSE IF e.ps # x1.params THEN Bad(S, "wrong request parameters")
          ELSE LET S1 == [S EXCEPT !.cl[c].x = x1, !.cl[c].k = e.k, !.cl[c].news = @ + 1]
                   p == Plan(S1, S.tree, x1.req, x1.params)
               IN Advance([S1 EXCEPT !.frames = Append(@, [k |-> e.k, c |-> c, steps |-> p.steps, ret |-> p.ret, offer |-> FALSE])])

Offer(S, e) ==
  IF S.frames = <<>> THEN Bad(S, "handler called without a request")
  ELSE LET f == Top(S) IN
       IF f.k # e.k THEN Bad(S, "handler called with the wrong connection")
       ELSE IF f.steps = <<>> THEN Bad(S, "handler called although the request was already taken or is for nobody")
       ELSE IF f.steps[1].t # "offer" \/ f.steps[1].id # e.id THEN Bad(S, "wrong handler called")
       ELSE IF e.ps # S.cl[f.c].x.params THEN Bad(S, "wrong route parameters")
       ELSE [S EXCEPT !.frames[Len(S.frames)] = [@ EXCEPT !.steps = Tail(@), !.offer = TRUE]]

EndOffer(S, e) ==
  IF S.frames = <<>> THEN Bad(S, "no handler is running") ELSE Advance([S EXCEPT !.frames[Len(S.frames)].offer = FALSE])

Handled(S, e) ==
  IF S.frames = <<>> THEN Bad(S, "no request was being handled")
  ELSE LET f == Top(S) x == S.cl[f.c].x S1 == [S EXCEPT !.frames = SubSeq(@, 1, Len(@)-1)] IN
       IF f.steps # <<>> THEN Bad(S, "a handler that had to see the request did not")
       ELSE IF f.ret # e.ret THEN Bad(S, IF e.ret THEN "request taken although no handler accepts it" ELSE "request declined although a handler accepts it")
       ELSE IF ~S.cl[f.c].gone /\ ~S.cl[f.c].stream /\ S.cl[f.c].k = f.k /\ x.st \in {"completing", "closing"}
            THEN Bad(S, "the end of the response was not announced")
       ELSE S1

CallS(S, e) ==
  LET b == BoundTo(S, e.k) IN
  IF b = {} THEN S
  ELSE LET c == TheOne(b) x == S.cl[c].x IN
       IF e.op = "close" THEN [S EXCEPT !.cl[c].x.st = "closing", !.cl[c].lossy = TRUE]
       ELSE IF x.st \in {"completing", "closing"} THEN S        \* inert
       ELSE SetX([S EXCEPT !.cl[c].news = @ + 2], c, Call(x, e))   \* its output is not only the file's
RetS(S, e) ==
  LET b == BoundTo(S, e.k) IN
  IF b = {} THEN S
  ELSE LET c == TheOne(b) IN
       IF S.cl[c].gone \/ S.cl[c].stream THEN S ELSE LET x1 == Ret(S.cl[c].x) IN IF x1.err # "" THEN Bad(S, x1.err) ELSE S

CompletedS(S, e) ==
  LET b == BoundTo(S, e.k) IN
  IF b = {} THEN Bad(S, "completion announced on an idle connection object")
  ELSE LET c == TheOne(b) x1 == CompletedCore(S.cl[c].x, e) IN
       IF x1.err # "" THEN Bad(S, x1.err)
       ELSE OweAll([S EXCEPT !.cl[c].x = x1, !.cl[c].stream = FALSE],
                   e.k, Both, Line("", x1.req, e.code, e.len))

EndCompletedS(S, e) ==
  LET b == BoundTo(S, e.k) IN
  IF b = {} THEN S ELSE LET c == TheOne(b) IN SetX(S, c, EndCompleted(S.cl[c].x))

ClosedS(S, e) ==
  LET b == BoundTo(S, e.k)
      l == [Line("[CLOSE] ", NoReq, -1, -1) EXCEPT !.opt = (b = {})]
      S1 == OweAll(S, e.k, TraceOnly, l)
  IN IF b = {} THEN S1                             \* the end of a connection that never announced anything
     ELSE LET c == TheOne(b) x == S.cl[c].x IN
          IF ~S.cl[c].gone /\ x.st \notin {"closing", "flush"} THEN Bad(S, "connection closed although it should stay open")
          ELSE [S1 EXCEPT !.cl[c].x.st = "closed", !.cl[c].k = 0, !.cl[c].stream = FALSE, !.cl[c].olds = FALSE]

----------------------------------------------------------------------------
(* Everything is quiet: all that is due has happened. *)
FillTag(hs, tag) == [i \in 1..Len(hs) |-> IF hs[i][2] = AnyValue THEN <<hs[i][1], tag>> ELSE hs[i]]
IsTagged(it) == it.t = "head" /\ \E i \in 1..Len(it.hs) : it.hs[i][2] = AnyValue

(* Learn the entity tags of the answers in order, then compare. *)
RECURSIVE Learn(_, _, _, _, _)
Learn(items, x, contents, tags, done) ==
  IF items = <<>> THEN [why |-> IF x = <<>> THEN "" ELSE "unexpected bytes on the wire", tags |-> tags]
  ELSE IF IsTagged(items[1]) THEN
       LET d == DecodeHead(x)
           vs == IF d.ok THEN ValuesOf(d.hs, nETag) ELSE <<>>
           known == {i \in 1..Len(tags) : tags[i][1] = contents[1]}
           same == {i \in 1..Len(tags) : vs # <<>> /\ tags[i][2] = vs[1]}
       IN IF Len(vs) # 1 THEN [why |-> "no entity tag with the file", tags |-> tags]
          ELSE IF vs[1] = <<>> THEN [why |-> "empty entity tag", tags |-> tags]
          ELSE IF known # {} /\ tags[TheOne(known)][2] # vs[1] THEN [why |-> "the entity tag of a content changed", tags |-> tags]
          ELSE IF known = {} /\ same # {} THEN [why |-> "two contents share an entity tag", tags |-> tags]
          ELSE LET m == MatchItem([items[1] EXCEPT !.hs = FillTag(@, vs[1])], x) IN
               IF ~m.ok THEN [why |-> m.why, tags |-> tags]
               ELSE Learn(Tail(items), m.rest, Tail(contents), IF known = {} THEN Append(tags, <<contents[1], vs[1]>>) ELSE tags, done)
  ELSE LET m == MatchItem(items[1], x) IN
       IF m.ok THEN Learn(Tail(items), m.rest, contents, tags, done) ELSE [why |-> m.why, tags |-> tags]

Settle(S, c, e) ==
  LET cl == S.cl[c] x == cl.x
      w == Learn(x.exp, x.act, cl.etag, S.etags, FALSE)
      S1 == [S EXCEPT !.etags = w.tags,
                      !.cl[c] = IF OpenChunk(x.exp) THEN cl
                                ELSE [cl EXCEPT !.x.exp = <<>>, !.x.act = <<>>, !.etag = <<>>]]
  IN IF cl.gone THEN (IF cl.k # 0 THEN Bad(S, "connection not closed although its peer has left")
                      ELSE IF cl.how = "half" /\ ~cl.eof THEN Bad(S, "connection not closed although its peer has left")
                      ELSE S)
     ELSE IF c \in {e.busy[i] : i \in 1..Len(e.busy)} THEN [S EXCEPT !.cl[c].olds = cl.stream, !.cl[c].news = 0]
     ELSE IF w.why # "" /\ ~cl.lossy THEN Bad(S, w.why)
     ELSE IF x.st = "recv" /\ Verdict(x) = "ready" THEN Bad(S, "complete request not announced")
     ELSE IF x.st \in {"completing"} THEN Bad(S, "complete response not announced")
     ELSE IF x.st = "closing" THEN Bad(S, "close not announced")
     ELSE IF x.st \in {"flush", "closed"} /\ ~cl.eof THEN Bad(S, "connection not closed after its output was delivered")
     ELSE IF x.st = "flush" /\ cl.k # 0 THEN Bad(S, "close not announced")
     ELSE IF x.st = "flush" THEN [S1 EXCEPT !.cl[c].x.st = "closed"]
     ELSE IF x.st # "closed" /\ cl.eof THEN Bad(S, "connection closed although it should stay open")
     ELSE [S1 EXCEPT !.cl[c].news = 0, !.cl[c].olds = FALSE]

(* The queue of a client whose output is held back: q = [c, before, peak]. *)
QueueOK(S, q) ==
  LET cl == S.cl[q[1]]
      full == IF q[2] > cl.buf THEN q[2] ELSE cl.buf
  IN IF cl.olds /\ cl.news = 0 THEN q[3] <= full               \* nothing but the file was written
     ELSE IF cl.stream /\ cl.news = 1 THEN q[3] <= full + 1024  \* the head of its response as well
     ELSE TRUE

tMid == B("] \"")
NumByte(b) == IsDigit(b) \/ b = 46
LineFits(l, d) ==
  LET k == FindText(d, tMid)
      tail == Drop(d, k + Size(tMid))
      want == CatAll(<<l.m, Space, l.u, Space, l.v, B("\" "), Dec(IF l.code < 0 THEN 0 ELSE l.code), Space,
                       IF l.len < 0 THEN B("-1") ELSE Dec(l.len), Space>>)
      begin == CatAll(<<l.m, Space, l.u, Space, l.v, B("\" - - -")>>)
  IN k >= 0 /\
     CASE l.k = "[BEGIN] " -> IsPrefixOf(B("[BEGIN] "), d) /\ tail = begin
       [] l.k = "[CLOSE] " -> IsPrefixOf(B("[CLOSE] "), d)
       [] OTHER -> /\ (IsPrefixOf(B("[ END ] "), d) <=> l.k = "[ END ] ")
                   /\ IsPrefixOf(want, tail)
                   /\ LET t == Drop(tail, Size(want)) IN t # <<>> /\ \A i \in 1..Len(t) : NumByte(RunByte(t[i]))
RECURSIVE LinesFit(_, _)
LinesFit(due, got) ==
  IF due = <<>> THEN (IF got = <<>> THEN "" ELSE "a log line too many")
  ELSE IF due[1].opt /\ (got = <<>> \/ ~LineFits(due[1], got[1])) THEN LinesFit(Tail(due), got)
  ELSE IF got = <<>> THEN "a log line is missing"
  ELSE IF ~LineFits(due[1], got[1]) THEN "wrong log line"
  ELSE LinesFit(Tail(due), Tail(got))
CheckLogs(S) ==
  LET kind(n, l) == IF l.k = "" /\ S.modes[n] = "trace" THEN [l EXCEPT !.k = "[ END ] "] ELSE l
      bad == {n \in 1..Len(S.modes) : LinesFit([i \in 1..Len(S.due[n]) |-> kind(n, S.due[n][i])], S.got[n]) # ""}
  IN IF bad = {} THEN [S EXCEPT !.due = [n \in 1..Len(S.modes) |-> <<>>], !.got = [n \in 1..Len(S.modes) |-> <<>>]]
     ELSE LET n == TheOne(bad) IN Bad(S, LinesFit([i \in 1..Len(S.due[n]) |-> kind(n, S.due[n][i])], S.got[n]))

IdleS(S, e) ==
  IF \E i \in 1..Len(e.q) : ~QueueOK(S, e.q[i]) THEN Bad(S, "more than the transfer buffer in the output queue")
  ELSE IF S.frames # <<>> THEN Bad(S, "handler did not return")
  ELSE CheckLogs(FoldLeft(LAMBDA a, c : IF a.err # "" THEN a ELSE Settle(a, c, e), S, [c \in 1..Len(S.cl) |-> c]))

----------------------------------------------------------------------------
SetNode(fs, p, n) == IF n.t = "x" THEN [q \in {q \in DOMAIN fs : Len(q) < Len(p) \/ SubSeq(q, 1, Len(p)) # p} |-> fs[q]]
                     ELSE (p :> n) @@ fs

ApplyService(S, e) ==
  CASE e.e = "cfg"    -> [S EXCEPT !.tree = e.tree, !.modes = e.logs, !.due = [n \in 1..Len(e.logs) |-> <<>>],
                                   !.got = [n \in 1..Len(e.logs) |-> <<>>]]
    [] e.e = "fs"     -> [S EXCEPT !.fs = SetNode(@, e.p, e.n)]
    [] e.e = "kill"   -> [S EXCEPT !.dead = @ \cup {e.id}]
    [] e.e = "open"   -> IF e.c # Len(S.cl) + 1 THEN Bad(S, "driver: clients are numbered in order") ELSE [S EXCEPT !.cl = Append(@, Client0)]
    [] e.e = "arrive" -> [S EXCEPT !.cl[e.c].x = Arrive(@, e.d)]
    [] e.e = "peer"   -> [S EXCEPT !.cl[e.c].gone = TRUE, !.cl[e.c].how = e.how]
    [] e.e = "recv"   -> IF S.cl[e.c].gone THEN S ELSE [S EXCEPT !.cl[e.c].x.act = Cat(@, e.d)]
    [] e.e = "eof"    -> [S EXCEPT !.cl[e.c].eof = TRUE]
    [] e.e = "ready"  -> ReadyS(S, e)
    [] e.e = "offer"  -> Offer(S, e)
    [] e.e = "endoffer" -> EndOffer(S, e)
    [] e.e = "handled" -> Handled(S, e)
    [] e.e = "call"   -> CallS(S, e)
    [] e.e = "ret"    -> RetS(S, e)
    [] e.e = "completed" -> CompletedS(S, e)
    [] e.e = "endcompleted" -> EndCompletedS(S, e)
    [] e.e = "closed" -> ClosedS(S, e)
    [] e.e = "log"    -> [S EXCEPT !.got[e.n] = Append(@, e.d)]
    [] e.e = "idle"   -> IdleS(S, e)
    [] e.e = "drain"  -> S
=============================================================================
