----------------------------- MODULE HttpClient -----------------------------
(***************************************************************************)
(* Pillow::HttpClient as its user and the servers it talks to see it.      *)
(*                                                                         *)
(* The application's calls (req, abort, follow, consume), what the servers *)
(* do (send, fin, rst) and the passing of time are inputs; notifications   *)
(* (headers, data, finished), connections opened and closed and bytes sent *)
(* are what must be exactly right.  Apply(s, e) is the next state, or one  *)
(* whose err says what was wrong with e.                                   *)
(***************************************************************************)
EXTENDS ResponseGrammar

NoConn == [id |-> 0, srv |-> 0, open |-> FALSE, ok |-> FALSE, old |-> FALSE, junk |-> FALSE, mute |-> FALSE]
cFresh == [err |-> "", auth |-> <<>>, down |-> {}, timeout |-> -1, limit |-> 0,
          pend |-> <<>>, conn |-> NoConn, fresh |-> FALSE, rx |-> <<>>, eof |-> "", lossy |-> FALSE, got |-> <<>>,
          a |-> [q |-> "head", head |-> FALSE], hdr |-> FALSE, taken |-> <<>>, aborting |-> FALSE,
          lastreq |-> <<>>, last |-> [code |-> 0, hs |-> <<>>, raw |-> <<>>, dec |-> FALSE, whole |-> FALSE],
          body |-> <<>>, codings |-> {}, opens |-> <<>>, touched |-> {}, vague |-> FALSE, depth |-> 0, stale |-> <<>>, breaks |-> {}]

CFail(s, why) == [s EXCEPT !.err = why]

cnHost == B("host")
cnLocation == B("location")
cnEncoding == B("content-encoding")
cGzip == B("gzip")
cHead == B("HEAD")
cPost == B("POST")
cSlash == B("/")
cHttp == B("http://")
cHttpLine == B(" HTTP/1.1")
CSp == <<Run(SP, 1)>>

RedirectCodes == {300, 301, 302, 303, 307}

Pending(s) == s.pend # <<>>
Req1(s) == s.pend[1]

(* ---- the body as the application is to see it --------------------------*)
IsGzip(hs) == RHas(hs, cnEncoding, cGzip)
PlainOf(s, raw) == LET m == {c \in s.codings : c.raw = raw} IN
                   IF m = {} THEN <<>> ELSE <<(CHOOSE c \in m : TRUE).plain>>
(* the complete decoded body of a complete answer                          *)
FullBody(s, a) == IF ~IsGzip(a.hs) THEN a.raw
                  ELSE LET p == PlainOf(s, a.raw) IN IF p # <<>> THEN p[1] ELSE a.raw
(* may x be what was reported so far of an answer?                         *)
Reported(s, x) ==
  LET a == s.a IN
  IF ~a.head THEN x = <<>>
  ELSE IF ~IsGzip(a.hs) THEN IsPrefixOf(x, a.raw)
  ELSE \/ IsPrefixOf(x, a.raw)
       \/ \E c \in s.codings : IsPrefixOf(a.raw, c.raw) /\ IsPrefixOf(x, c.plain)

(* ---- starting an exchange ----------------------------------------------*)
Reusable(s, srv) == s.conn.id # 0 /\ s.conn.open /\ s.conn.ok /\ s.conn.srv = srv /\ ~s.conn.old

(* connections the client has no more use for and must have closed         *)
DoneWith(s) == IF s.conn.id # 0 /\ s.conn.open /\ ~s.conn.mute THEN s.breaks \cup {s.conn.id} ELSE s.breaks

StartRequest(s, r) ==
  LET reuse == Reusable(s, r.s) IN
  [s EXCEPT !.pend = <<r>>, !.lastreq = <<r>>, !.rx = <<>>, !.eof = "", !.lossy = FALSE, !.got = <<>>, !.a = [q |-> "head", head |-> FALSE],
            !.hdr = FALSE, !.stale = IF s.depth > 0 THEN s.body ELSE <<>>, !.taken = <<>>, !.body = <<>>, !.aborting = FALSE, !.fresh = ~reuse,
            !.conn = IF reuse THEN [@ EXCEPT !.junk = FALSE] ELSE NoConn,
            !.breaks = IF reuse THEN @ ELSE DoneWith(s),
            !.opens = IF reuse THEN @ ELSE Append(@, r.s),
            !.touched = IF reuse THEN @ \cup {s.conn.id} ELSE @]

(* a redirection target: [ok, s, t] *)
PathStart(x) == LET at == {FindByte(x, 47), FindByte(x, 63), FindByte(x, 35)} \ {-1} IN
                IF at = {} THEN -1 ELSE CHOOSE k \in at : \A j \in at : k <= j
ServerOf(s, auth) == LET m == {i \in 1..Len(s.auth) : s.auth[i] = auth} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
Resolve(s, r, loc) ==
  IF IsPrefixOf(cHttp, loc)
  THEN LET y == Drop(loc, 7) k == PathStart(y) IN
       IF k < 0 THEN [s |-> ServerOf(s, y), t |-> <<>>] ELSE [s |-> ServerOf(s, Take(y, k)), t |-> Drop(y, k)]
  ELSE [s |-> r.s, t |-> loc]                      \* only absolute paths are used

CallReq(s, e) == IF Pending(s) THEN s
                 ELSE StartRequest(s, [m |-> e.m, s |-> e.s, t |-> e.t, h |-> e.h, d |-> e.d])
CallFollow(s) ==
  IF Pending(s) \/ s.lastreq = <<>> \/ s.last.code \notin RedirectCodes THEN s
  ELSE LET l == RValues(s.last.hs, cnLocation) IN
       IF l = <<>> \/ l[1] = <<>> THEN s
       ELSE LET r == s.lastreq[1] n == Resolve(s, r, l[1]) IN StartRequest(s, [r EXCEPT !.s = n.s, !.t = n.t])
CallAbort(s) == LET s1 == [s EXCEPT !.conn.open = FALSE, !.breaks = DoneWith(s)] IN
                IF Pending(s) THEN [s1 EXCEPT !.aborting = TRUE] ELSE s1

CCall(s, e) ==
  IF s.aborting THEN CFail(s, "call made before the due notification")
  ELSE CASE e.op = "req" -> CallReq(s, e)
         [] e.op = "follow" -> CallFollow(s)
         [] e.op = "abort" -> CallAbort(s)
         [] e.op = "timeout" -> [s EXCEPT !.timeout = e.n]
         [] e.op = "limit" -> [s EXCEPT !.limit = e.n]
CRet(s) == IF s.aborting THEN CFail(s, "abort not announced") ELSE s

(* ---- notifications -----------------------------------------------------*)
ErrOf == [none |-> 0, network |-> 1, invalid |-> 2, closed |-> 3, aborted |-> 4]

CHeaders(s, e) ==
  IF ~Pending(s) THEN CFail(s, "headers announced without a request")
  ELSE IF s.aborting THEN CFail(s, "headers announced for an aborted request")
  ELSE IF s.hdr THEN CFail(s, "headers announced twice")
  ELSE IF ~s.a.head THEN CFail(s, "headers announced before they arrived")
  ELSE IF e.code # s.a.code THEN CFail(s, "wrong status code")
  ELSE IF e.h # s.a.hs THEN CFail(s, "wrong response headers")
  ELSE IF e.c # <<>> THEN CFail(s, "content announced with the headers")
  ELSE [s EXCEPT !.hdr = TRUE]

Bounded(s, c) == s.limit = 0 \/ IsGzip(s.a.hs) \/ Size(c) <= s.limit

CData(s, e) ==
  IF ~Pending(s) \/ s.aborting THEN CFail(s, "data announced without a request")
  ELSE IF ~s.hdr THEN CFail(s, "data announced before the headers")
  ELSE IF ~Reported(s, Cat(s.taken, e.c)) THEN CFail(s, "wrong content announced")
  ELSE IF ~Bounded(s, e.c) THEN CFail(s, "more content held than the limit allows")
  ELSE [s EXCEPT !.body = e.c]

CConsume(s, e) ==
  IF Pending(s) THEN
     IF s.stale # <<>> /\ e.c = s.stale THEN [s EXCEPT !.stale = <<>>]   \* the request starts once the notification is over
     ELSE IF ~Reported(s, Cat(s.taken, e.c)) THEN CFail(s, "wrong content consumed")
     ELSE [s EXCEPT !.taken = Cat(@, e.c), !.body = <<>>]
  ELSE IF e.c # s.body THEN CFail(s, "wrong content consumed after the end") ELSE [s EXCEPT !.body = <<>>]

Truncated(s) == s.eof # "" /\ s.a.q \in {"head", "body"}
CFinished(s, e) ==
  LET over == [s EXCEPT !.pend = <<>>, !.aborting = FALSE, !.conn.open = FALSE, !.body = e.c,
                        !.last = [code |-> 0, hs |-> <<>>, raw |-> <<>>, dec |-> FALSE, whole |-> FALSE],
                        !.breaks = DoneWith(s)]
  IN IF ~Pending(s) THEN CFail(s, "finish announced without a request")
     ELSE IF s.aborting THEN IF e.err # ErrOf.aborted THEN CFail(s, "aborted request finished as something else") ELSE over
     ELSE IF s.a.q = "done" /\ s.lossy /\ e.err \in {ErrOf.closed, ErrOf.network} THEN over
     ELSE IF s.a.q = "done" THEN
          IF e.err # ErrOf.none THEN CFail(s, "complete response reported as failed")
          ELSE IF ~s.hdr THEN CFail(s, "finished before the headers were announced")
          ELSE IF e.code # s.a.code THEN CFail(s, "finished with the wrong status code")
          ELSE IF e.h # s.a.hs \o s.a.tr THEN CFail(s, "finished with the wrong headers")
          ELSE IF Cat(s.taken, e.c) # FullBody(s, s.a)
                  THEN CFail(s, "finished with the wrong content")
          ELSE IF ~Bounded(s, e.c) THEN CFail(s, "more content held than the limit allows")
          ELSE LET keep == s.conn.open /\ s.a.ka /\ s.timeout # 0 IN
               [over EXCEPT !.last = [code |-> s.a.code, hs |-> s.a.hs, raw |-> s.a.raw, dec |-> FALSE, whole |-> TRUE],
                            !.conn = [s.conn EXCEPT !.open = keep, !.ok = s.a.ka, !.old = FALSE, !.junk = s.a.rest # <<>>],
                            !.breaks = IF keep THEN s.breaks ELSE over.breaks]
     ELSE IF s.a.q = "bad" THEN
          IF e.err # ErrOf.invalid THEN CFail(s, "malformed response not reported as such") ELSE over
     ELSE IF s.eof # "" THEN
          IF e.err = ErrOf.closed \/ (s.eof = "rst" /\ e.err = ErrOf.network) THEN over
          ELSE CFail(s, "lost connection not reported as such")
     ELSE IF s.fresh /\ Req1(s).s \in s.down THEN
          IF e.err # ErrOf.network THEN CFail(s, "refused connection not reported as such") ELSE over
     ELSE CFail(s, "finished although the response is still awaited")

(* ---- what the servers see ----------------------------------------------*)
CAccept(s, e) ==
  IF \A i \in 1..Len(s.opens) : s.opens[i] # e.s THEN CFail(s, "connection opened without need")
  ELSE LET s1 == [s EXCEPT !.opens = RemoveFirst(@, e.s), !.touched = @ \cup {e.c}] IN
       IF Pending(s) /\ s.fresh /\ Req1(s).s = e.s
       THEN [s1 EXCEPT !.conn = [NoConn EXCEPT !.id = e.c, !.srv = e.s, !.open = TRUE]]
       ELSE s1
CGot(s, e) ==
  IF Pending(s) /\ e.c = s.conn.id THEN [s EXCEPT !.got = Cat(@, e.d)]
  ELSE IF e.c \in s.touched THEN s
  ELSE CFail(s, "bytes sent on a connection that is not to be used")
CClosed(s, e) ==
  LET s1 == [s EXCEPT !.breaks = @ \ {e.c}] IN
  IF e.c # s.conn.id \/ ~s.conn.open THEN s1
  ELSE IF Pending(s) THEN CFail(s, "connection closed in the middle of an exchange")
  ELSE IF s.conn.junk THEN [s1 EXCEPT !.conn.open = FALSE]
  ELSE CFail(s, "re-usable connection closed")

CSend(s, e) ==
  IF e.c # s.conn.id \/ s.conn.id = 0 THEN s
  ELSE IF ~Pending(s) THEN [s EXCEPT !.conn.junk = TRUE]
  ELSE LET x == Cat(s.rx, e.d) IN [s EXCEPT !.rx = x, !.a = Answer(x, Req1(s).m = cHead, FALSE)]
CEof(s, e) ==
  IF e.c # s.conn.id \/ s.conn.id = 0 THEN s
  ELSE LET s1 == [s EXCEPT !.conn.open = FALSE, !.breaks = @ \ {e.c}] IN
       IF ~Pending(s) THEN s1
       \* a reset is as good an end as any, or a failure, for an answer that is delimited by the end
       ELSE [s1 EXCEPT !.eof = e.e, !.a = Answer(s.rx, Req1(s).m = cHead, TRUE), !.lossy = e.e = "rst" /\ s.a.q # "done"]

(* the request as it must look on the wire                                 *)
TargetOnWire(t) ==
  LET f == FindByte(t, 35)
      u == IF f < 0 THEN t ELSE Take(t, f)
  IN IF u = <<>> \/ RunByte(u[1]) # 47 THEN Cat(cSlash, u) ELSE u
HeadLines(x) == LET ls == SplitByte(x, CR) IN
  [i \in 1..Len(ls) |-> IF i = 1 THEN ls[i] ELSE IF ls[i] # <<>> /\ ls[i][1] = Run(LF, 1) THEN Tail(ls[i]) ELSE <<Run(0, 1)>> \o ls[i]]
LineHeader(l) == LET k == FindByte(l, 58) IN
  IF k < 0 THEN <<l, <<Run(0, 1)>>>>
  ELSE LET v == Drop(l, k + 1) IN <<Take(l, k), IF v # <<>> /\ v[1] = Run(SP, 1) THEN Tail(v) ELSE v>>
WireCheck(s, r, x, Besides(_)) ==          \* header fields the application did not give must satisfy Besides
  LET k == FindText(x, CRLF \o CRLF) IN
  IF k < 0 THEN "request head not sent"
  ELSE LET ls == HeadLines(Take(x, k))
           hs == [i \in 1..(Len(ls)-1) |-> LineHeader(ls[i+1])]
           own(h) == Lower(h[1]) \in {cnHost, rnLength} \/ Besides(h)
           len == RValues(hs, rnLength)
       IN IF ls[1] # CatAll(<<r.m, CSp, TargetOnWire(r.t), cHttpLine>>) THEN "wrong request line sent"
          ELSE IF RValues(hs, cnHost) # <<s.auth[r.s]>> THEN "wrong Host header sent"
          ELSE IF SelectSeq(hs, LAMBDA h : ~own(h)) # r.h THEN "wrong headers sent"
          ELSE IF r.d # <<>> /\ len # <<Dec(Size(r.d))>> THEN "wrong body length sent"
          ELSE IF r.d = <<>> /\ len \notin {<<>>, <<Dec(0)>>} THEN "wrong body length sent"
          ELSE IF Drop(x, k + 4) # r.d THEN "wrong body sent"
          ELSE ""

WireProblem(s, r, x) == WireCheck(s, r, x, LAMBDA h : FALSE)

(* ---- quiescence --------------------------------------------------------*)
CIdle(s, e) ==
  LET s1 == [s EXCEPT !.opens = <<>>, !.touched = {}, !.breaks = {}, !.stale = <<>>] IN
  IF e.pend # Pending(s) THEN CFail(s, IF e.pend THEN "still pending although nothing was asked" ELSE "no longer pending although not finished")
  ELSE IF s.aborting THEN CFail(s, "abort not announced")
  ELSE IF s.breaks # {} THEN CFail(s, "a connection that is done with was left open")
  ELSE IF ~Pending(s) THEN s1
  ELSE IF s.fresh /\ Req1(s).s \in s.down THEN CFail(s, "refused connection not announced")
  ELSE IF s.conn.id = 0 THEN CFail(s, "no connection opened for the request")
  ELSE LET w == IF s.conn.mute \/ s.eof # "" THEN "" ELSE WireProblem(s, Req1(s), s.got) IN
       IF w # "" THEN CFail(s, w)
       ELSE IF s.a.q = "bad" THEN CFail(s, "malformed response not announced")
       ELSE IF s.limit > 0 /\ s.body # <<>> THEN s1          \* waits for the application to consume
       ELSE IF s.a.q = "done" THEN CFail(s, "complete response not announced")
       ELSE IF s.eof # "" THEN CFail(s, "lost connection not announced")
       ELSE IF s.a.head /\ ~s.hdr THEN CFail(s, "headers not announced")
       ELSE IF s.a.head /\ ~IsGzip(s.a.hs) /\ Cat(s.taken, s.body) # s.a.raw THEN CFail(s, "content not announced")
       ELSE s1

Deeper(s) == [s EXCEPT !.depth = @ + 1]
CApply(s, e) ==
  IF s.vague THEN s ELSE        \* the moment of a call cannot be told well enough to judge what follows
  CASE e.e = "srv"     -> [s EXCEPT !.auth = e.a, !.down = {e.down[i] : i \in 1..Len(e.down)}]
    [] e.e = "coding"  -> [s EXCEPT !.codings = @ \cup {[raw |-> e.raw, plain |-> e.plain]}]
    [] e.e = "call"    -> CCall(s, e)
    [] e.e = "ret"     -> CRet(s)
    [] e.e = "wait"    -> IF s.timeout >= 0 /\ e.n > s.timeout THEN [s EXCEPT !.conn.old = TRUE] ELSE s
    [] e.e = "headers" -> Deeper(CHeaders(s, e))
    [] e.e = "data"    -> Deeper(CData(s, e))
    [] e.e = "consume" -> CConsume(s, e)
    [] e.e = "finished" -> Deeper(CFinished(s, e))
    [] e.e = "accept"  -> CAccept(s, e)
    [] e.e = "got"     -> CGot(s, e)
    [] e.e = "cclosed" -> CClosed(s, e)
    [] e.e = "send"    -> CSend(s, e)
    [] e.e \in {"fin", "rst"} -> CEof(s, e)
    [] e.e = "mute"    -> IF e.c = s.conn.id THEN [s EXCEPT !.conn.mute = TRUE] ELSE s
    [] e.e = "endnote" -> IF s.aborting THEN CFail(s, "abort not announced") ELSE [s EXCEPT !.depth = @ - 1]
    [] e.e = "idle"    -> CIdle(s, e)
    [] e.e = "vague"   -> [s EXCEPT !.vague = TRUE]
    [] e.e = "end"     -> s
=============================================================================
