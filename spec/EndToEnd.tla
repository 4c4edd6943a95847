----------------------------- MODULE EndToEnd -----------------------------
(***************************************************************************)
(* Pillow::HttpClient talking to Pillow::HttpServer: the composition of    *)
(* the client's specification and the server connection's specification.   *)
(*                                                                         *)
(* Nothing on the wire is observed here.  A request the client was given   *)
(* becomes the bytes the client's specification puts on the wire, and is   *)
(* what the server's specification reads there; what the application       *)
(* writes becomes the bytes the server's specification puts on the wire,   *)
(* and is what the client's specification reads there.  So what the server *)
(* application sees is a function of what the client was asked for, and    *)
(* what the client tells a function of what the application wrote.         *)
(* EApply(s, e) is the next state, or one whose err says what was wrong.   *)
(***************************************************************************)
EXTENDS HttpConnection, HttpClient, ClientView

(* conn: every connection ever made; own its client, h the server's end,   *)
(* obj the server's connection object once known, asked: r was sent on it  *)
(* and not yet seen, gone: the client has left, over: the server has closed*)
eFresh == [err |-> "", k |-> <<>>, conn |-> <<>>]
EFail(s, why) == [s EXCEPT !.err = why]

(* the request as bytes, its own fields first *)
EWire(auth, r) ==
  Cat(RenderHead(CatAll(<<r.m, CSp, TargetOnWire(r.t), cHttpLine>>),
                 <<<<B("Host"), auth>>>> \o r.h \o (IF r.d = <<>> THEN <<>> ELSE <<<<B("Content-Length"), Dec(Size(r.d))>>>>)), r.d)
(* a request as it was seen, as bytes *)
ESeen(e) == Cat(RenderHead(CatAll(<<e.m, CSp, e.u, IF e.f = <<>> THEN <<>> ELSE Cat(<<Run(35, 1)>>, e.f), CSp, e.v>>), e.h), e.c)

(* ---- between the two ends ----------------------------------------------*)
EClient(s, c, k) == IF k.err # "" THEN EFail(s, k.err) ELSE [s EXCEPT !.k[c] = k]
Connected(s, j) == ~s.conn[j].gone /\ s.k[s.conn[j].own].conn.id = j

(* what the server's end has to send goes to the client *)
EPump(s, j) ==
  IF s.err # "" THEN s
  ELSE LET h == s.conn[j].h
           c == s.conn[j].own
           out == Render(h.exp)
           s1 == [s EXCEPT !.conn[j].h.exp = <<>>, !.conn[j].h.act = <<>>, !.conn[j].h.alt = <<>>]
           k1 == IF out = <<>> THEN s.k[c] ELSE CSend(s.k[c], [c |-> j, d |-> out])
           ends == h.st \in {"flush", "closing"} /\ ~s.conn[j].shut
           k2 == IF ends THEN CEof(k1, [c |-> j, e |-> IF h.st = "closing" \/ s.conn[j].lossy THEN "rst" ELSE "fin"]) ELSE k1
       IN IF h.err # "" THEN EFail(s, h.err)
          ELSE LET s2 == [s1 EXCEPT !.conn[j].shut = @ \/ ends] IN
               IF Connected(s, j) THEN EClient(s2, c, k2) ELSE s2

(* connections the client no longer uses *)
ELeave(s) ==
  IF s.err # "" THEN s
  ELSE [s EXCEPT !.conn = [j \in 1..Len(s.conn) |->
          LET n == s.conn[j] k == s.k[n.own] IN
          IF n.gone \/ (k.conn.id = j /\ (k.conn.open \/ (Pending(k) /\ ~k.aborting))) THEN n ELSE [n EXCEPT !.gone = TRUE]]]

(* a request was begun: it goes out on the connection the client has, or a new one *)
EBegin(s, c) ==
  LET k == s.k[c]
      r == Req1(k)
      new == k.fresh
      down == r.s \in k.down
      j == IF new THEN Len(s.conn) + 1 ELSE k.conn.id
      s1 == IF ~new THEN s
            ELSE [s EXCEPT !.conn = Append(@, [own |-> c, h |-> Initialize(Fresh), obj |-> 0, asked |-> FALSE, r |-> r, gone |-> FALSE, shut |-> FALSE,
                                               over |-> FALSE, lossy |-> FALSE]),
                           !.k[c].conn = [NoConn EXCEPT !.id = j, !.srv = r.s, !.open = TRUE, !.mute = TRUE]]
      s2 == [s1 EXCEPT !.k[c].opens = <<>>, !.k[c].touched = {}, !.k[c].breaks = {}]
  IN IF down THEN [s EXCEPT !.k[c].opens = <<>>, !.k[c].breaks = {}]
     ELSE IF s2.conn[j].asked THEN EFail(s, "two requests at once on one connection")
     ELSE LET h == Arrive(s2.conn[j].h, EWire(k.auth[r.s], r)) IN
          IF h.st = "recv" /\ Verdict(h) = "ready" THEN [s2 EXCEPT !.conn[j].asked = TRUE, !.conn[j].r = r]
          ELSE EPump([s2 EXCEPT !.conn[j].h = h, !.conn[j].lossy = r.d # <<>>], j)     \* nothing the server could read: it refuses

EAfter(s, c, before) == IF s.err # "" THEN s
                        ELSE LET s1 == IF Pending(s.k[c]) /\ ~Pending(before) THEN EBegin(s, c) ELSE s IN ELeave(s1)

ECall(s, e) == EAfter(EClient(s, e.cl, CCall(s.k[e.cl], e)), e.cl, s.k[e.cl])

(* header fields may come in any order as long as those of a name keep theirs *)
ETold(s, e) ==
  LET k == s.k[e.cl] IN
  IF ~k.a.head \/ e.e \notin {"headers", "finished"} THEN e
  ELSE IF SameHeaders(e.h, k.a.hs) THEN [e EXCEPT !.h = k.a.hs] ELSE e
ETell(s, e) == EAfter(EClient(s, e.cl, CApply(s.k[e.cl], ETold(s, e))), e.cl, s.k[e.cl])

(* ---- the server application --------------------------------------------*)
Bound(s, obj) == {j \in 1..Len(s.conn) : s.conn[j].obj = obj /\ ~s.conn[j].over}
Asking(s, obj) == IF Bound(s, obj) # {} THEN {j \in Bound(s, obj) : s.conn[j].asked}
                  ELSE {j \in 1..Len(s.conn) : s.conn[j].obj = 0 /\ s.conn[j].asked}
Mismatch(s, j, e) == IF e.f # <<>> THEN "fragment sent" ELSE WireProblem(s.k[s.conn[j].own], s.conn[j].r, ESeen(e))
EReady(s, e) ==
  LET all == Asking(s, e.k)
      fit == {j \in all : s.conn[j].r.m = e.m /\ TargetOnWire(s.conn[j].r.t) = e.u}
  IN IF all = {} THEN EFail(s, "request seen that no client was asked for")
     ELSE IF fit = {} THEN EFail(s, "request seen with a method or target that no client was asked for")
     ELSE LET good == {j \in fit : Mismatch(s, j, e) = ""} IN
          IF good = {} THEN EFail(s, "request seen differs: " \o Mismatch(s, CHOOSE j \in fit : TRUE, e))
          ELSE LET j == CHOOSE j \in good : TRUE
                   h == ReadyCore(Arrive(s.conn[j].h, ESeen(e)), e)
               IN EPump([s EXCEPT !.conn[j].h = h, !.conn[j].obj = e.k, !.conn[j].asked = FALSE], j)

EServer(s, e, Do(_)) ==
  LET b == Bound(s, e.k) IN
  IF b = {} THEN EFail(s, "notification for a connection without request")
  ELSE LET j == CHOOSE j \in b : TRUE IN EPump([s EXCEPT !.conn[j].h = Do(@)], j)
EClosed(s, e) ==
  LET b == Bound(s, e.k) IN
  IF b = {} THEN s                       \* ended before its first request
  ELSE LET j == CHOOSE j \in b : TRUE
           h == Closed(IF s.conn[j].gone THEN Peer(s.conn[j].h) ELSE s.conn[j].h, e)
       IN ELeave(EPump([s EXCEPT !.conn[j].h = h, !.conn[j].over = TRUE], j))

(* ---- quiescence --------------------------------------------------------*)
EIdleServer(s, j) ==
  LET n == s.conn[j] IN
  IF n.over \/ n.obj = 0 THEN ""
  ELSE IF n.gone THEN "the server does not know that its client left"
  ELSE IF n.h.st = "completing" THEN "complete response not announced by the server"
  ELSE IF n.h.st \in {"flush", "closing"} THEN "connection not closed by the server"
  ELSE ""
ELost(s, j) == s.conn[j].asked /\ ~s.conn[j].gone
EIdle(s, e) ==
  LET bad == {j \in 1..Len(s.conn) : EIdleServer(s, j) # ""} IN
  IF bad # {} THEN EFail(s, EIdleServer(s, CHOOSE j \in bad : TRUE))
  ELSE IF \E j \in 1..Len(s.conn) : ELost(s, j) THEN EFail(s, "request never seen by the server application")
  ELSE LET ks == [c \in 1..Len(s.k) |-> CIdle(s.k[c], [e |-> "idle", pend |-> c \in {e.pend[i] : i \in 1..Len(e.pend)}])]
           wrong == {c \in 1..Len(ks) : ks[c].err # ""}
       IN IF wrong # {} THEN EFail(s, ks[CHOOSE c \in wrong : TRUE].err) ELSE [s EXCEPT !.k = ks]

EApply(s, e) ==
  CASE e.e = "srv"     -> [s EXCEPT !.k = [c \in 1..e.clients |-> [cFresh EXCEPT !.auth = e.a, !.down = {e.down[i] : i \in 1..Len(e.down)}]]]
    [] e.e = "coding"  -> [s EXCEPT !.k = [c \in 1..Len(s.k) |-> [s.k[c] EXCEPT !.codings = @ \cup {[raw |-> e.raw, plain |-> e.plain]}]]]
    [] e.e = "call"    -> ECall(s, e)
    [] e.e = "ret"     -> EClient(s, e.cl, CRet(s.k[e.cl]))
    [] e.e \in {"headers", "data", "consume", "finished", "endnote"} -> ETell(s, e)
    [] e.e = "ready"   -> EReady(s, e)
    [] e.e = "acall"   -> EServer(s, e, LAMBDA h : Call(h, e))
    [] e.e = "aret"    -> s
    [] e.e = "completed" -> EServer(s, e, LAMBDA h : Completed(h, e))
    [] e.e = "endcompleted" -> EServer(s, e, EndCompleted)
    [] e.e = "closed"  -> EClosed(s, e)
    [] e.e = "idle"    -> EIdle(s, e)
=============================================================================
