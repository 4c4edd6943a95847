--------------------------- MODULE HttpConnection ---------------------------
(***************************************************************************)
(* The server side of one HTTP connection, as a state machine over a       *)
(* record s.  Events come from the peer (bytes arriving, disconnecting),   *)
(* from the output device (draining), from the application (API calls) and *)
(* from the connection itself (ready, completed and closed notifications). *)
(*                                                                         *)
(* The operators are total: an event the state does not allow yields a     *)
(* state whose err field says why.  The model checker explores them from   *)
(* MCHttpConnection, the trace checker runs them over recorded executions. *)
(***************************************************************************)
EXTENDS HttpWire, RequestGrammar, UrlParams

MaxHead    == 32768                 \* longest request head
MaxContent == 134217728             \* largest request body

Continue100 == B("HTTP/1.1 100 Continue") \o CRLF \o CRLF
Http11 == B("HTTP/1.1")
tHead == B("HEAD")
tClose == B("close")
tKeepAlive == B("keep-alive")
tChunked == B("chunked")
t100 == B("100-continue")
nContentLength == B("content-length")
nContentType == B("content-type")
nConnection == B("connection")
nTransferEncoding == B("transfer-encoding")
nExpect == B("expect")
hContentLength == B("Content-Length")
hConnection == B("Connection")
hContentType == B("Content-Type")
vTextPlain == B("text/plain")
Http10Sp == B("HTTP/1.0 ")
Space == <<Run(SP, 1)>>

NoReq == [m |-> <<>>, u |-> <<>>, p |-> <<>>, q |-> <<>>, f |-> <<>>, v |-> <<>>, h |-> <<>>, c |-> <<>>]
NoResp == [len |-> -1, text |-> <<>>, sent |-> 0, ka |-> TRUE, chunked |-> FALSE, code |-> 0]

(* st: new recv sh sb completing completed flush closing closed            *)
Fresh == [st |-> "new", rx |-> <<>>, p |-> P0, req |-> NoReq, params |-> <<>>, resp |-> NoResp,
          exp |-> <<>>, act |-> <<>>,
          \* what is expected if the application closes before the connection got round to the
          \* bytes that were waiting behind the request just completed: <<>> or <<items>>
          alt |-> <<>>, live |-> FALSE, err |-> "",
          \* history counters used by the properties
          nready |-> 0, ncompleted |-> 0, nclosed |-> 0, ninit |-> 0]

Fail(s, why) == [s EXCEPT !.err = why]

----------------------------------------------------------------------------
(* Requests *)
FirstValue(hs, lname) == LET v == ValuesOf(hs, lname) IN IF v = <<>> THEN <<>> ELSE v[1]

(* announced body length: [k |-> "len", n] or a refusal [k |-> "400"/"413"] *)
BodyLength(hs) ==
  LET vs == ValuesOf(hs, nContentLength) IN
  IF vs = <<>> THEN [k |-> "len", n |-> 0]
  ELSE LET v == vs[Len(vs)] IN
       IF AllDigits(v) THEN (IF DecValue(v) > MaxContent THEN [k |-> "413"] ELSE [k |-> "len", n |-> DecValue(v)])
       ELSE IF v # <<>> /\ v[1] = Run(45, 1) /\ AllDigits(Tail(v)) /\ Size(v) < 10
            THEN (IF DecValue(Tail(v)) = 0 THEN [k |-> "len", n |-> 0] ELSE [k |-> "400"])
       ELSE [k |-> "413"]

(* what the received bytes amount to: more, body (incomplete), ready, 400, 413 *)
Verdict(s) ==
  IF s.p.q = "bad" \/ s.p.n > MaxHead THEN "400"
  ELSE IF s.p.q # "done" THEN "more"
  ELSE LET b == BodyLength(s.p.hs) IN
       IF b.k # "len" THEN b.k
       ELSE IF Size(s.rx) - s.p.n >= b.n THEN "ready" ELSE "body"

WantsContinue(s) == SameText(FirstValue(s.p.hs, nExpect), t100) /\ BodyLength(s.p.hs).n > 0

ErrorItem(code) == [t |-> "head", line |-> Http10Sp \o StatusTable[code],
                    hs |-> <<<<hConnection, tClose>>>>]

(* Bytes were added to rx while receiving: parse them and do what is due.  *)
Digest(s, old) ==
  LET v == Verdict(s)
      s1 == IF v \in {"body", "ready"} /\ old \notin {"body", "ready"} /\ WantsContinue(s)
            THEN [s EXCEPT !.exp = AddLit(@, Continue100)] ELSE s
  IN IF v = "400" THEN [s1 EXCEPT !.exp = Append(@, ErrorItem(400)), !.st = "flush", !.rx = <<>>]
     ELSE IF v = "413" THEN [s1 EXCEPT !.exp = Append(@, ErrorItem(413)), !.st = "flush", !.rx = <<>>]
     ELSE s1

Arrive(s, d) ==
  IF s.st \in {"closed", "closing", "flush"} THEN s                          \* nobody listens any more
  ELSE LET s1 == [s EXCEPT !.rx = Cat(@, d)] IN
       IF s.st # "recv" THEN s1 ELSE Digest([s1 EXCEPT !.p = Feed(@, d)], Verdict(s))

StartReceiving(s) == Digest([s EXCEPT !.st = "recv", !.p = Feed(P0, s.rx)], "more")

Initialize(s) ==
  IF s.st \notin {"new", "closed"} THEN Fail(s, "initialised while live")
  ELSE StartReceiving([s EXCEPT !.live = TRUE, !.ninit = @ + 1, !.nready = 0, !.ncompleted = 0, !.nclosed = 0, !.params = <<>>,
                                !.exp = <<>>, !.act = <<>>, !.alt = <<>>])

RequestOf(s) ==
  LET b == BodyLength(s.p.hs) IN
  [m |-> s.p.m, u |-> s.p.u, p |-> s.p.pa, q |-> s.p.qs, f |-> s.p.fr, v |-> s.p.ve, h |-> s.p.hs,
   c |-> Take(Drop(s.rx, s.p.n), b.n)]

SameRequest(r, e) == /\ r.m = e.m /\ r.u = e.u /\ r.p = e.p /\ r.q = e.q /\ r.f = e.f
                     /\ r.v = e.v /\ r.h = e.h /\ r.c = e.c

DiffRequest(r, e) ==
  IF r.m # e.m THEN "method" ELSE IF r.u # e.u THEN "uri" ELSE IF r.p # e.p THEN "path"
  ELSE IF r.q # e.q THEN "query" ELSE IF r.f # e.f THEN "fragment" ELSE IF r.v # e.v THEN "version"
  ELSE IF r.h # e.h THEN "headers" ELSE IF r.c # e.c THEN "content" ELSE ""

(* Everything the application was told to be sent so far is on the wire.   *)
Synced(s) ==
  LET w == MatchAll(s.exp, s.act) IN
  IF w # "" THEN Fail(s, w)
  ELSE IF OpenChunk(s.exp) THEN s             \* keep the open chunked body for later comparison
  ELSE [s EXCEPT !.exp = <<>>, !.act = <<>>, !.alt = <<>>]
SyncedOrAlt(s) == LET t == Synced(s) IN
  IF t.err # "" /\ s.alt # <<>> /\ s.st = "closing" THEN Synced([s EXCEPT !.exp = s.alt[1]]) ELSE t

ReadyCore(s, e) ==
  IF s.err # "" THEN s
  ELSE IF s.st # "recv" THEN Fail(s, "request announced while not receiving")
  ELSE IF Verdict(s) # "ready" THEN Fail(s, "request announced although none is complete")
  ELSE LET r == RequestOf(s) b == BodyLength(s.p.hs) IN
       IF ~SameRequest(r, e) THEN Fail(s, "request delivered with wrong " \o DiffRequest(r, e))
       ELSE [s EXCEPT !.st = "sh", !.req = r, !.rx = Drop(@, s.p.n + b.n), !.p = P0,
                      !.params = ParseParams(r.q), !.resp = NoResp, !.nready = @ + 1]
Ready(s, e) == ReadyCore(Synced(s), e)

----------------------------------------------------------------------------
(* Responses *)
IsHttp11(s) == s.req.v = Http11
IsHead(s) == s.req.m = tHead

(* announced response length after the headers hs: later entries override *)
RespLength(init, hs) ==
  FoldLeft(LAMBDA a, h :
     IF Lower(h[1]) # nContentLength THEN a
     ELSE IF AllDigits(h[2]) THEN [len |-> DecValue(h[2]), text |-> StripZeros(h[2])]
     ELSE [len |-> -1, text |-> <<>>],
   init, hs)

LastOf(hs, lname) == LET sel == SelectSeq(hs, LAMBDA h : Lower(h[1]) = lname) IN
                     IF sel = <<>> THEN <<>> ELSE <<sel[Len(sel)]>>
IsSpecial(n) == n \in {nContentLength, nContentType, nConnection, nTransferEncoding}

WriteHeaders(s, code, hs, init) ==
  LET L  == RespLength(init, hs)
      te == LastOf(hs, nTransferEncoding)
      cn == LastOf(hs, nConnection)
      ct == LastOf(hs, nContentType)
      teChunked == te # <<>> /\ SameText(te[1][2], tChunked)
      chunked == teChunked /\ IsHttp11(s) /\ L.len = -1
      teOut == IF teChunked /\ ~chunked THEN <<>> ELSE te
      conn == FirstValue(s.req.h, nConnection)
      client == IF IsHttp11(s) THEN ~SameText(conn, tClose) ELSE SameText(conn, tKeepAlive)
      server == (L.len >= 0 \/ chunked) /\ (cn = <<>> \/ ~SameText(cn[1][2], tClose))
      ka == client /\ server
      others == SelectSeq(hs, LAMBDA h : ~IsSpecial(Lower(h[1])))
      out == others
             \o (IF L.len # -1 THEN <<<<hContentLength, L.text>>>> ELSE <<>>)
             \o (IF ct # <<>> THEN ct ELSE IF L.len > 0 THEN <<<<hContentType, vTextPlain>>>> ELSE <<>>)
             \o (IF ~IsHttp11(s) \/ ~ka THEN <<<<hConnection, IF ka THEN tKeepAlive ELSE tClose>>>> ELSE <<>>)
             \o teOut
      s1 == [s EXCEPT !.resp = [len |-> L.len, text |-> L.text, sent |-> 0, ka |-> ka, chunked |-> chunked,
                                code |-> code],
                      !.exp = Append(@, [t |-> "head", line |-> CatAll(<<s.req.v, Space, StatusText(code)>>), hs |-> out]),
                      !.st = "sb"]
  IN IF L.len = 0 \/ IsHead(s) THEN [s1 EXCEPT !.st = "completing"] ELSE s1

WriteContent(s, d) ==
  LET n == Size(d) IN
  IF s.st # "sb" \/ n = 0 THEN s
  ELSE IF s.resp.len > 0 /\ n + s.resp.sent > s.resp.len THEN s          \* would exceed the announced length
  ELSE LET s1 == [s EXCEPT !.exp = IF s.resp.chunked THEN AddChunk(@, d) ELSE AddLit(@, d),
                           !.resp.sent = @ + n]
       IN IF s1.resp.sent = s1.resp.len THEN [s1 EXCEPT !.st = "completing"] ELSE s1

EndContent(s) ==
  IF s.st # "sb" \/ s.resp.len >= 0 THEN s
  ELSE [s EXCEPT !.exp = IF s.resp.chunked THEN EndChunks(@) ELSE @, !.st = "completing"]

Call(s, e) ==
  IF s.st \in {"completing", "closing"} THEN Fail(s, "call made before the due notification")
  ELSE CASE e.op = "wh" -> IF s.st # "sh" THEN s ELSE WriteHeaders(s, e.s, e.h, [len |-> -1, text |-> <<>>])
         [] e.op \in {"wr", "ws"} ->
              IF s.st # "sh" THEN s
              ELSE WriteContent(WriteHeaders(s, e.s, e.h, [len |-> Size(e.c), text |-> Dec(Size(e.c))]), e.c)
         [] e.op = "wc" -> WriteContent(s, e.c)
         [] e.op = "ec" -> EndContent(s)
         [] e.op = "flush" -> s
         [] e.op = "close" -> IF s.st \in {"new", "closed"} THEN s ELSE [s EXCEPT !.st = "closing"]

CompletedCore(s, e) ==
  IF s.err # "" THEN s
  ELSE IF s.st # "completing" THEN Fail(s, "completion announced although the response is not complete")
  ELSE IF e.code # s.resp.code THEN Fail(s, "completed with the wrong status code")
  ELSE IF e.len # s.resp.len THEN Fail(s, "completed with the wrong content length")
  ELSE [s EXCEPT !.st = "completed", !.ncompleted = @ + 1]
Completed(s, e) == CompletedCore(Synced(s), e)

EndCompleted(s) ==
  IF s.st # "completed" THEN s                                \* closed from inside the notification
  ELSE LET s1 == [s EXCEPT !.params = <<>>] IN
       IF s.resp.ka THEN [StartReceiving(s1) EXCEPT !.alt = <<s1.exp>>] ELSE [s1 EXCEPT !.st = "flush", !.rx = <<>>]

Peer(s) == IF s.st \in {"new", "closed"} THEN s ELSE [s EXCEPT !.st = "closing", !.rx = <<>>]

Closed(s0, e) ==
  LET s == SyncedOrAlt(s0) IN
  IF s.err # "" THEN s
  ELSE IF s.st = "closing" THEN [s EXCEPT !.st = "closed", !.rx = <<>>, !.live = FALSE, !.nclosed = @ + 1,
                                           !.exp = <<>>, !.act = <<>>, !.alt = <<>>]
  ELSE IF s.st # "flush" THEN Fail(s, "connection closed although it should stay open")
  ELSE IF e.left > 0 THEN Fail(s, "connection closed before its output was delivered")
  ELSE [s EXCEPT !.st = "closed", !.live = FALSE, !.nclosed = @ + 1, !.exp = <<>>, !.act = <<>>]

StateCode(s) == CASE s.st = "new" -> 0
                  [] s.st = "recv" -> IF Verdict(s) = "body" THEN 2 ELSE 1
                  [] s.st = "sh" -> 3 [] s.st = "sb" -> 4 [] s.st = "completed" -> 5
                  [] s.st = "flush" -> 6 [] s.st = "closed" -> 7 [] OTHER -> 99

(* Nothing more happens by itself: every due notification has been made.   *)
Idle(s0, e) ==
  LET s == Synced(s0) IN
  IF s.err # "" THEN s
  ELSE IF s.st = "recv" /\ Verdict(s) = "ready" THEN Fail(s, "complete request not announced")
  ELSE IF s.st = "completing" THEN Fail(s, "complete response not announced")
  ELSE IF s.st = "closing" THEN Fail(s, "close not announced")
  ELSE IF s.st = "flush" /\ e.pend = 0 THEN Fail(s, "connection not closed after its output was delivered")
  ELSE IF e.st # StateCode(s) THEN Fail(s, "wrong connection state reported")
  ELSE s

Ret(s) == IF s.st = "completing" THEN Fail(s, "complete response not announced")
          ELSE IF s.st = "closing" THEN Fail(s, "close not announced") ELSE s

HasReq(s) == s.st \in {"sh", "sb", "completing", "completed"}
SetParam(ps, k, v) ==
  LET idx == {i \in 1..Len(ps) : SameText(ps[i][1], k)} IN
  IF idx = {} THEN Append(ps, <<k, v>>)
  ELSE LET i == CHOOSE i \in idx : \A j \in idx : i <= j IN [ps EXCEPT ![i] = <<k, v>>]
GetParam(ps, k) ==
  LET idx == {i \in 1..Len(ps) : SameText(ps[i][1], k)} IN
  IF idx = {} THEN <<>> ELSE ps[CHOOSE i \in idx : \A j \in idx : i <= j][2]

Apply(s, e) ==
  CASE e.e = "init"    -> Initialize(s)
    [] e.e = "arrive"  -> Arrive(s, e.d)
    [] e.e = "out"     -> IF ~s.live THEN Fail(s, "output on a closed connection") ELSE [s EXCEPT !.act = Cat(@, e.d)]
    [] e.e = "ready"   -> LET t == Ready(s, e) IN IF t.err = "" /\ e.st # 3 THEN Fail(t, "wrong state while announcing a request") ELSE t
    [] e.e = "call"    -> Call(s, e)
    [] e.e = "ret"     -> Ret(s)
    [] e.e = "completed" -> LET t == Completed(s, e) IN IF t.err = "" /\ e.st # 5 THEN Fail(t, "wrong state while announcing completion") ELSE t
    [] e.e = "endcompleted" -> EndCompleted(s)
    [] e.e = "closed"  -> LET t == Closed(s, e) IN IF t.err = "" /\ e.st # 7 THEN Fail(t, "wrong state while announcing close") ELSE t
    [] e.e = "peer"    -> Peer(s)
    [] e.e = "idle"    -> Idle(s, e)
    [] e.e = "fields"  -> IF HasReq(s) /\ ~SameRequest(s.req, e)
                          THEN Fail(s, "request changed while outstanding: " \o DiffRequest(s.req, e)) ELSE s
    [] e.e = "params"  -> IF HasReq(s) /\ s.params # e.v THEN Fail(s, "wrong request parameters") ELSE s
    [] e.e = "param"   -> IF HasReq(s) /\ GetParam(s.params, e.k) # e.v THEN Fail(s, "wrong request parameter value") ELSE s
    [] e.e = "setparam" -> IF HasReq(s) THEN [s EXCEPT !.params = SetParam(@, e.k, e.v)] ELSE s
    [] e.e = "header"  -> IF HasReq(s) /\ FirstValue(s.req.h, Lower(e.k)) # e.v THEN Fail(s, "wrong request header value") ELSE s
    [] e.e = "decoded" -> IF HasReq(s) /\ (PercentDecode(s.req.u) # e.u \/ PercentDecode(s.req.p) # e.p
                                           \/ PercentDecode(s.req.q) # e.q \/ PercentDecode(s.req.f) # e.f)
                          THEN Fail(s, "wrong percent-decoding") ELSE s
    [] e.e \in {"endready", "endclosed", "drain"} -> s
=============================================================================
