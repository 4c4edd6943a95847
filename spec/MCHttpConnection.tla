-------------------------- MODULE MCHttpConnection --------------------------
(***************************************************************************)
(* Exhaustive exploration of HttpConnection: a peer sending every stream   *)
(* over a small set of requests in every listed segmentation, closing and  *)
(* draining at any moment, and an application making every API call at any *)
(* moment, from inside any notification or outside.  The properties are    *)
(* checked against ghost records kept independently of the state machine.  *)
(* hist records the run as a script that the driver replays against the    *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS HttpConnection, ClientView, Json, IOUtils

CONSTANTS MaxOps,      \* application calls and inspections per behaviour
          MaxReqs,     \* requests per connection life
          MaxLives,    \* lives of the connection object
          Hold,        \* whether output queues up
          Kinds,       \* request kinds used
          Calls,       \* application calls used
          Emit         \* print the script of every transition

L(str) == B(str) \o <<>>
Line(parts) == CatAll(parts)

(* requests: the bytes and, independently, what they mean *)
Req(m, u, pa, qs, v, hs, c) ==
  [bytes |-> CatAll(<<m, Space, u, Space, v, CRLF>>
                    \o FoldLeft(LAMBDA a, h : a \o <<h[1], ColonSpace, h[2], CRLF>>, <<>>, hs) \o <<CRLF, c>>),
   means |-> [m |-> m, u |-> u, p |-> pa, q |-> qs, f |-> <<>>, v |-> v, h |-> hs, c |-> c]]
v11 == B("HTTP/1.1")
v10 == B("HTTP/1.0")
slash == B("/")
KindOf == [
  get   |-> Req(B("GET"), slash, slash, <<>>, v11, <<>>, <<>>),
  query |-> Req(B("GET"), B("/p?k=v"), B("/p"), B("k=v"), v11, <<>>, <<>>),
  head  |-> Req(B("HEAD"), slash, slash, <<>>, v11, <<>>, <<>>),
  post  |-> Req(B("POST"), slash, slash, <<>>, v11, <<<<hContentLength, B("2")>>>>, B("zz")),
  expect|-> Req(B("PUT"), slash, slash, <<>>, v11, <<<<B("Expect"), t100>>, <<hContentLength, B("1")>>>>, B("y")),
  old   |-> Req(B("GET"), slash, slash, <<>>, v10, <<>>, <<>>),
  oldka |-> Req(B("GET"), slash, slash, <<>>, v10, <<<<hConnection, B("Keep-Alive")>>>>, <<>>),
  close |-> Req(B("GET"), slash, slash, <<>>, v11, <<<<hConnection, tClose>>>>, <<>>),
  bad   |-> [bytes |-> B("GE(T / HTTP/1.1") \o CRLFCRLF],
  neg   |-> [bytes |-> CatAll(<<B("GET / HTTP/1.1"), CRLF, B("Content-Length: -1"), CRLFCRLF>>)],
  huge  |-> [bytes |-> CatAll(<<B("GET / HTTP/1.1"), CRLF, B("Content-Length: 9999999999"), CRLFCRLF>>)]]
Refusal == [bad |-> 400, neg |-> 400, huge |-> 413]
Valid(k) == k \notin DOMAIN Refusal

(* cut points offered for the segmentation of the bytes still to be sent:  *)
(* everything, up to the last byte, just one byte, into the next request   *)
CutsOf(x) == LET n == Size(x) IN {k \in {1, n - 3, n - 1, n} : k >= 1 /\ k <= n}

Hs(n, v) == <<<<n, v>>>>
CallOf == [
  wr    |-> [op |-> "wr", s |-> 200, h |-> <<>>, c |-> B("ab")],
  wr0   |-> [op |-> "wr", s |-> 404, h |-> <<>>, c |-> <<>>],
  wrc   |-> [op |-> "wr", s |-> 200, h |-> Hs(hConnection, tClose), c |-> B("q")],
  wrlen0|-> [op |-> "wr", s |-> 200, h |-> Hs(hContentLength, B("0")), c |-> B("zz")],
  wrbad |-> [op |-> "wr", s |-> 77, h |-> Hs(B("X"), B("y")), c |-> B("m")],
  whlen |-> [op |-> "wh", s |-> 200, h |-> Hs(hContentLength, B("2"))],
  whzero|-> [op |-> "wh", s |-> 302, h |-> Hs(hContentLength, B("0"))],
  whopen|-> [op |-> "wh", s |-> 200, h |-> <<>>],
  whch  |-> [op |-> "wh", s |-> 200, h |-> Hs(B("Transfer-Encoding"), tChunked)],
  wc1   |-> [op |-> "wc", c |-> B("c")],
  wc2   |-> [op |-> "wc", c |-> B("de")],
  wc0   |-> [op |-> "wc", c |-> <<>>],
  ec    |-> [op |-> "ec"],
  flush |-> [op |-> "flush"],
  close |-> [op |-> "close"]]

VARIABLES s, todo, kinds, frames, pend, wire, log, nops, lives, gone, hist
vars == <<s, todo, kinds, frames, pend, wire, log, nops, lives, gone, hist>>
Ghost == <<s, todo, kinds, frames, pend, wire, log, nops, lives, gone>>   \* VIEW: everything but hist

Note(h) == hist' = Append(hist, h)

Init == /\ s = Fresh /\ todo = <<>> /\ kinds = <<>> /\ frames = <<>> /\ pend = FALSE
        /\ wire = <<>> /\ log = <<>> /\ nops = 0 /\ lives = 0 /\ gone = FALSE /\ hist = <<>>

(* the bytes the server has produced so far in this life *)
Output == Cat(wire, Render(s.exp))

(* put the produced bytes on the wire, as the real connection does *)
Emitted(st) == [st EXCEPT !.act = Render(st.exp)]
Step(t) ==  \* bookkeeping of the wire when the state machine consumed exp
  /\ s' = t
  /\ wire' = IF s.exp # <<>> /\ t.exp = <<>> /\ t.st # "closed" THEN Output ELSE wire
  /\ pend' = IF Hold THEN (pend \/ (t.exp # s.exp /\ Size(Render(t.exp)) > 0 /\ t.exp # <<>>)) ELSE FALSE

Due == s.st \in {"completing", "closing"}
       \/ (s.st = "flush" /\ ~pend)
       \/ (s.st = "recv" /\ Verdict(s) = "ready" /\ frames = <<>>)

InitConn ==
  /\ s.st \in {"new", "closed"} /\ frames = <<>> /\ lives < MaxLives
  /\ \E n \in 1..MaxReqs : \E ks \in [1..n -> Kinds] :
        /\ \A i \in 1..(n-1) : Valid(ks[i])
        /\ kinds' = ks /\ todo' = CatAll([i \in 1..n |-> KindOf[ks[i]].bytes])
        /\ Note([op |-> "init", hold |-> Hold])
  /\ s' = Initialize(s) /\ lives' = lives + 1 /\ pend' = FALSE /\ wire' = <<>> /\ log' = <<>> /\ gone' = FALSE
  /\ UNCHANGED <<frames, nops>>

Arrives == /\ todo # <<>> /\ s.live /\ ~Due /\ frames = <<>> /\ ~gone
           /\ \E k \in CutsOf(todo) :
                /\ Step(Arrive(s, Take(todo, k))) /\ todo' = Drop(todo, k)
                /\ Note([op |-> "feed", d |-> Take(todo, k)])
           /\ UNCHANGED <<kinds, frames, log, nops, lives, gone>>

PeerCloses == /\ s.live /\ ~Due /\ frames = <<>> /\ ~gone
              /\ s' = Peer(s) /\ gone' = TRUE /\ Note([op |-> "peer"])
              /\ UNCHANGED <<todo, kinds, frames, pend, wire, log, nops, lives>>

Drains == /\ Hold /\ pend /\ ~Due /\ frames = <<>>
          /\ \E all \in BOOLEAN : pend' = ~all /\ Note([op |-> "drain", n |-> IF all THEN 1000000 ELSE 1])
          /\ UNCHANGED <<s, todo, kinds, frames, wire, log, nops, lives, gone>>

Announce ==
  /\ s.st = "recv" /\ Verdict(s) = "ready" /\ frames = <<>>
  /\ LET e == [e |-> "ready", st |-> 3] @@ RequestOf(s) IN
     /\ Step(Ready(Emitted(s), e))
     /\ log' = Append(log, [req |-> RequestOf(s), head |-> FALSE, code |-> 0, hs |-> <<>>, body |-> <<>>, ended |-> FALSE, lim |-> -1])
  /\ frames' = <<"ready">> /\ Note([op |-> "in", f |-> "ready"])
  /\ UNCHANGED <<todo, kinds, nops, lives, gone>>

AnnounceCompleted ==
  /\ s.st = "completing"
  /\ Step(Completed(Emitted(s), [code |-> s.resp.code, len |-> s.resp.len]))
  /\ frames' = Append(frames, "completed") /\ Note([op |-> "in", f |-> "completed"])
  /\ log' = [log EXCEPT ![Len(log)].ended = TRUE]
  /\ UNCHANGED <<todo, kinds, nops, lives, gone>>

AnnounceClosed ==
  /\ s.st = "closing" \/ (s.st = "flush" /\ ~pend)
  /\ LET t == Closed(Emitted(s), [left |-> IF pend THEN 1 ELSE 0, st |-> 7]) IN
     s' = t /\ wire' = Output /\ pend' = FALSE
  /\ frames' = Append(frames, "closed") /\ Note([op |-> "in", f |-> "closed"])
  /\ UNCHANGED <<todo, kinds, log, nops, lives, gone>>

Return ==
  /\ frames # <<>> /\ s.st \notin {"completing", "closing"} /\ ~(s.st = "flush" /\ ~pend)
  /\ LET f == frames[Len(frames)] IN
     /\ Step(IF f = "completed" THEN EndCompleted(s) ELSE s)
     /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ Note([op |-> "out"])
  /\ UNCHANGED <<todo, kinds, log, nops, lives, gone>>

(* ghost record of what the application managed to say *)
LogCall(c) ==
  IF log = <<>> \/ log[Len(log)].ended THEN log
  ELSE LET r == log[Len(log)]
           isHead == r.req.m = tHead
           lim(hs, dflt) == LET l == ValuesOf(hs, nContentLength) IN IF l = <<>> THEN dflt ELSE DecValue(l[Len(l)])
           withHead == [r EXCEPT !.head = TRUE, !.code = c.s, !.hs = c.h]
           add(x, d) == IF isHead \/ (x.lim >= 0 /\ Size(x.body) + Size(d) > x.lim) THEN x
                        ELSE [x EXCEPT !.body = Cat(@, d)]
           r2 == CASE c.op = "wh" -> IF r.head THEN r ELSE [withHead EXCEPT !.lim = lim(c.h, -1)]
                   [] c.op = "wr" -> IF r.head THEN r ELSE add([withHead EXCEPT !.lim = lim(c.h, Size(c.c))], c.c)
                   [] c.op = "wc" -> IF r.head THEN add(r, c.c) ELSE r
                   [] OTHER -> r
       IN [log EXCEPT ![Len(log)] = r2]

AppCalls ==
  /\ ~Due /\ nops < MaxOps /\ s.st # "new"
  /\ \E k \in Calls :
       /\ LET c == CallOf[k] t == Call(s, c) IN Step(t) /\ log' = IF s.st \in {"sh", "sb"} THEN LogCall(c) ELSE log
       /\ Note(CallOf[k])
  /\ nops' = nops + 1
  /\ UNCHANGED <<todo, kinds, frames, lives, gone>>

Next == /\ (InitConn \/ Arrives \/ PeerCloses \/ Drains \/ Announce \/ AnnounceCompleted \/ AnnounceClosed \/ Return \/ AppCalls)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the model *)
NoError == s.err = ""                                   \* the machine never gets stuck in a failure

Delivered == SelectSeq(kinds, Valid)
\* C01: each request exactly, once, in order
DeliveredExactly == /\ Len(log) <= Len(Delivered)
                    /\ \A i \in 1..Len(log) : log[i].req = KindOf[Delivered[i]].means
\* C02: notification counts
LifeCycle == /\ s.nready <= s.ncompleted + 1 /\ s.ncompleted <= s.nready /\ s.nclosed <= 1
             /\ (s.st = "closed" => s.nclosed = 1) /\ (s.live => s.nclosed = 0)
             /\ (s.st \in {"sh", "sb"} => s.nready = s.ncompleted + 1)
             /\ (s.nready > 0 => log # <<>>)
\* C03: a client decodes what the application said, for complete responses
Methods == [i \in 1..Len(log) |-> log[i].req.m]
Answers == DecodeAnswers(Output, Methods, s.st = "closed")
Body(r) == IF r.req.m = tHead THEN <<>> ELSE r.body
Framing ==
  \A i \in 1..Len(log) : log[i].ended =>
     /\ Len(Answers) >= i /\ Answers[i].got
     /\ StatusPart(Answers[i].line) = StatusText(log[i].code)
     /\ Answers[i].body = Body(log[i])
     /\ (Answers[i].delimited => Answers[i].complete)
     /\ \A h \in {log[i].hs[k] : k \in 1..Len(log[i].hs)} :
           ~IsSpecial(Lower(h[1])) => h \in {Answers[i].hs[k] : k \in 1..Len(Answers[i].hs)}
\* nothing but the responses and one refusal is ever on the wire
NothingElse == (s.st = "sb" /\ log # <<>>) =>
   /\ Len(Answers) = Len(log) /\ Answers[Len(log)].got
   /\ Answers[Len(log)].rest = <<>> /\ Answers[Len(log)].body = Body(log[Len(log)])
\* C04: the client's reading of the response agrees with what the connection does
KeepAliveAgrees ==
  (s.st \in {"completing", "completed"} /\ Len(Answers) = Len(log) /\ Answers[Len(log)].got) =>
     LET a == Answers[Len(log)] IN
     /\ (s.resp.ka => a.delimited)
     /\ (a.keep /\ a.delimited <=> s.resp.ka)
\* C05: nothing written is lost unless the application closed or the peer went
FlushBeforeClose == (s.st = "closed" /\ ~gone /\ frames # <<>> /\ frames[Len(frames)] = "closed"
                     /\ \A i \in 1..Len(hist) : hist[i].op # "close") => ~pend
\* C06: a refused request is never delivered and gets exactly its refusal
Refused == (s.st = "flush" /\ s.nready = s.ncompleted /\ Len(log) = Len(Delivered) /\ Len(kinds) > Len(Delivered)
            /\ (log = <<>> \/ s.resp.ka)) =>
              LET r == Refusal[kinds[Len(kinds)]]
                  prev == IF log = <<>> THEN <<>> ELSE Answers
                  left == IF log = <<>> THEN Output ELSE Answers[Len(Answers)].rest
              IN left = RenderHead(Http10Sp \o StatusTable[r], <<<<hConnection, tClose>>>>)
\* C07: as many interim replies as requests that asked for one
Interim == LET asked == Cardinality({i \in 1..Len(log) : kinds[i] = "expect"}) IN
           \A i \in 1..Len(Answers) : Answers[i].got => (Answers[i].interim = IF kinds[i] = "expect" THEN 1 ELSE 0)
\* C08: what is left of a previous life
FreshStart == (s.st = "recv" /\ log = <<>>) => (s.params = <<>> /\ s.nready = 0 /\ s.ncompleted = 0)
=============================================================================
