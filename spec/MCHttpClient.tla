---------------------------- MODULE MCHttpClient ----------------------------
(***************************************************************************)
(* Exhaustive exploration of HttpClient: an application making every call  *)
(* from inside any notification or outside, servers answering each request *)
(* with every listed response in every listed segmentation, closing or     *)
(* resetting at any moment.  The properties are checked against records    *)
(* kept independently of the state machine: what each canned response      *)
(* means is written down, not parsed.                                      *)
(***************************************************************************)
EXTENDS HttpClient, Json, IOUtils

CONSTANTS MaxReqs,     \* requests asked for
          MaxCalls,    \* other calls
          MaxEnds,     \* connections ended by the servers
          Servers,     \* number of servers; the last one is down if Down
          Down,
          Timeout,     \* keep-alive timeout
          Waits,       \* moments that pass
          Reqs, Answers, Calls,
          Emit

Crlf2 == CRLF \o CRLF
HL(n, v) == CatAll(<<n, B(": "), v, CRLF>>)
Ans(status, hs, wire, code, body, tr, ka, eof) ==
  [bytes |-> CatAll(<<B("HTTP/1.1 "), status, CRLF>> \o [i \in 1..Len(hs) |-> HL(hs[i][1], hs[i][2])] \o <<CRLF, wire>>),
   code |-> code, hs |-> hs, body |-> body, tr |-> tr, ka |-> ka, eof |-> eof]
okHs == <<<<B("Content-Length"), B("2")>>>>
chHs == <<<<B("Transfer-Encoding"), B("chunked")>>>>
clHs == <<<<B("Content-Length"), B("1")>>, <<B("Connection"), B("close")>>>>
loHs == <<<<B("Location"), B("/r")>>, <<B("Content-Length"), B("0")>>>>
trHs == <<<<B("T"), B("u")>>>>
interim == CatAll(<<B("HTTP/1.1 100 C"), CRLF, HL(B("I"), B("j")), CRLF>>)
chWire == CatAll(<<B("1"), CRLF, B("x"), CRLF, B("2"), CRLF, B("yz"), CRLF, B("0"), CRLF, HL(B("T"), B("u")), CRLF>>)
AnswerOf == [
  ok    |-> Ans(B("200 OK"), okHs, B("ab"), 200, B("ab"), <<>>, TRUE, FALSE),
  chunk |-> Ans(B("201 "), chHs, chWire, 201, B("xyz"), trHs, TRUE, FALSE),
  close |-> Ans(B("404 x"), clHs, B("q"), 404, B("q"), <<>>, FALSE, FALSE),
  none  |-> Ans(B("204"), <<>>, <<>>, 204, <<>>, <<>>, TRUE, FALSE),
  eof   |-> Ans(B("200"), <<>>, B("ef"), 200, B("ef"), <<>>, FALSE, TRUE),
  redir |-> Ans(B("302 F"), loHs, <<>>, 302, <<>>, <<>>, TRUE, FALSE),
  inter |-> [Ans(B("200 OK"), okHs, B("cd"), 200, B("cd"), <<>>, TRUE, FALSE) EXCEPT !.bytes = CatAll(<<interim, interim, @>>)],
  bad   |-> [bytes |-> B("HTTQ/1.1 200 OK") \o Crlf2],
  badch |-> Ans(B("200 OK"), chHs, CatAll(<<B("1"), CRLF, B("xy")>>), 200, B("x"), <<>>, TRUE, FALSE),
  badhd |-> [bytes |-> CatAll(<<B("HTTP/1.1 200 OK"), CRLF, B("A@: b"), Crlf2>>)]]
Malformed(k, m) == k \in {"bad", "badhd"} \/ (k = "badch" /\ m # cHead)
(* HEAD responses have no body on the wire *)
HeadEnd(x) == FindText(x, Crlf2) + 4
WireOf(k, m) == LET x == AnswerOf[k].bytes IN
                IF Malformed(k, m) \/ m # cHead THEN x
                ELSE IF k = "inter" THEN LET n == Size(interim) IN Take(x, 2*n + HeadEnd(Drop(x, 2*n))) ELSE Take(x, HeadEnd(x))
BodyOf(k, m) == IF m = cHead THEN <<>> ELSE AnswerOf[k].body
TrailersOf(k, m) == IF m = cHead THEN <<>> ELSE AnswerOf[k].tr
Keeps(k, m) == AnswerOf[k].ka \/ (k = "eof" /\ m = cHead)
EofEnds(k, m) == AnswerOf[k].eof /\ m # cHead
CutsOf(x) == LET n == Size(x) IN {k \in {1, n \div 2, n - 1, n} : k >= 1 /\ k <= n}

ReqOf == [
  get   |-> [op |-> "req", m |-> B("GET"), s |-> 1, t |-> cSlash, h |-> <<>>, d |-> <<>>],
  head  |-> [op |-> "req", m |-> cHead, s |-> 1, t |-> B("/h"), h |-> <<>>, d |-> <<>>],
  post  |-> [op |-> "req", m |-> cPost, s |-> 1, t |-> B("/p?q"), h |-> <<<<B("A"), B("b")>>>>, d |-> B("data")],
  other |-> [op |-> "req", m |-> B("GET"), s |-> 2, t |-> B("/o"), h |-> <<>>, d |-> <<>>]]

VARIABLES s,
          todo,      \* what the current answer still has to send
          kind,      \* <<>> or <<the kind of the current answer>>
          frames, ncalls, nreqs, nends, nconn,
          g,         \* ghost record, see below
          hist
vars == <<s, todo, kind, frames, ncalls, nreqs, nends, nconn, g, hist>>
Ghost == <<s, todo, kind, frames, ncalls, nreqs, nends, nconn, g>>

(* g: asked - a request is outstanding; done, said - how many were accepted *)
(* and finished; open - the server connection stands: [id, srv] or none;   *)
(* keep - the last exchange left it re-usable; ended - how the servers     *)
(* ended it in this exchange; ab - abort in progress                        *)
G0 == [asked |-> FALSE, accepted |-> 0, finished |-> 0, m |-> <<>>, srv |-> 0, conn |-> 0, csrv |-> 0, keep |-> FALSE,
       ended |-> "", ab |-> FALSE, code |-> 0, bad |-> "", old |-> FALSE]
Note(h) == hist' = Append(hist, h)

Init == /\ s = [cFresh EXCEPT !.auth = [i \in 1..Servers |-> <<Run(64,1), Run(48 + i, 1), Run(64,1)>>],
                              !.down = IF Down THEN {Servers} ELSE {}, !.timeout = Timeout]
        /\ todo = <<>> /\ kind = <<>> /\ frames = <<>> /\ ncalls = 0 /\ nreqs = 0 /\ nends = 0 /\ nconn = 0
        /\ g = G0 /\ hist = <<>>

Reply == IF kind = <<>> THEN "" ELSE kind[1]
SentAll == kind # <<>> /\ todo = <<>>
NewContent == s.a.head /\ s.hdr /\ Size(Cat(s.taken, s.body)) < Size(s.a.raw)
MustFinish == \/ s.aborting
              \/ (s.a.q = "done" /\ s.hdr /\ ~NewContent)
              \/ s.a.q = "bad"
              \/ (s.eof # "" /\ s.a.q # "done")
              \/ (s.fresh /\ s.pend # <<>> /\ Req1(s).s \in s.down)
(* what the client has to do by itself, and outranks everything else       *)
Due == \/ s.aborting
       \/ (frames = <<>> /\ Pending(s) /\ (MustFinish \/ (s.a.head /\ ~s.hdr) \/ NewContent))
       \/ (frames = <<>> /\ s.opens # <<>> /\ s.opens[1] \notin s.down)

(* ---- the network -------------------------------------------------------*)
Accepts ==
  /\ frames = <<>> /\ s.opens # <<>> /\ s.opens[1] \notin s.down
  /\ LET c == nconn + 1 t == CApply(s, [e |-> "accept", c |-> c, s |-> s.opens[1]]) IN
     /\ s' = t /\ nconn' = c
     /\ g' = [g EXCEPT !.conn = c, !.csrv = s.opens[1], !.keep = FALSE, !.ended = ""]
  /\ UNCHANGED <<todo, kind, frames, ncalls, nreqs, nends, hist>>

Here == Pending(s) /\ s.conn.id = nconn /\ nconn > 0 /\ s.conn.open
Answering ==
  /\ frames = <<>> /\ ~Due /\ Here /\ s.eof = ""
  /\ \E k \in (IF kind = <<>> THEN Answers ELSE {kind[1]}) :
       LET x == IF kind = <<>> THEN WireOf(k, Req1(s).m) ELSE todo IN
       /\ x # <<>>
       /\ \E n \in CutsOf(x) :
            /\ s' = CApply(s, [e |-> "send", c |-> nconn, d |-> Take(x, n)])
            /\ todo' = Drop(x, n) /\ kind' = <<k>>
            /\ Note([op |-> "send", d |-> Take(x, n)])
  /\ UNCHANGED <<frames, ncalls, nreqs, nends, nconn, g>>

Ends ==
  /\ frames = <<>> /\ ~Due /\ nends < MaxEnds /\ s.conn.id = nconn /\ nconn > 0 /\ s.conn.open
  /\ \E how \in {"fin", "rst"} :
       /\ s' = CApply(s, [e |-> how, c |-> nconn])
       /\ g' = [g EXCEPT !.ended = how, !.keep = FALSE, !.conn = 0]
       /\ Note([op |-> how])
  /\ nends' = nends + 1
  /\ UNCHANGED <<todo, kind, frames, ncalls, nreqs, nconn>>

(* unsolicited bytes between exchanges *)
Babbles ==
  /\ frames = <<>> /\ ~Due /\ nends < MaxEnds /\ ~Pending(s) /\ s.conn.id = nconn /\ nconn > 0 /\ s.conn.open
  /\ s' = CApply(CApply(s, [e |-> "send", c |-> nconn, d |-> B("HTTP/1.1 500 E") \o Crlf2]), [e |-> "cclosed", c |-> nconn])
  /\ g' = [g EXCEPT !.keep = FALSE, !.conn = 0]
  /\ Note([op |-> "send", d |-> B("HTTP/1.1 500 E") \o Crlf2])
  /\ nends' = nends + 1
  /\ UNCHANGED <<todo, kind, frames, ncalls, nreqs, nconn>>

Passes == /\ frames = <<>> /\ ~Due /\ Timeout >= 0 /\ ncalls < MaxCalls
          /\ \E n \in Waits : /\ s' = CApply(s, [e |-> "wait", n |-> n]) /\ Note([op |-> "wait", n |-> n])
                              /\ g' = [g EXCEPT !.old = @ \/ n > Timeout]
          /\ ncalls' = ncalls + 1
          /\ UNCHANGED <<todo, kind, frames, nreqs, nends, nconn>>

(* ---- the client's notifications ----------------------------------------*)
AnnounceHeaders ==
  /\ frames = <<>> /\ Pending(s) /\ ~s.aborting /\ s.a.head /\ ~s.hdr
  /\ s' = CApply(s, [e |-> "headers", code |-> s.a.code, h |-> s.a.hs, c |-> <<>>])
  /\ frames' = <<"headers">> /\ Note([op |-> "in", f |-> "headers"])
  /\ g' = [g EXCEPT !.bad = IF g.asked /\ Reply \notin {"bad", "badhd", ""} /\ s.a.code = AnswerOf[Reply].code /\ s.a.hs = AnswerOf[Reply].hs
                            THEN @ ELSE "headers"]
  /\ UNCHANGED <<todo, kind, ncalls, nreqs, nends, nconn>>

AnnounceData ==
  /\ frames = <<>> /\ Pending(s) /\ ~s.aborting /\ NewContent
  /\ LET c == Drop(s.a.raw, Size(s.taken)) IN
     /\ s' = CApply(s, [e |-> "data", c |-> c])
     /\ g' = [g EXCEPT !.bad = IF g.asked /\ IsPrefixOf(Cat(s.taken, c), AnswerOf[Reply].body) THEN @ ELSE "data"]
  /\ frames' = <<"data">> /\ Note([op |-> "in", f |-> "data"])
  /\ UNCHANGED <<todo, kind, ncalls, nreqs, nends, nconn>>

Outcome == IF s.aborting THEN 4 ELSE IF s.a.q = "done" THEN 0 ELSE IF s.a.q = "bad" THEN 2 ELSE IF s.eof # "" THEN 3 ELSE 1
(* what must come out, by the ghost's own account *)
Rightly ==
  LET m == g.m k == Reply IN
  IF g.ab THEN 4
  ELSE IF g.srv = Servers /\ Down THEN 1
  ELSE IF k # "" /\ Malformed(k, m) THEN IF g.ended = "" \/ s.a.q = "bad" THEN 2 ELSE 3
  ELSE IF k # "" /\ EofEnds(k, m) THEN IF g.ended # "" /\ Size(AnswerOf[k].bytes) - Size(todo) >= HeadEnd(AnswerOf[k].bytes) THEN 0 ELSE 3
  ELSE IF SentAll /\ k # "" THEN 0
  ELSE 3
AnnounceFinished ==
  /\ Pending(s) /\ MustFinish /\ (s.aborting \/ frames = <<>>)
  /\ LET o == Outcome
         e == [e |-> "finished", err |-> o, code |-> IF o = 0 THEN s.a.code ELSE 0,
               h |-> IF o = 0 THEN s.a.hs \o s.a.tr ELSE <<>>, c |-> IF o = 0 THEN Drop(s.a.raw, Size(s.taken)) ELSE <<>>]
         k == Reply
         right == o = Rightly /\ g.asked
                  /\ (o = 0 => /\ e.code = AnswerOf[k].code /\ e.h = AnswerOf[k].hs \o TrailersOf(k, g.m)
                               /\ IF EofEnds(k, g.m) THEN IsPrefixOf(Cat(s.taken, e.c), BodyOf(k, g.m)) ELSE Cat(s.taken, e.c) = BodyOf(k, g.m))
         keeps == o = 0 /\ Keeps(k, g.m) /\ Timeout # 0 /\ g.ended = ""
     IN /\ s' = CApply(s, e)
        /\ g' = [g EXCEPT !.asked = FALSE, !.finished = @ + 1, !.ab = FALSE, !.keep = keeps, !.old = FALSE, !.conn = IF keeps THEN @ ELSE 0,
                          !.code = IF o = 0 THEN e.code ELSE 0,
                          !.bad = IF right THEN @ ELSE "finished"]
  /\ frames' = Append(frames, "finished") /\ Note([op |-> "in", f |-> "finished"])
  /\ todo' = <<>> /\ kind' = <<>>
  /\ UNCHANGED <<ncalls, nreqs, nends, nconn>>

Return == /\ frames # <<>> /\ ~s.aborting
          /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ Note([op |-> "out"])
          /\ s' = CApply(s, [e |-> "endnote"])
          /\ UNCHANGED <<todo, kind, ncalls, nreqs, nends, nconn, g>>

(* ---- the application ---------------------------------------------------*)
(* may the ghost's connection carry a request to srv? *)
GReuse(srv) == g.conn # 0 /\ g.keep /\ g.csrv = srv /\ ~g.old
Asks(srv, m) == IF g.asked THEN g ELSE [g EXCEPT !.asked = TRUE, !.accepted = @ + 1, !.m = m, !.srv = srv, !.ended = "",
                                                 !.conn = IF GReuse(srv) THEN @ ELSE 0, !.keep = FALSE,
                                                 !.bad = IF (Reusable(s, srv) <=> GReuse(srv)) THEN @ ELSE "reuse"]
Requests ==
  /\ ~s.aborting /\ nreqs < MaxReqs /\ (frames # <<>> \/ ~Due)
  /\ \E k \in Reqs : /\ s' = CApply(s, [e |-> "call"] @@ ReqOf[k])
                     /\ g' = Asks(ReqOf[k].s, ReqOf[k].m)
                     /\ Note(ReqOf[k])
  /\ nreqs' = nreqs + 1
  /\ UNCHANGED <<todo, kind, frames, ncalls, nends, nconn>>
OtherCalls ==
  /\ ~s.aborting /\ ncalls < MaxCalls /\ (frames # <<>> \/ ~Due)
  /\ \E k \in Calls :
       /\ CASE k = "consume" ->
                /\ s' = IF s.body # <<>> THEN CApply(s, [e |-> "consume", c |-> s.body]) ELSE s
                /\ g' = g
            [] k = "abort" ->
                /\ s' = CApply(s, [e |-> "call", op |-> k])
                /\ g' = [g EXCEPT !.ab = g.asked, !.keep = FALSE, !.conn = 0]
            [] k = "follow" ->
                /\ s' = CApply(s, [e |-> "call", op |-> k])
                /\ g' = IF ~g.asked /\ g.code = 302 THEN Asks(g.srv, g.m) ELSE g
       /\ Note([op |-> k])
  /\ ncalls' = ncalls + 1
  /\ UNCHANGED <<todo, kind, frames, nreqs, nends, nconn>>

Next == /\ (Accepts \/ Answering \/ Ends \/ Babbles \/ Passes \/ AnnounceHeaders \/ AnnounceData \/ AnnounceFinished
            \/ Return \/ Requests \/ OtherCalls)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NoError == s.err = ""
\* C15: accepted requests and finish notifications pair up, with the right outcome
FinishOnce == g.accepted = g.finished + (IF g.asked THEN 1 ELSE 0) /\ (g.asked <=> Pending(s))
\* C15, C16, C18: every notification agrees with what the canned answers mean
Truthful == g.bad = ""
\* C17: a request only travels on a connection to its own server
RightServer == (Pending(s) /\ s.conn.id # 0) => s.conn.srv = Req1(s).s
\* C18: a request starts with nothing of the previous exchange
CleanStart == (Pending(s) /\ kind = <<>> /\ frames = <<>>) => (s.rx = <<>> /\ s.taken = <<>> /\ s.body = <<>> /\ ~s.hdr)
=============================================================================
