---------------------------- MODULE MCHttpService ----------------------------
(***************************************************************************)
(* Exhaustive exploration of HttpService: clients that come, make requests *)
(* (whole or in two parts), and leave, an application that answers at once *)
(* or later, published files, logs; connection objects are bound and freed *)
(* in any order the library may choose.  The guarantees are checked        *)
(* against ghost records which know only what the clients sent and what    *)
(* the application said.  hist records the external actions as a script    *)
(* for the real code.                                                      *)
(***************************************************************************)
EXTENDS HttpService, ClientView, Json, IOUtils

CONSTANTS MaxClients, MaxReqs,  \* requests per client
          MaxActs,              \* external actions, not counting waiting
          Objects,              \* connection objects the server has at its disposal
          Kinds,                \* kinds of requests
          Leaves,               \* how clients may leave
          Cut,                  \* requests may arrive in two parts
          LogKind,              \* which logs are in front
          Emit

Logs == CASE LogKind = "none" -> <<>> [] LogKind = "done" -> <<"done">> [] LogKind = "trace" -> <<"trace">> [] OTHER -> <<"trace", "done">>
Num(n) == <<Run(48 + n, 1)>>
Uri(kind, c, i) == CatAll(<<B(IF kind = "file" THEN "/f?" ELSE "/c"), Num(c), B(IF kind = "file" THEN "-" ELSE "/r"), Num(i)>>)
Head0(m, u, more) == CatAll(<<m, Space, u, Space, B("HTTP/1.1"), CRLF, more, CRLF>>)
Bytes0(kind, c, i) ==
  CASE kind = "close" -> Head0(B("GET"), Uri(kind, c, i), Cat(B("Connection: close"), CRLF))
    [] kind = "head"  -> Head0(tHead, Uri(kind, c, i), <<>>)
    [] kind = "post"  -> Cat(Head0(B("POST"), Uri(kind, c, i), Cat(B("Content-Length: 2"), CRLF)), CatAll(<<Num(c), Num(i)>>))
    [] kind = "bad"   -> Cat(B("BAD"), CRLFCRLF)
    [] OTHER          -> Head0(B("GET"), Uri(kind, c, i), <<>>)
Method(kind) == CASE kind = "head" -> tHead [] kind = "post" -> B("POST") [] OTHER -> B("GET")
Ends(kind) == kind \in {"close", "bad", "shut", "open"}      \* no further request will be read
Valid(kind) == kind # "bad"

TheFile == <<Run(70, 700)>>
Body(kind, c, i) == IF kind = "file" THEN TheFile ELSE CatAll(<<B("answer "), Num(c), Num(i)>>)
Wr(kind, c, i) == [op |-> "wr", s |-> 200, h |-> <<>>, c |-> Body(kind, c, i)]
\* what the application does when it is handed the request, and later
Now(kind, c, i) ==
  CASE kind \in {"later", "lost"} -> <<>>
    [] kind = "parts" -> <<[op |-> "wh", s |-> 200, h |-> <<<<B("Transfer-Encoding"), tChunked>>>>], [op |-> "wc", c |-> B("answer ")]>>
    [] kind = "open"  -> <<[op |-> "wh", s |-> 200, h |-> <<>>], [op |-> "wc", c |-> Body(kind, c, i)]>>
    [] kind = "shut"  -> <<[op |-> "close"]>>
    [] OTHER -> <<Wr(kind, c, i)>>
After(kind, c, i) ==
  CASE kind = "later" -> <<Wr(kind, c, i)>>
    [] kind = "lost"  -> <<[op |-> "close"]>>
    [] kind = "parts" -> <<[op |-> "wc", c |-> CatAll(<<Num(c), Num(i)>>)], [op |-> "ec"]>>
    [] kind = "open"  -> <<[op |-> "ec"]>>
    [] OTHER -> <<>>

FileNode == [t |-> "file", root |-> B("/pub"), buf |-> 1]
Tree == [t |-> "stack", kids |-> [n \in 1..Len(Logs) |-> [t |-> "log", n |-> n]]
                                 \o <<FileNode, [t |-> "probe", id |-> "app", acc |-> TRUE]>>]
Fs0 == SetNode(SetNode(FsRoot, <<B("pub")>>, [t |-> "d"]), <<B("pub"), B("f")>>, [t |-> "f", c |-> TheFile])
Start == LET a == ApplyService(S0, [e |-> "cfg", tree |-> Tree, logs |-> Logs]) IN [a EXCEPT !.fs = Fs0]

VARIABLES s,
          sent,    \* per client: the kinds of the requests it has begun to send
          rest,    \* per client: bytes of the last one still to be sent
          todo,    \* calls the application still has to make inside the handler
          pend,    \* exchanges to be continued later: [c, k, i, ops]
          wire,    \* per client: bytes it received so far
          heard,   \* requests announced, in order: <<client, index>>
          done,    \* responses completed, in order
          lines,   \* per log: every line owed so far
          acts, hist
vars == <<s, sent, rest, todo, pend, wire, heard, done, lines, acts, hist>>
Ghost == <<s, sent, rest, todo, pend, wire, heard, done, lines, acts>>

Init == /\ s = Start /\ sent = <<>> /\ rest = <<>> /\ todo = <<>> /\ pend = {} /\ wire = <<>>
        /\ heard = <<>> /\ done = <<>> /\ lines = [n \in 1..Len(Logs) |-> <<>>] /\ acts = 0 /\ hist = <<>>

C == 1..Len(s.cl)
Quiet == s.frames = <<>> /\ \A c \in C : s.cl[c].x.st \notin {"completing", "closing"}
Gone(c) == s.cl[c].gone
Lines1(t) == [n \in 1..Len(Logs) |-> lines[n] \o SubSeq(t.due[n], Len(s.due[n]) + 1, Len(t.due[n]))]
Step(t) == s' = t /\ lines' = Lines1(t)
External == Quiet /\ acts < MaxActs /\ acts' = acts + 1
Do(h) == hist' = Append(hist, h)

(* ---- what clients do *)
Open == /\ External /\ Len(s.cl) < MaxClients
        /\ Step(ApplyService(s, [e |-> "open", c |-> Len(s.cl) + 1]))
        /\ sent' = Append(sent, <<>>) /\ rest' = Append(rest, <<>>) /\ wire' = Append(wire, <<>>)
        /\ Do([op |-> "open"]) /\ UNCHANGED <<todo, pend, heard, done>>
MayReceive(c) == \* the connection can still take bytes: everything after an end would be lost
  ~Gone(c) /\ \A i \in 1..Len(sent[c]) : ~Ends(sent[c][i]) /\ sent[c][i] # "lost"
Send == /\ External
        /\ \E c \in C : \E kind \in Kinds :
             /\ MayReceive(c) /\ rest[c] = <<>> /\ Len(sent[c]) < MaxReqs
             /\ LET i == Len(sent[c]) + 1 b == Bytes0(kind, c, i) n == Size(b) IN
                \E k \in {n} \cup (IF Cut /\ kind # "bad" THEN {n - 3} ELSE {}) :
                  /\ Step(ApplyService(s, [e |-> "arrive", c |-> c, d |-> Take(b, k)]))
                  /\ sent' = [sent EXCEPT ![c] = Append(@, kind)]
                  /\ rest' = [rest EXCEPT ![c] = Drop(b, k)]
                  /\ Do([op |-> "send", c |-> c, d |-> Take(b, k), u |-> Uri(kind, c, i), now |-> Now(kind, c, i), app |-> kind \notin {"file", "bad"}])
        /\ UNCHANGED <<todo, pend, wire, heard, done>>
Rest == /\ External
        /\ \E c \in C : /\ rest[c] # <<>> /\ ~Gone(c)
                        /\ Step(ApplyService(s, [e |-> "arrive", c |-> c, d |-> rest[c]]))
                        /\ rest' = [rest EXCEPT ![c] = <<>>]
                        /\ Do([op |-> "send", c |-> c, d |-> rest[c], u |-> <<>>, now |-> <<>>, app |-> FALSE])
        /\ UNCHANGED <<sent, todo, pend, wire, heard, done>>
Leave == /\ External
         /\ \E c \in C : \E how \in Leaves :
              /\ ~Gone(c)
              /\ Step(ApplyService(s, [e |-> "peer", c |-> c, how |-> how]))
              /\ Do([op |-> IF how = "half" THEN "half" ELSE "fin", c |-> c])
         /\ UNCHANGED <<sent, rest, todo, pend, wire, heard, done>>
Late == /\ External
        /\ \E p \in pend :
             /\ Step(ApplyService(s, p.ops[1] @@ [e |-> "call", k |-> p.k]))
             /\ pend' = (pend \ {p}) \cup (IF Len(p.ops) > 1 THEN {[p EXCEPT !.ops = Tail(@)]} ELSE {})
             /\ Do([op |-> "late", u |-> Uri(p.kind, p.c, p.i), ops |-> <<p.ops[1]>>])
        /\ UNCHANGED <<sent, rest, todo, wire, heard, done>>

(* ---- what the library does *)
Free == {k \in 1..Objects : BoundTo(s, k) = {}}
Announce ==
  /\ s.frames = <<>>
  /\ \E c \in C : LET x == s.cl[c].x IN
       /\ x.st = "recv" /\ Verdict(x) = "ready" /\ ~Gone(c) /\ Quiet
       /\ \E k \in IF s.cl[c].k # 0 THEN {s.cl[c].k} ELSE Free :
            Step(ApplyService(s, [e |-> "ready", k |-> k, ps |-> ParseParams(RequestOf(x).q)] @@ RequestOf(x)))
       /\ heard' = Append(heard, <<c, Cardinality({j \in 1..Len(heard) : heard[j][1] = c}) + 1>>)
  /\ UNCHANGED <<sent, rest, todo, pend, wire, done, acts, hist>>
Ending == {c \in C : s.cl[c].x.st \in {"completing", "closing"}}
Handle ==
  /\ s.frames # <<>> /\ Ending = {}
  /\ LET f == s.frames[Len(s.frames)] h == heard[Len(heard)] kind == sent[h[1]][h[2]] IN
     IF ~f.offer /\ f.steps # <<>> THEN
          /\ Step(ApplyService(s, [e |-> "offer", k |-> f.k, id |-> "app", ps |-> s.cl[f.c].x.params]))
          /\ todo' = Now(kind, h[1], h[2])
          /\ pend' = pend \cup (IF After(kind, h[1], h[2]) # <<>> THEN {[c |-> h[1], k |-> f.k, i |-> h[2], kind |-> kind, ops |-> After(kind, h[1], h[2])]} ELSE {})
     ELSE IF f.offer /\ todo # <<>> THEN
          Step(ApplyService(s, todo[1] @@ [e |-> "call", k |-> f.k])) /\ todo' = Tail(todo) /\ UNCHANGED pend
     ELSE IF f.offer THEN Step(ApplyService(s, [e |-> "endoffer", k |-> f.k])) /\ UNCHANGED <<todo, pend>>
     ELSE Step(ApplyService(s, [e |-> "handled", k |-> f.k, ret |-> f.ret])) /\ UNCHANGED <<todo, pend>>
  /\ UNCHANGED <<sent, rest, wire, heard, done, acts, hist>>
CompletedStep ==
  \E c \in C : /\ s.cl[c].x.st = "completing"
               /\ (s.cl[c].stream => s.frames = <<>>)
               /\ LET k == s.cl[c].k x == s.cl[c].x
                      t == ApplyService(s, [e |-> "completed", k |-> k, code |-> x.resp.code, len |-> x.resp.len])
                  IN Step(IF t.err # "" THEN t ELSE ApplyService(t, [e |-> "endcompleted", k |-> k]))
               /\ done' = Append(done, <<c, Cardinality({j \in 1..Len(done) : done[j][1] = c}) + 1>>)
               /\ UNCHANGED <<sent, rest, todo, pend, wire, heard, acts, hist>>
ClosedStep ==
  \E c \in C : /\ (s.cl[c].x.st \in {"closing", "flush"} \/ (Gone(c) /\ s.cl[c].x.st # "closed" /\ s.frames = <<>>)) /\ s.cl[c].k # 0
               /\ (s.cl[c].x.st = "closing" \/ s.frames = <<>>)
               /\ Step(ApplyService(s, [e |-> "closed", k |-> s.cl[c].k]))
               /\ pend' = {p \in pend : p.c # c}
               /\ UNCHANGED <<sent, rest, todo, wire, heard, done, acts, hist>>

(* ---- waiting until nothing happens any more: the clients have received everything *)
Moves == Announce \/ Handle \/ CompletedStep \/ ClosedStep
Still == /\ Quiet
         /\ \A c \in C : LET x == s.cl[c].x IN
              /\ ~(x.st = "recv" /\ Verdict(x) = "ready" /\ ~Gone(c))
              /\ ~(s.cl[c].k # 0 /\ (Gone(c) \/ x.st = "flush"))
\* the bytes still to come when act has been received: a chunked body that has grown goes on with another chunk
RECURSIVE More(_, _)
More(exp, act) ==
  IF act = <<>> THEN Render(exp)
  ELSE LET m == MatchItem(exp[1], act) IN
       IF m.ok THEN More(Tail(exp), m.rest)
       ELSE Render(<<[exp[1] EXCEPT !.d = Drop(@, Size(DecodeChunks(act, <<>>).d))]>> \o Tail(exp))
Due(t, c) == More(t.cl[c].x.exp, t.cl[c].x.act)
Delivered(t, c) == ApplyService(t, [e |-> "recv", c |-> c, d |-> Due(t, c)])
Ended(t, c) == IF t.cl[c].x.st \in {"flush", "closed"} \/ t.cl[c].gone THEN ApplyService(t, [e |-> "eof", c |-> c]) ELSE t
RECURSIVE WriteLines(_, _, _)
LineText(n, l) ==
  LET k == IF l.k = "" /\ s.modes[n] = "trace" THEN "[ END ] " ELSE l.k
      what == CatAll(<<l.m, Space, l.u, Space, l.v>>)
  IN CatAll(<<IF k = "" THEN <<>> ELSE B(k), B("127.0.0.1 - - [now] \""), what,
              IF k = "[BEGIN] " THEN B("\" - - -")
              ELSE CatAll(<<B("\" "), Dec(IF l.code < 0 THEN 0 ELSE l.code), Space, IF l.len < 0 THEN B("-1") ELSE Dec(l.len), B(" 0.001")>>)>>)
WriteLines(t, n, i) == IF i > Len(t.due[n]) THEN t
                       ELSE WriteLines(ApplyService(t, [e |-> "log", n |-> n, d |-> LineText(n, t.due[n][i])]), n, i + 1)
Wait == /\ Still /\ hist # <<>> /\ hist[Len(hist)].op # "idle"
        /\ LET t1 == FoldLeft(Delivered, s, [c \in 1..Len(s.cl) |-> c])
               t2 == FoldLeft(Ended, t1, [c \in 1..Len(s.cl) |-> c])
               t3 == FoldLeft(LAMBDA a, n : WriteLines(a, n, 1), t2, [n \in 1..Len(Logs) |-> n])
           IN /\ s' = ApplyService(t3, [e |-> "idle", busy |-> <<>>, q |-> <<>>])
              /\ wire' = [c \in C |-> IF s.cl[c].gone THEN wire[c] ELSE Cat(wire[c], Due(s, c))]
        /\ Do([op |-> "idle"]) /\ UNCHANGED <<sent, rest, todo, pend, heard, done, lines, acts>>

Next == /\ (Open \/ Send \/ Rest \/ Leave \/ Late \/ Moves \/ Wait)
        /\ (Emit /\ hist' # hist => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NoError == s.err = ""
\* C11: a connection object serves one client at a time, and is free for the next afterwards
OneEach == \A c, d \in C : (c # d /\ s.cl[c].k # 0) => s.cl[c].k # s.cl[d].k
FreeAgain == \A c \in C : s.cl[c].x.st = "closed" => s.cl[c].k = 0
\* every request announced was sent by that client, in that order, once
Of(l, c) == SelectSeq(l, LAMBDA p : p[1] = c)
AnnouncedInOrder == \A c \in C : LET h == Of(heard, c) valid == SelectSeq(sent[c], Valid) IN
                      /\ Len(h) <= Len(valid) /\ \A i \in 1..Len(h) : h[i][2] = i
                      /\ Len(Of(done, c)) <= Len(h)
\* what a client has received are the answers to its own requests, in order, and nothing else
Answers(c) == DecodeAnswers(wire[c], [i \in 1..Len(sent[c]) |-> Method(sent[c][i])], s.cl[c].x.st = "closed")
RightAnswers ==
  \A c \in C : wire[c] # <<>> =>
    LET a == Answers(c) IN
    \A i \in 1..Len(a) : a[i].got =>
      IF sent[c][i] = "bad" THEN StatusPart(a[i].line) = B("400 Bad Request") /\ ~a[i].keep
      ELSE /\ StatusPart(a[i].line) = B("200 OK")
           /\ LET b == Body(sent[c][i], c, i) IN
              IF sent[c][i] = "head" THEN a[i].body = <<>>
              ELSE IF a[i].complete THEN a[i].body = b ELSE IsPrefixOf(a[i].body, b)
\* at rest, a connected client has been answered up to the first request the application still owes
Settled == hist # <<>> /\ hist[Len(hist)].op = "idle"
OwedAll ==
  Settled => \A c \in C : ~Gone(c) =>
    LET n == Len(sent[c])
        whole == IF rest[c] = <<>> THEN n ELSE n - 1
        stuck == {i \in 1..whole : (\E p \in pend : p.c = c /\ p.i = i) \/ sent[c][i] \in {"shut", "lost"}}
        upto == IF stuck = {} THEN whole ELSE TheOne(stuck) - 1
        a == Answers(c)
    IN /\ Len(a) >= upto /\ \A i \in 1..upto : a[i].got /\ a[i].complete
       /\ (upto > 0 /\ sent[c][upto] # "open" /\ upto = whole) => a[upto].rest = <<>>
\* C24: one line per completed response, in order, about that request; BEGIN lines for announced ones
UriOf(p) == Uri(sent[p[1]][p[2]], p[1], p[2])
Logged ==
  \A n \in 1..Len(Logs) :
    LET ends == SelectSeq(lines[n], LAMBDA l : l.k = "")
        begins == SelectSeq(lines[n], LAMBDA l : l.k = "[BEGIN] ")
    IN /\ [i \in 1..Len(ends) |-> ends[i].u] = [i \in 1..Len(done) |-> UriOf(done[i])]
       /\ \A i \in 1..Len(ends) : ends[i].code = 200
       /\ [i \in 1..Len(begins) |-> begins[i].u] = (IF Logs[n] = "trace" THEN [i \in 1..Len(heard) |-> UriOf(heard[i])] ELSE <<>>)
\* nothing is kept for clients which have left
NothingLeft == Settled => \A c \in C : Gone(c) => s.cl[c].k = 0 /\ \A p \in pend : p.c # c
=============================================================================
