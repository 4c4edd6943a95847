---------------------------- MODULE MCNetManager ----------------------------
(***************************************************************************)
(* Exhaustive exploration of NetManager: an application starting and       *)
(* aborting replies at any moment, also from inside any notification of    *)
(* any reply, servers answering them in any order and segmentation, or     *)
(* ending their connections.  Every answer names the request it answers;   *)
(* what each reply must show is kept by ghost records of the canned        *)
(* answers, independent of the specification's own bookkeeping.            *)
(***************************************************************************)
EXTENDS NetManager, Json, IOUtils

CONSTANTS MaxReqs, MaxAborts, MaxEnds,
          Servers, Down,         \* the last server is down if Down
          Kinds,                 \* requests offered
          Answers,               \* answers offered
          Notes,                 \* notifications in which the application acts
          Split,                 \* answers may come in two pieces
          Emit

Digit1(k) == <<Run(48 + k, 1)>>
AnsOf(kind, k) ==
  LET fl(n, v) == CatAll(<<B(n), B(": "), v, CRLF>>)
      hd(st, fs) == CatAll(<<B("HTTP/1.1 "), st, CRLF>> \o fs \o <<CRLF>>)
      body == Cat(B("r"), Digit1(k)) IN
  CASE kind = "ok"  -> [head |-> hd(B("200 OK"), <<fl("Content-Length", B("2"))>>), body |-> body, code |-> 200, ka |-> TRUE, eof |-> FALSE, ck |-> <<>>, bad |-> FALSE]
    [] kind = "close" -> [head |-> hd(B("404 N"), <<fl("Connection", B("close")), fl("Content-Length", B("2"))>>), body |-> body, code |-> 404, ka |-> FALSE, eof |-> FALSE, ck |-> <<>>, bad |-> FALSE]
    [] kind = "eof" -> [head |-> hd(B("201 C"), <<>>), body |-> body, code |-> 201, ka |-> FALSE, eof |-> TRUE, ck |-> <<>>, bad |-> FALSE]
    [] kind = "cookie" -> [head |-> hd(B("200 OK"), <<fl("Set-Cookie", Cat(B("c="), Digit1(k))), fl("Content-Length", B("2"))>>), body |-> body, code |-> 200, ka |-> TRUE, eof |-> FALSE, ck |-> <<<<B("c"), Digit1(k)>>>>, bad |-> FALSE]
    [] kind = "bad" -> [head |-> B("HTTQ/1.1 200 OK") \o CRLF \o CRLF, body |-> <<>>, code |-> 0, ka |-> FALSE, eof |-> FALSE, ck |-> <<>>, bad |-> TRUE]
KindOf == [g1 |-> [m |-> B("GET"), s |-> 1], h1 |-> [m |-> cHead, s |-> 1], g2 |-> [m |-> B("GET"), s |-> 2], h2 |-> [m |-> cHead, s |-> 2]]
WireFor(kind, k, m) == LET a == AnsOf(kind, k) IN IF m = cHead THEN a.head ELSE Cat(a.head, a.body)
BodyFor(kind, k, m) == IF m = cHead THEN <<>> ELSE AnsOf(kind, k).body

VARIABLES s, net,      \* per reply: the kind of its answer, what is still to be sent of it
          stack,       \* notifications and endings in progress
          shown,       \* per reply: how much content was announced
          naborts, nends, g, hist
vars == <<s, net, stack, shown, naborts, nends, g, hist>>
Ghost == <<s, net, stack, shown, naborts, nends, g>>

\* g.r: per reply [srv, m, ab, ended, fin, ck]; g.jar: per server the cookie held, "" if none
Init == /\ s = [nmFresh EXCEPT !.auth = [i \in 1..Servers |-> <<Run(64, 1), Run(48 + i, 1), Run(64, 1)>>], !.down = IF Down THEN {Servers} ELSE {},
                               !.starts = [i \in 1..Servers |-> 0], !.accepts = [i \in 1..Servers |-> 0]]
        /\ net = <<>> /\ stack = <<>> /\ shown = <<>> /\ naborts = 0 /\ nends = 0
        /\ g = [r |-> <<>>, jar |-> [i \in 1..Servers |-> <<>>], bad |-> ""] /\ hist = <<>>
Note(h) == hist' = Append(hist, h)
Quiet == UNCHANGED hist
NReps == Len(s.reps)
Top == stack[Len(stack)]
Pop(x) == SubSeq(x, 1, Len(x) - 1)

Travels(k) == LET r == R(s, k) IN Live(r) /\ ~r.abort /\ r.c = 0 /\ r.s \notin s.down
Announces(k) == LET r == R(s, k) IN Live(r) /\ ~r.abort /\ r.a.head /\ (~r.meta \/ Size(r.a.raw) > shown[k])
Over(k) == Live(R(s, k)) /\ Cut(s, R(s, k)) # "open"
Due == \E k \in 1..NReps : Travels(k) \/ Announces(k) \/ Over(k)
(* several due at once: which comes first is up to the network, but in these scripts only one server moved *)

(* ---- the network -------------------------------------------------------*)
WireReq(k) == LET r == R(s, k) IN
  CatAll(<<r.m, CSp, TargetOnWire(r.t), cHttpLine, CRLF, B("Host: "), s.auth[r.s], CRLF>>
         \o (IF r.ck = {} THEN <<>> ELSE <<B("Cookie: "), LET c == CHOOSE c \in r.ck : TRUE IN CatAll(<<c[1], B("="), c[2]>>), CRLF>>) \o <<CRLF>>)
IdleConns(srv) == {c \in 1..Len(s.conns) : s.conns[c].srv = srv /\ s.conns[c].ok /\ ~s.conns[c].closed /\ s.conns[c].k # 0 /\ LET r == R(s, s.conns[c].k) IN r.st = "done" /\ r.errs = -1 /\ r.a.q = "done"}
Travel ==
  /\ stack = <<>>
  /\ \E k \in 1..NReps :
       /\ Travels(k)
       /\ LET old == IdleConns(R(s, k).s)
              s1 == IF old # {} THEN s ELSE NApply(s, [e |-> "accept", s |-> R(s, k).s])
              c == IF old # {} THEN CHOOSE c \in old : TRUE ELSE Len(s1.conns)
              x == WireReq(k)
          IN s' = IF s1.err # "" THEN s1 ELSE NApply(s1, [e |-> "got", c |-> c, d |-> x])
  /\ Quiet /\ UNCHANGED <<net, stack, shown, naborts, nends, g>>

Open(k) == LET r == R(s, k) IN Live(r) /\ ~r.abort /\ r.c # 0 /\ r.eof = "" /\ Cut(s, r) = "open"
Answering ==
  /\ stack = <<>> /\ ~Due
  /\ \E k \in 1..NReps : \E kind \in (IF net[k].kind = "" THEN Answers ELSE {net[k].kind}) :
       /\ Open(k)
       /\ LET x == IF net[k].kind = "" THEN WireFor(kind, k, R(s, k).m) ELSE net[k].todo
              cuts == IF Split THEN {Size(x), Size(x) - 1} \ {0} ELSE {Size(x)}
          IN /\ x # <<>>
             /\ \E n \in cuts :
                  /\ s' = NApply(s, [e |-> "send", c |-> R(s, k).c, d |-> Take(x, n)])
                  /\ net' = [net EXCEPT ![k] = [kind |-> kind, todo |-> Drop(x, n)]]
                  /\ Note([op |-> "send", k |-> k, d |-> Take(x, n)])
  /\ UNCHANGED <<stack, shown, naborts, nends, g>>
Ending ==
  /\ stack = <<>> /\ ~Due /\ nends < MaxEnds
  /\ \E k \in 1..NReps, how \in {"fin", "rst"} :
       /\ R(s, k).c # 0 /\ s.conns[R(s, k).c].k = k /\ ~s.conns[R(s, k).c].closed
       /\ Open(k) \/ R(s, k).st = "done"
       /\ R(s, k).st = "done" => s.conns[R(s, k).c].ok
       /\ s' = [NApply(s, [e |-> how, c |-> R(s, k).c]) EXCEPT !.dying = {}]    \* the scripts let an end arrive before they go on
       /\ g' = IF Open(k) THEN [g EXCEPT !.r[k].ended = how] ELSE g
       /\ Note([op |-> how, k |-> k])
  /\ nends' = nends + 1
  /\ UNCHANGED <<net, stack, shown, naborts>>

(* ---- notifications -----------------------------------------------------*)
In(f, k) == [t |-> "in", f |-> f, k |-> k]
Acts(f) == f \in Notes
Announce ==
  /\ stack = <<>>
  /\ \E k \in 1..NReps : Announces(k) /\
       LET r == R(s, k) a == AnsOf(net[k].kind, k) IN
       IF ~r.meta
       THEN /\ s' = NApply(s, [e |-> "meta", k |-> k, code |-> r.a.code, h |-> r.a.hs, ck |-> a.ck, loc |-> <<>>])
            /\ g' = [g EXCEPT !.bad = IF r.a.code = a.code THEN @ ELSE "code", !.jar[g.r[k].srv] = IF a.ck = <<>> THEN @ ELSE a.ck[1][2]]
            /\ stack' = Append(stack, In("meta", k)) /\ Note([op |-> "in", f |-> "meta", k |-> k])
            /\ UNCHANGED shown
       ELSE /\ s' = NApply(s, [e |-> "ready", k |-> k, n |-> Size(r.a.raw)])
            /\ shown' = [shown EXCEPT ![k] = Size(r.a.raw)]
            /\ g' = [g EXCEPT !.bad = IF IsPrefixOf(r.a.raw, BodyFor(net[k].kind, k, g.r[k].m)) THEN @ ELSE "content"]
            /\ stack' = Append(stack, In("ready", k)) /\ Note([op |-> "in", f |-> "ready", k |-> k])
  /\ UNCHANGED <<net, naborts, nends>>

Fin(k, ab) == [t |-> "fin", k |-> k, at |-> "error", ab |-> ab]
BeginEnd == /\ stack = <<>>
            /\ \E k \in 1..NReps : Over(k) /\ ~Announces(k) /\ stack' = <<Fin(k, FALSE)>>
            /\ Quiet /\ UNCHANGED <<s, net, shown, naborts, nends, g>>

(* how it must come out, by the ghost's own account *)
Rightly(k) ==
  LET q == g.r[k] kind == net[k].kind IN
  IF q.ab THEN 5
  ELSE IF Down /\ q.srv = Servers THEN 99
  ELSE IF kind = "bad" /\ AnsOf(kind, k).bad THEN IF net[k].todo = <<>> \/ R(s, k).a.q = "bad" THEN 301 ELSE 2
  ELSE IF kind # "" /\ net[k].todo = <<>> /\ (~AnsOf(kind, k).eof \/ q.m = cHead \/ q.ended # "") THEN 0
  ELSE IF kind # "" /\ AnsOf(kind, k).eof /\ q.m # cHead /\ q.ended # "" /\ Size(WireFor(kind, k, q.m)) - Size(net[k].todo) >= Size(AnsOf(kind, k).head) THEN 0
  ELSE 2
Outcome(k) == LET o == Outcomes(s, R(s, k)) IN IF 0 \in o THEN 0 ELSE IF 2 \in o THEN 2 ELSE CHOOSE x \in o : TRUE
SetTop(x) == [stack EXCEPT ![Len(stack)] = x]
EndStep ==
  /\ stack # <<>> /\ Top.t = "fin"
  /\ LET k == Top.k r == R(s, k) IN
     CASE Top.at = "error" /\ Outcome(k) # 0 ->
            /\ s' = NApply(s, [e |-> "error", k |-> k, err |-> Outcome(k)])
            /\ stack' = Append(SetTop([Top EXCEPT !.at = "told"]), In("error", k))
            /\ g' = [g EXCEPT !.bad = IF Outcome(k) = Rightly(k) THEN @ ELSE "error"]
            /\ Note([op |-> "in", f |-> "error", k |-> k])
       [] Top.at = "error" /\ Outcome(k) = 0 ->
            /\ stack' = SetTop([Top EXCEPT !.at = "told"])
            /\ g' = [g EXCEPT !.bad = IF Rightly(k) = 0 THEN @ ELSE "success"]
            /\ Quiet /\ UNCHANGED s
       [] Top.at = "told" ->
            /\ s' = NApply(s, [e |-> "told", k |-> k])
            /\ stack' = Append(SetTop([Top EXCEPT !.at = "done"]), In("told", k))
            /\ Note([op |-> "in", f |-> "told", k |-> k]) /\ UNCHANGED g
       [] Top.at = "done" ->
            /\ s' = NApply(s, [e |-> "done", k |-> k, err |-> IF r.errs = -1 THEN 0 ELSE r.errs, fin |-> TRUE, n |-> shown[k], code |-> IF r.meta THEN r.a.code ELSE 0])
            /\ stack' = Append(SetTop([Top EXCEPT !.at = "over"]), In("done", k))
            /\ g' = [g EXCEPT !.r[k].fin = @ + 1, !.bad = IF r.errs # -1 \/ (AnsOf(net[k].kind, k).eof /\ net[k].todo # <<>>)
                                                             \/ (r.a.raw = BodyFor(net[k].kind, k, g.r[k].m) /\ shown[k] = Size(r.a.raw)) THEN @ ELSE "whole content"]
            /\ Note([op |-> "in", f |-> "done", k |-> k])
       [] Top.at = "over" ->
            /\ s' = IF Top.ab THEN NApply(s, [e |-> "ret"]) ELSE s
            /\ stack' = Pop(stack) /\ Quiet /\ UNCHANGED g
  /\ UNCHANGED <<net, shown, naborts, nends>>
Return == /\ stack # <<>> /\ Top.t = "in"
          /\ stack' = Pop(stack) /\ Note([op |-> "out"])
          /\ UNCHANGED <<s, net, shown, naborts, nends, g>>

(* ---- the application ---------------------------------------------------*)
MayAct == (stack = <<>> /\ ~Due) \/ (stack # <<>> /\ Top.t = "in" /\ Acts(Top.f))
Starting ==
  /\ MayAct /\ NReps < MaxReqs
  /\ \E kind \in Kinds :
       LET q == KindOf[kind] k == NReps + 1
           e == [e |-> "start", m |-> q.m, s |-> q.s, t |-> CatAll(<<B("/k"), Dec(k - 1)>>), h |-> <<>>, d |-> <<>>] IN
       /\ s' = NApply(s, e)
       /\ net' = Append(net, [kind |-> "", todo |-> <<>>]) /\ shown' = Append(shown, 0)
       /\ g' = [g EXCEPT !.r = Append(@, [srv |-> q.s, m |-> q.m, ab |-> FALSE, ended |-> "", fin |-> 0,
                                          ck |-> IF g.jar[q.s] = <<>> THEN {} ELSE {<<B("c"), g.jar[q.s]>>}])]
       /\ Note([op |-> "start", m |-> q.m, s |-> q.s])
  /\ UNCHANGED <<stack, naborts, nends>>
Aborting ==
  /\ MayAct /\ naborts < MaxAborts
  /\ \E k \in 1..NReps :
       LET takes == ~\E i \in 1..Len(stack) : stack[i].t = "fin" /\ stack[i].k = k IN
       /\ s' = IF takes /\ Live(R(s, k)) THEN NApply(s, [e |-> "abort", k |-> k])
               ELSE NApply(NApply(s, [e |-> "abort", k |-> k]), [e |-> "ret"])
       /\ stack' = IF takes /\ Live(R(s, k)) THEN Append(stack, Fin(k, TRUE)) ELSE stack
       /\ g' = [g EXCEPT !.r[k].ab = @ \/ (takes /\ Live(R(s, k)))]
       /\ Note([op |-> "abort", k |-> k])
  /\ naborts' = naborts + 1
  /\ UNCHANGED <<net, shown, nends>>

Next == /\ (Travel \/ Answering \/ Ending \/ Announce \/ BeginEnd \/ EndStep \/ Return \/ Starting \/ Aborting)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NoError == s.err = ""
\* what is announced is what the reply's own answer means
Truthful == g.bad = ""
\* finished exactly once, and announced by the manager exactly once
OnceEach == \A k \in 1..NReps : g.r[k].fin <= 1 /\ (R(s, k).st = "done" <=> g.r[k].fin = 1)
\* every request travels to its own server, with the cookies held for it
OwnServer == \A k \in 1..NReps : /\ R(s, k).c # 0 => s.conns[R(s, k).c].srv = g.r[k].srv
                                 /\ {<<c[1], c[2]>> : c \in R(s, k).ck} = g.r[k].ck
\* a connection carries one unfinished exchange at a time
Exclusive == \A j, k \in 1..NReps : (j # k /\ R(s, j).c # 0 /\ R(s, j).c = R(s, k).c) => (g.r[j].fin = 1 \/ g.r[k].fin = 1)
\* nothing is owed once everything came to rest
Rested == (stack = <<>> /\ ~Due) => LET closedUp == [s EXCEPT !.conns = [i \in 1..Len(@) |-> [@[i] EXCEPT !.closed = TRUE]]] IN NRest(closedUp).err = ""
=============================================================================
