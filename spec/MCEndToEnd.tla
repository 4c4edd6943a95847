----------------------------- MODULE MCEndToEnd -----------------------------
(***************************************************************************)
(* Exhaustive exploration of EndToEnd: applications asking, answering at   *)
(* once or piece by piece, giving up and breaking off at any moment; in    *)
(* between a client and a server that do what is due.                      *)
(*                                                                         *)
(* What each request and answer means is written down here by hand, so     *)
(* that the composition itself is checked: what the client's half puts on  *)
(* the wire is what the server's half reads there, what the server's half  *)
(* produces is read by the client's half as what the application meant,    *)
(* and both agree on whether the connection stays.  With any of the wrong  *)
(* implementations of Faults a fault is found by the next time all is      *)
(* quiet.  The behaviours are replayed into the real client and server.    *)
(***************************************************************************)
EXTENDS EndToEnd, Json, IOUtils

CONSTANTS Clients, MaxReqs,
          Kinds, Plans,       \* requests and answers offered
          MaxAborts, MaxClose,
          Nest,               \* what is done from inside notifications
          Pieces,             \* answers may come later, call by call
          Rush, Down, Timeout,
          Faults, Emit

Num(k) == Dec(k - 1)
MHead == B("HEAD")  MGet == B("GET")  MPost == B("POST")
MethodOf(kind) == CASE kind = "h" -> MHead [] kind \in {"p", "e"} -> MPost [] kind = "bad" -> B("AAAAAAAAAAAAAAAAAAAAA") [] OTHER -> MGet
FieldsOf(kind, k) == <<<<B("A"), Num(k)>>>> \o (IF kind = "c" THEN <<<<B("Connection"), B("close")>>>> ELSE IF kind = "e" THEN <<<<B("Expect"), B("100-continue")>>>> ELSE <<>>)
DataOf(kind, k) == IF kind \in {"p", "e"} THEN Cat(B("q"), Num(k)) ELSE <<>>
ServerOfKind(kind) == IF kind = "d" THEN 2 ELSE 1

XF(k) == <<B("X"), Num(k)>>
PlanCalls(p, k) ==
  CASE p = "len"   -> <<[op |-> "wr", s |-> 200, h |-> <<XF(k)>>, c |-> Cat(B("r"), Num(k))]>>
    [] p = "zero"  -> <<[op |-> "wr", s |-> 404, h |-> <<XF(k)>>, c |-> <<>>]>>
    [] p = "none"  -> <<[op |-> "wr", s |-> 204, h |-> <<XF(k)>>, c |-> <<>>]>>
    [] p = "chunk" -> <<[op |-> "wh", s |-> 201, h |-> <<XF(k), <<B("Transfer-Encoding"), B("chunked")>>>>], [op |-> "wc", c |-> Cat(B("a"), Num(k))], [op |-> "wc", c |-> B("b")], [op |-> "ec"]>>
    [] p = "open"  -> <<[op |-> "wh", s |-> 202, h |-> <<XF(k)>>], [op |-> "wc", c |-> Cat(B("o"), Num(k))], [op |-> "ec"]>>
    [] p = "fixed" -> <<[op |-> "wh", s |-> 206, h |-> <<<<B("Content-Length"), B("2")>>, XF(k)>>], [op |-> "wc", c |-> B("f")], [op |-> "wc", c |-> B("g")]>>
    [] p = "bye"   -> <<[op |-> "wr", s |-> 410, h |-> <<XF(k), <<B("Connection"), B("close")>>>>, c |-> B("z")]>>
    [] p = "redir" -> <<[op |-> "wr", s |-> 302, h |-> <<XF(k), <<B("Location"), Cat(B("/f"), Num(k))>>>>, c |-> <<>>]>>
PlanCode == [len |-> 200, zero |-> 404, none |-> 204, chunk |-> 201, open |-> 202, fixed |-> 206, bye |-> 410, redir |-> 302]
PlanBody(p, k) == CASE p = "len" -> Cat(B("r"), Num(k)) [] p = "chunk" -> CatAll(<<B("a"), Num(k), B("b")>>) [] p = "open" -> Cat(B("o"), Num(k))
                    [] p = "fixed" -> B("fg") [] p = "bye" -> B("z") [] OTHER -> <<>>
PlanKeeps(p, kind) == p \notin {"open", "bye"} /\ kind # "c"

VARIABLES s,
          ex,        \* per request: [c, kind, plan, uri, now, did, j, told, of, seen]; of # 0: the request a redirection of which it is
          nobj, nab, ncl, fault, hit, bad, hist
vars == <<s, ex, nobj, nab, ncl, fault, hit, bad, hist>>
Ghost == <<s, ex, nobj, nab, ncl, fault, hit, bad>>

Up == B("@u@")
Init == /\ s = LET t == EApply(eFresh, [e |-> "srv", clients |-> Clients, a |-> <<Up, B("@d@")>>, down |-> IF Down THEN <<2>> ELSE <<>>]) IN
              [t EXCEPT !.k = [c \in 1..Clients |-> [t.k[c] EXCEPT !.timeout = Timeout]]]
        /\ ex = <<>> /\ nobj = 0 /\ nab = 0 /\ ncl = 0
        /\ fault \in (IF Faults = {} THEN {"none"} ELSE Faults) /\ hit = FALSE /\ bad = "" /\ hist = <<>>
NEx == Len(ex)
F(f) == fault = f
Note(h) == hist' = Append(hist, h)

(* ---- asking ------------------------------------------------------------*)
NewEx(c, kind, plan, uri, now) == [c |-> c, kind |-> kind, plan |-> plan, uri |-> uri, now |-> now, of |-> 0, did |-> 0, j |-> 0, told |-> FALSE, seen |-> 0]
AskOp(c, kind, plan, k, now) == [op |-> "req", cl |-> c, m |-> MethodOf(kind), s |-> ServerOfKind(kind), t |-> Cat(B("/k"), Num(k)), h |-> FieldsOf(kind, k), d |-> DataOf(kind, k),
                                 app |-> SubSeq(PlanCalls(plan, k), 1, now)]
AskOn(t, c, o) == LET t1 == EApply(t, [e |-> "call", cl |-> c, op |-> "req", m |-> o.m, s |-> o.s, t |-> o.t, h |-> o.h, d |-> o.d]) IN EApply(t1, [e |-> "ret", cl |-> c])
AbortOn(t, c) == LET t1 == EApply(t, [e |-> "call", cl |-> c, op |-> "abort"])
                     t2 == IF Pending(t.k[c]) THEN EApply(EApply(t1, [e |-> "finished", cl |-> c, err |-> 4, code |-> 0, h |-> <<>>, c |-> <<>>]), [e |-> "endnote", cl |-> c]) ELSE t1
                 IN EApply(t2, [e |-> "ret", cl |-> c])
Nows(plan, k) == IF Pieces THEN 0..Len(PlanCalls(plan, k)) ELSE {Len(PlanCalls(plan, k))}

(* ---- the server --------------------------------------------------------*)
Root(n) == IF ex[n].of = 0 THEN n ELSE ex[n].of
Request(c) == LET all == {k \in 1..NEx : ex[k].c = c} IN IF all = {} THEN 0 ELSE CHOOSE k \in all : \A i \in all : i <= k     \* of a client: its latest
Which(j) == CHOOSE k \in 1..NEx : ex[k].uri = s.conn[j].r.t
Sees(j) == s.conn[j].asked /\ ~s.conn[j].over
SeeDue(j) == Sees(j) /\ ~s.conn[j].gone /\ ~F("unseen")
RECURSIVE Run1(_, _, _, _)
Run1(t, j, k, calls) ==        \* the application makes its calls on a connection
  IF calls = <<>> \/ t.err # "" \/ t.conn[j].h.st \notin {"sh", "sb"} THEN t
  ELSE LET t1 == EApply(EApply(t, [e |-> "acall", k |-> k] @@ calls[1]), [e |-> "aret", k |-> k])
           h == t1.conn[j].h
           t2 == IF t1.err = "" /\ h.st = "completing"
                 THEN EApply(EApply(t1, [e |-> "completed", k |-> k, code |-> h.resp.code, len |-> h.resp.len]), [e |-> "endcompleted", k |-> k])
                 ELSE t1
       IN Run1(t2, j, k, Tail(calls))
Shown(j) == RequestOf(Arrive(s.conn[j].h, EWire(Up, s.conn[j].r)))
See == \E j \in 1..Len(s.conn) : Sees(j) /\ ~F("unseen") /\
  LET k == Which(j)
      o == IF s.conn[j].obj = 0 THEN nobj + 1 ELSE s.conn[j].obj
      r == Shown(j)
      r1 == IF F("content") /\ r.c # <<>> THEN [r EXCEPT !.c = Take(@, 1)]
            ELSE IF F("field") THEN [r EXCEPT !.h = SelectSeq(@, LAMBDA f : f[1] # B("A"))]
            ELSE IF F("target") /\ k > 1 THEN [r EXCEPT !.u = ex[k-1].uri, !.p = ex[k-1].uri]
            ELSE IF F("method") THEN [r EXCEPT !.m = IF @ = MGet THEN MHead ELSE MGet] ELSE r
      e == [e |-> "ready", k |-> o] @@ r1
      t1 == EApply(s, e)
      t2 == IF F("again") /\ t1.err = "" THEN EApply(t1, e) ELSE t1
      t3 == Run1(t2, j, o, SubSeq(PlanCalls(ex[k].plan, k), 1, ex[k].now))
  IN /\ s' = t3 /\ nobj' = IF s.conn[j].obj = 0 THEN o ELSE nobj
     /\ ex' = [ex EXCEPT ![k].did = ex[k].now, ![k].j = j, ![k].seen = @ + 1]
     /\ hit' = (hit \/ (F("content") /\ r.c # <<>>) \/ F("field") \/ (F("target") /\ k > 1) \/ F("method") \/ F("again"))
     /\ bad' = IF r.m = MethodOf(ex[k].kind) /\ r.u = ex[k].uri /\ r.c = DataOf(ex[k].kind, Root(k)) /\ SelectSeq(r.h, LAMBDA f : Lower(f[1]) \notin {B("host"), B("content-length")}) = FieldsOf(ex[k].kind, Root(k))
               THEN bad ELSE "request"
     /\ UNCHANGED <<nab, ncl, fault, hist>>

Answering(k) == ex[k].j # 0 /\ ~s.conn[ex[k].j].over /\ s.conn[ex[k].j].h.st \in {"sh", "sb"} /\ Which(ex[k].j) = k
Closes(j) == LET n == s.conn[j] IN n.obj # 0 /\ ~n.over /\ (n.h.st \in {"flush", "closing"} \/ n.gone) /\ ~F("linger")
Close == \E j \in 1..Len(s.conn) : Closes(j) /\ s' = EApply(s, [e |-> "closed", k |-> s.conn[j].obj, left |-> 0])
         /\ UNCHANGED <<ex, nobj, nab, ncl, fault, hit, bad, hist>>

(* ---- the client --------------------------------------------------------*)
NewContent(k) == k.a.head /\ k.hdr /\ Size(Cat(k.taken, k.body)) < Size(k.a.raw)
MustFinish(k) == \/ (k.a.q = "done" /\ k.hdr /\ ~NewContent(k)) \/ k.a.q = "bad" \/ (k.eof # "" /\ k.a.q # "done")
                 \/ (k.fresh /\ k.pend # <<>> /\ Req1(k).s \in k.down)
TellsHeaders(c) == LET k == s.k[c] IN Pending(k) /\ k.a.head /\ ~k.hdr
TellsData(c) == LET k == s.k[c] IN Pending(k) /\ NewContent(k)
TellsEnd(c) == LET k == s.k[c] IN Pending(k) /\ MustFinish(k) /\ ~F("silent")
Tells(c) == TellsHeaders(c) \/ TellsData(c) \/ TellsEnd(c)
Skips(c) == LET k == s.k[c] IN Pending(k) /\ MustFinish(k) /\ F("silent")

Inside(w, t, c, k) ==      \* what an application does from inside a notification
  CASE w = "" -> t
    [] w = "abort" -> AbortOn(t, c)
    [] w = "consume" -> EApply(t, [e |-> "consume", cl |-> c, c |-> t.k[c].body])
InsideOps(w, c) == IF w = "" THEN <<>> ELSE <<[op |-> w, cl |-> c]>>

Own(c) == Request(c)
TellHeaders == \E c \in 1..Clients : TellsHeaders(c) /\ \E w \in {""} \cup (Nest \cap {"abort"}) :
  LET k == s.k[c] n == Own(c)
      e == [e |-> "headers", cl |-> IF F("crossed") THEN 1 + (c % Clients) ELSE c, code |-> IF F("code") THEN 500 ELSE k.a.code,
            h |-> IF F("unfield") THEN SelectSeq(k.a.hs, LAMBDA f : f[1] # B("X")) ELSE k.a.hs, c |-> <<>>]
      t1 == EApply(s, e)
  IN /\ w = "abort" => nab < MaxAborts
     /\ s' = EApply(Inside(w, t1, c, n), [e |-> "endnote", cl |-> c])
     /\ nab' = IF w = "abort" THEN nab + 1 ELSE nab
     /\ hit' = (hit \/ F("code") \/ F("unfield") \/ (F("crossed") /\ Clients > 1))
     /\ bad' = IF ex[n].kind = "bad" \/ (k.a.code = PlanCode[ex[n].plan] /\ XF(n) \in {k.a.hs[i] : i \in 1..Len(k.a.hs)}) THEN bad ELSE "headers"
     /\ Note([op |-> "in", f |-> "headers", cl |-> c, ops |-> InsideOps(w, c)])
     /\ UNCHANGED <<ex, nobj, ncl, fault>>
TellData == \E c \in 1..Clients : TellsData(c) /\ \E w \in {""} \cup (Nest \cap {"abort", "consume"}) :
  LET k == s.k[c] n == Own(c)
      x == Drop(k.a.raw, Size(k.taken))
      y == IF F("lost") THEN Drop(x, 1) ELSE IF F("other") THEN Cat(B("z"), Drop(x, 1)) ELSE x
      t1 == EApply(s, [e |-> "data", cl |-> c, c |-> y])
  IN /\ w = "abort" => nab < MaxAborts
     /\ s' = EApply(Inside(w, t1, c, n), [e |-> "endnote", cl |-> c])
     /\ nab' = IF w = "abort" THEN nab + 1 ELSE nab
     /\ hit' = (hit \/ (F("lost") /\ Size(x) > 1 /\ Drop(x, 1) # x) \/ (F("other") /\ y # x))
     /\ bad' = IF ex[n].kind = "bad" \/ IsPrefixOf(k.a.raw, PlanBody(ex[n].plan, n)) THEN bad ELSE "data"
     /\ Note([op |-> "in", f |-> "data", cl |-> c, ops |-> InsideOps(w, c)])
     /\ UNCHANGED <<ex, nobj, ncl, fault>>
Outcome(k) == IF k.a.q = "done" THEN 0 ELSE IF k.a.q = "bad" THEN 2 ELSE IF k.eof # "" THEN 3 ELSE 1
BodyTold(n) == IF ex[n].kind = "h" THEN <<>> ELSE PlanBody(ex[n].plan, n)
(* by hand: which outcomes a request may have *)
Rightly(c, o) ==
  LET n == Own(c) x == ex[n] IN
  CASE x.kind = "d" -> o = 1
    [] x.kind = "bad" -> o = 0 /\ s.k[c].a.code = 400
    [] OTHER -> IF o = 0 THEN (x.did = Len(PlanCalls(x.plan, n)) \/ (x.kind = "h" /\ x.did > 0) \/ (x.plan = "open" /\ x.did > 0)) ELSE o = 3 /\ ncl > 0
TellEnd == \E c \in 1..Clients : TellsEnd(c) /\ \E w \in {""} \cup (Nest \cap {"ask", "consume"}), kind \in Kinds, plan \in Plans :
  LET k == s.k[c] n == Own(c) o == Outcome(k)
      rest == Drop(k.a.raw, Size(k.taken))
      e == [e |-> "finished", cl |-> c, err |-> IF F("failed") THEN (IF o = 0 THEN 3 ELSE 0) ELSE o,
            code |-> IF o = 0 THEN k.a.code ELSE 0, h |-> IF o = 0 THEN k.a.hs ELSE <<>>, c |-> IF o # 0 THEN <<>> ELSE IF F("stale") THEN Cat(B("r"), rest) ELSE rest]
      t0 == EApply(s, e)
      t1 == IF F("twice") /\ t0.err = "" THEN EApply(t0, e) ELSE t0
      op == AskOp(c, kind, plan, NEx + 1, Len(PlanCalls(plan, NEx + 1)))
  IN /\ w # "ask" => (kind = CHOOSE x \in Kinds : TRUE) /\ (plan = CHOOSE x \in Plans : TRUE)
     /\ w = "ask" => NEx < MaxReqs /\ (kind = "d" => Down)
     /\ s' = EApply(IF w = "ask" THEN AskOn(t1, c, op) ELSE Inside(w, t1, c, n), [e |-> "endnote", cl |-> c])
     /\ ex' = LET x == [ex EXCEPT ![n].told = TRUE] IN IF w = "ask" THEN Append(x, NewEx(c, kind, plan, op.t, Len(PlanCalls(plan, NEx + 1)))) ELSE x
     /\ hit' = (hit \/ F("failed") \/ F("twice") \/ (F("stale") /\ o = 0))
     /\ bad' = IF ~Rightly(c, o) THEN "outcome" ELSE IF ex[n].kind = "bad" \/ o # 0 \/ k.a.raw = BodyTold(n) \/ (ex[n].plan = "open" /\ ncl > 0 /\ IsPrefixOf(k.a.raw, BodyTold(n))) THEN bad ELSE "content"
     /\ Note([op |-> "in", f |-> "finished", cl |-> c, ops |-> IF w = "ask" THEN <<op>> ELSE InsideOps(w, c)])
     /\ UNCHANGED <<nobj, nab, ncl, fault>>
(* the wrong implementations that do nothing, or too early *)
Omit == \/ (\E c \in 1..Clients : Skips(c)) /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, ex, nobj, nab, ncl, fault, bad, hist>>
        \/ F("unseen") /\ (\E j \in 1..Len(s.conn) : Sees(j) /\ ~s.conn[j].gone) /\ ~hit /\ hit' = TRUE /\ UNCHANGED <<s, ex, nobj, nab, ncl, fault, bad, hist>>
        \/ F("linger") /\ (\E j \in 1..Len(s.conn) : LET n == s.conn[j] IN n.obj # 0 /\ ~n.over /\ (n.h.st \in {"flush", "closing"} \/ n.gone)) /\ ~hit /\ hit' = TRUE
           /\ UNCHANGED <<s, ex, nobj, nab, ncl, fault, bad, hist>>
        \/ F("early") /\ (\E c \in 1..Clients : LET k == s.k[c] IN Pending(k) /\ k.hdr /\ k.a.q # "done" /\ k.eof = "" /\ ~NewContent(k)
              /\ s' = EApply(s, [e |-> "finished", cl |-> c, err |-> 0, code |-> k.a.code, h |-> k.a.hs, c |-> k.body])) /\ hit' = TRUE
           /\ UNCHANGED <<ex, nobj, nab, ncl, fault, bad, hist>>

(* ---- what is due, and the applications ---------------------------------*)
Due == (\E j \in 1..Len(s.conn) : SeeDue(j) \/ Closes(j)) \/ (\E c \in 1..Clients : Tells(c))
May == (Rush \/ ~Due) /\ ~(hit /\ ~Due)
Ask == /\ May /\ NEx < MaxReqs
  /\ \E c \in 1..Clients, kind \in Kinds, plan \in Plans :
       /\ ~Pending(s.k[c]) /\ (kind = "d" => Down)
       /\ \E now \in Nows(plan, NEx + 1) :
            LET op == AskOp(c, kind, plan, NEx + 1, now) IN
            /\ s' = AskOn(s, c, op) /\ ex' = Append(ex, NewEx(c, kind, plan, op.t, now)) /\ Note(op)
  /\ UNCHANGED <<nobj, nab, ncl, fault, hit, bad>>
Follow == /\ May /\ NEx < MaxReqs
  /\ \E c \in 1..Clients, plan \in Plans :
       /\ ~Pending(s.k[c]) /\ s.k[c].last.code = 302
       /\ LET n == Own(c) u == Cat(B("/f"), Num(n)) IN
          /\ ex[n].plan = "redir" /\ \A i \in 1..NEx : ex[i].uri # u
          /\ s' = EApply(EApply(s, [e |-> "call", cl |-> c, op |-> "follow"]), [e |-> "ret", cl |-> c])
          /\ ex' = Append(ex, [NewEx(c, ex[n].kind, plan, u, Len(PlanCalls(plan, NEx + 1))) EXCEPT !.of = Root(n)])
          /\ Note([op |-> "follow", cl |-> c, t |-> u, app |-> PlanCalls(plan, NEx + 1)])
  /\ UNCHANGED <<nobj, nab, ncl, fault, hit, bad>>
Late == /\ May
  /\ \E k \in 1..NEx : Answering(k) /\ ex[k].did < Len(PlanCalls(ex[k].plan, k))
       /\ LET c == PlanCalls(ex[k].plan, k)[ex[k].did + 1] IN
          /\ s' = Run1(s, ex[k].j, s.conn[ex[k].j].obj, <<c>>)
          /\ ex' = [ex EXCEPT ![k].did = @ + 1] /\ Note([op |-> "late", u |-> ex[k].uri, ops |-> <<c>>])
  /\ UNCHANGED <<nobj, nab, ncl, fault, hit, bad>>
Abort == /\ May /\ nab < MaxAborts
  /\ \E c \in 1..Clients : /\ s' = AbortOn(s, c) /\ Note([op |-> "abort", cl |-> c])
  /\ nab' = nab + 1 /\ UNCHANGED <<ex, nobj, ncl, fault, hit, bad>>
Drop1 == /\ ~Due /\ ~hit /\ ncl < MaxClose
  /\ \E k \in 1..NEx : Answering(k) /\ s' = Run1(s, ex[k].j, s.conn[ex[k].j].obj, <<[op |-> "close"]>>) /\ Note([op |-> "late", u |-> ex[k].uri, ops |-> <<[op |-> "close"]>>])
  /\ ncl' = ncl + 1 /\ UNCHANGED <<ex, nobj, nab, fault, hit, bad>>

Next == /\ s.err = ""
        /\ (See \/ Close \/ TellHeaders \/ TellData \/ TellEnd \/ Omit \/ Ask \/ Follow \/ Late \/ Abort \/ Drop1)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Right == fault = "none"
NoError == Right => s.err = ""
Waiting == LET P == {c \in 1..Clients : Pending(s.k[c])} IN [e |-> "idle", pend |-> SetToSeq(P)]
Settles == (Right /\ ~Due) => EIdle(s, Waiting).err = ""
(* what was seen and told is what was asked and answered, by the hand-written account *)
Truthful == Right => bad = ""
Once == Right => \A k \in 1..NEx : ex[k].seen <= 1
(* both ends agree on whether the connection stays for another request *)
KeepAgrees == (Right /\ ~Due) => \A c \in 1..Clients : LET k == s.k[c] j == k.conn.id IN
  (~Pending(k) /\ j # 0 /\ k.conn.open) => (~s.conn[j].over /\ ~s.conn[j].shut /\ s.conn[j].h.st = "recv" /\ s.conn[j].h.rx = <<>>)
KeptAsMeant == (Right /\ ~Due /\ Timeout # 0) => \A c \in 1..Clients : LET k == s.k[c] n == Own(c) IN
  (n # 0 /\ ~Pending(k) /\ ex[n].told /\ nab = 0 /\ ncl = 0 /\ ex[n].kind \notin {"bad", "d"}) =>
     (k.conn.open <=> PlanKeeps(ex[n].plan, ex[n].kind))
Found == (hit /\ ~Due) => (s.err # "" \/ EIdle(s, Waiting).err # "")
=============================================================================
