------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* A script handler that works step by step (looks at the file's time,     *)
(* reads it, runs it), while the file is edited before and in between, on  *)
(* every small sequence of requests and of things a script can do.         *)
(*                                                                         *)
(* The steps of the handler feed Script's PApply; what the client got and  *)
(* which version ran is recorded on the side and compared with what is     *)
(* meant.  With Faults the handler has one of them, and every exercised    *)
(* fault must have been found by the next time all is quiet.               *)
(***************************************************************************)
EXTENDS Script, Json, IOUtils

CONSTANTS Mode, Auto, Files, During, MaxEdits, MaxReqs, Kinds, Behs, Faults, Emit

Msg(m, u, hs, c) == CatAll(<<m, Space, u, Space, Http11, CRLF>> \o FoldLeft(LAMBDA a, h : a \o <<h[1], ColonSpace, h[2], CRLF>>, <<>>, hs) \o <<CRLF, c>>)
KindOf == [
  g |-> Msg(B("GET"), B("/g"), <<>>, <<>>),
  h |-> Msg(B("HEAD"), B("/h"), <<<<B("X-A"), B("1%2B2")>>>>, <<>>),
  q |-> Msg(B("GET"), B("/q%41?a=%2B1&b=x+y"), <<>>, <<>>),
  p |-> Msg(B("POST"), B("/p"), <<<<hContentLength, B("5")>>>>, B("a%41b")),
  c |-> Msg(B("GET"), B("/c"), <<<<hConnection, tClose>>>>, <<>>)]
MethodOf(k) == CASE k = "h" -> tHead [] k = "p" -> B("POST") [] OTHER -> B("GET")
Own == 201          \* what the script answers with, and the application when the script passed
Other == 404
ok == B("yes")
elsewhere == B("other")
oops == B("oops")
line500 == CatAll(<<Http11, Space, StatusTable[500]>>)

VARIABLES s, fs, im, pc, cur, n, clock, res, fault, hit, hist
vars == <<s, fs, im, pc, cur, n, clock, res, fault, hit, hist>>
Ghost == <<s, fs, im, pc, cur, n, res, fault, hit>>
F(x) == fault = x
RECURSIVE Pow3(_)
Pow3(k) == IF k = 0 THEN 1 ELSE 3 * Pow3(k - 1)
None == [kind |-> "missing", n |-> 0, t |-> 0, d |-> <<>>]
Do(st, e) == PApply(st, e)

Init == /\ fault \in (IF Faults = {} THEN {"none"} ELSE Faults) /\ hit = FALSE
        /\ s = Do(Do(pFresh, [e |-> "cfg", mode |-> Mode, auto |-> Auto]), [e |-> "init"])
        /\ fs = None /\ im = [n |-> 0, t |-> 0] /\ pc = "rest" /\ cur = [k |-> "", b |-> ""] /\ n = 0 /\ clock = 0 /\ res = <<>>
        /\ hist = <<[op |-> "init"]>>

(* ---- edits ---*)
FileOp(kind, m, dt) == [op |-> "file", kind |-> kind, n |-> m, dt |-> dt, replace |-> dt < 0]
Edit ==
  /\ pc = "rest" /\ n < MaxEdits /\ Mode = "file" /\ Len(res) < MaxReqs
  /\ \E kind \in Files : \E up \in BOOLEAN : \E d \in (IF kind \in Usable THEN {""} \cup During ELSE {""}) :
       LET dt == IF up THEN Pow3(n) ELSE -Pow3(n)
           dd == IF up THEN -Pow3(n + 1) ELSE Pow3(n + 1) IN
       /\ fs' = [kind |-> kind, n |-> n + 1, t |-> clock + dt, d |-> IF d = "" THEN <<>> ELSE <<[kind |-> d, n |-> n + 2, t |-> clock + dt + dd, d |-> <<>>]>>]
       /\ n' = n + (IF d = "" THEN 1 ELSE 2) /\ clock' = clock + dt + (IF d = "" THEN 0 ELSE dd)
       /\ s' = Do(s, [e |-> "file", kind |-> kind, n |-> n + 1])
       /\ hist' = Append(hist, IF d = "" THEN FileOp(kind, n + 1, dt) ELSE FileOp(kind, n + 1, dt) @@ [during |-> <<FileOp(d, n + 2, dd)>>])
  /\ UNCHANGED <<im, pc, cur, res, fault, hit>>
SetFn ==
  /\ pc = "rest" /\ n < MaxEdits /\ Mode = "fn" /\ Len(res) < MaxReqs
  /\ \E kind \in Files :
       /\ s' = Do(s, [e |-> "fn", kind |-> kind, n |-> n + 1]) /\ n' = n + 1
       /\ im' = IF F("keepfn") /\ kind # "good" THEN im ELSE [n |-> IF kind = "good" THEN n + 1 ELSE 0, t |-> 0]
       /\ fs' = [fs EXCEPT !.n = IF kind = "good" THEN n + 1 ELSE 0]
       /\ hist' = Append(hist, [op |-> "fn", kind |-> kind, n |-> n + 1])
  /\ UNCHANGED <<pc, cur, clock, res, fault, hit>>

(* ---- a request comes in ---*)
Ask ==
  /\ pc = "rest" /\ s.h.st = "recv" /\ Len(res) < MaxReqs
  /\ \E k \in Kinds, b \in Behs :
       LET a == Do(s, [e |-> "arrive", d |-> KindOf[k]])
           r == Do(a, [e |-> "ready", st |-> 3] @@ RequestOf(a.h)) IN
       /\ s' = Do(r, [e |-> "handle"]) /\ cur' = [k |-> k, b |-> b]
       /\ hist' = Append(hist, [op |-> "ask", d |-> KindOf[k], b |-> b])
       /\ res' = Append(res, [k |-> k, b |-> b, disk |-> [kind |-> fs.kind, n |-> fs.n], ran |-> 0, out |-> <<>>])
  /\ pc' = IF Mode = "fn" THEN "call" ELSE "look"
  /\ UNCHANGED <<fs, im, n, clock, fault, hit>>

(* ---- the handler ---*)
Stale == fs.kind # "missing" /\ (IF F("newer") THEN fs.t > im.t ELSE fs.t # im.t)
Wanted == im.n = 0 \/ ((Auto \/ F("eager")) /\ Stale /\ ~F("never"))
Look ==
  /\ pc = "look"
  /\ pc' = IF Wanted THEN "load" ELSE "call"
  /\ cur' = [k |-> cur.k, b |-> cur.b, t |-> fs.t]
  /\ hit' = (hit \/ Wanted # (im.n = 0 \/ (Auto /\ fs.kind # "missing" /\ fs.n # im.n)))
  /\ UNCHANGED <<s, fs, im, n, clock, res, fault, hist>>

Over(st, bytes) == \* the request is over: what the client got, and the connection if it ends
  /\ s' = IF st.h.st = "flush" THEN Do(Do(st, [e |-> "closed", left |-> 0, st |-> 7]), [e |-> "init"]) ELSE st
  /\ hist' = IF st.h.st = "flush" THEN Append(hist, [op |-> "init"]) ELSE hist
  /\ res' = [res EXCEPT ![Len(res)].out = bytes]
Completes(st) == IF st.h.st # "completing" THEN st
                 ELSE Do(Do(st, [e |-> "completed", code |-> st.h.resp.code, len |-> st.h.resp.len, st |-> 5]), [e |-> "endcompleted"])
Written(st) == [st EXCEPT !.h.act = Render(st.h.exp)]
(* answered in one go *)
Answer(st, code, c) == LET a == Do(st, [e |-> "call", op |-> "ws", s |-> code, h |-> <<>>, c |-> c]) IN
                       [st |-> Completes(IF F("blank") /\ code = Own THEN [a EXCEPT !.h.act = Take(Render(a.h.exp), Size(Render(a.h.exp)) - (IF cur.k = "h" THEN 0 ELSE Size(c)))] ELSE Written(a)),
                        out |-> Render(a.h.exp)]
(* a failure told by the handler itself *)
Tell(st) == LET b == CatAll(<<RenderHead(line500, <<<<hContentLength, B("4")>>, <<hContentType, vTextPlain>>>> \o (IF cur.k = "c" THEN <<<<hConnection, tClose>>>> ELSE <<>>)), IF cur.k = "h" THEN <<>> ELSE oops>>) IN
            [st |-> Do(Do(Do(st, [e |-> "out", d |-> b]), [e |-> "completed", code |-> 500, len |-> 4, st |-> 5]), [e |-> "endcompleted"]), out |-> b]
Handled(st, v) == Do(st, [e |-> "handled", ret |-> v])

Load ==
  /\ pc = "load"
  /\ LET s1 == IF fs.d = <<>> THEN s ELSE Do(s, [e |-> "file", kind |-> fs.d[1].kind, n |-> fs.d[1].n])
         after == IF fs.d = <<>> THEN fs ELSE fs.d[1]
         t == IF F("after") THEN after.t ELSE cur.t
         told == Tell(s1)
     IN /\ fs' = after
        /\ IF fs.kind \in Usable
           THEN /\ s' = s1 /\ im' = [n |-> fs.n, t |-> t] /\ pc' = "call"
                /\ UNCHANGED <<res, hist, hit>>
           ELSE IF F("keepold") /\ im.n # 0 THEN s' = s1 /\ pc' = "call" /\ hit' = TRUE /\ UNCHANGED <<im, res, hist>>
           ELSE IF F("silent") THEN /\ Over(Handled(s1, TRUE), <<>>) /\ pc' = "rest" /\ hit' = TRUE /\ UNCHANGED <<im>>
           ELSE /\ Over(Handled(told.st, ~F("unhandled")), told.out) /\ pc' = "rest"
                /\ im' = IF F("forget") THEN [im EXCEPT !.t = cur.t] ELSE im
                /\ hit' = (hit \/ F("unhandled"))
  /\ UNCHANGED <<cur, n, clock, fault>>

Saw(st) ==
  LET r == IF F("stale") /\ Len(res) > 1 THEN [st.h.req EXCEPT !.u = B("/old")] ELSE st.h.req IN
  Do(st, [e |-> "saw", n |-> im.n, m |-> r.m, u |-> PercentDecode(r.u), p |-> PercentDecode(r.p), q |-> PercentDecode(r.q), f |-> r.f,
          c |-> IF F("raw") THEN r.c ELSE PercentDecode(r.c),
          h |-> [i \in 1..Len(r.h) |-> <<r.h[i][1], PercentDecode(r.h[i][2])>>],
          ps |-> IF F("params") THEN LET ps == SplitByte(r.q, 38) IN [i \in 1..(IF r.q = <<>> THEN 0 ELSE Len(ps)) |-> LET k == FindByte(ps[i], 61) IN <<Take(ps[i], k), Drop(ps[i], k + 1)>>]
                ELSE ParseParams(r.q)])
Returned(st, v) == Do(st, [e |-> "returned", v |-> v])
Call1 ==
  /\ pc = "call"
  /\ LET s1 == Saw(s) b == cur.b IN
     IF im.n = 0 THEN      \* no function to call
        LET a == Answer(Handled(s, FALSE), Other, elsewhere) IN Over(a.st, a.out) /\ pc' = "rest" /\ UNCHANGED hit
     ELSE
     /\ res' = [res EXCEPT ![Len(res)].ran = im.n]
     /\ hit' = (hit \/ (F("blank") /\ b \in {"answer", "whole"} /\ cur.k # "h") \/ (F("stale") /\ Len(res) > 1) \/ (F("raw") /\ cur.k = "p") \/ (F("params") /\ cur.k = "q")
                    \/ (F("deaf") /\ b = "pass") \/ (F("nonerror") /\ b = "throw") \/ (F("quiet") /\ b \in {"error", "throw"}) \/ (F("pushy") /\ b = "torn")
                    \/ (F("keepfn") /\ Mode = "fn" /\ fs.n # im.n) \/ (F("twice") /\ b = "answer"))
     /\ CASE b = "answer" ->
               LET a == Answer(s1, Own, ok) x == Handled(Returned(IF F("twice") THEN Saw(a.st) ELSE a.st, TRUE), TRUE) IN
               s' = x /\ cur' = [k |-> cur.k, b |-> "", out |-> a.out] /\ pc' = "over" /\ UNCHANGED hist
          [] b = "pass" ->
               LET x == Handled(Returned(s1, FALSE), F("deaf")) a == Answer(x, Other, elsewhere) IN
               IF F("deaf") THEN s' = x /\ cur' = [k |-> cur.k, b |-> "", out |-> <<>>] /\ pc' = "over" /\ UNCHANGED hist
               ELSE s' = a.st /\ cur' = [k |-> cur.k, b |-> "", out |-> a.out] /\ pc' = "over" /\ UNCHANGED hist
          [] b = "later" -> s' = Handled(Returned(s1, TRUE), TRUE) /\ pc' = "wait" /\ cur' = cur /\ UNCHANGED hist
          [] b \in {"error", "throw"} ->
               LET x == Do(s1, [e |-> "threw"]) t == Tell(x) IN
               /\ IF F("quiet") \/ (F("nonerror") /\ b = "throw") THEN s' = Handled(x, TRUE) /\ cur' = [k |-> cur.k, b |-> "", out |-> <<>>]
                  ELSE s' = Handled(t.st, TRUE) /\ cur' = [k |-> cur.k, b |-> "", out |-> t.out]
               /\ pc' = "over" /\ UNCHANGED hist
          [] b = "whole" ->
               LET a == Answer(s1, Own, ok) IN
               s' = Handled(Do(a.st, [e |-> "threw"]), TRUE) /\ cur' = [k |-> cur.k, b |-> "", out |-> a.out] /\ pc' = "over" /\ UNCHANGED hist
          [] b = "torn" ->
               LET w == Written(Do(s1, [e |-> "call", op |-> "wh", s |-> Own, h |-> <<<<hContentLength, B("3")>>>>]))
                   a == Completes(w) IN      \* complete at once for HEAD
               /\ s' = Do(Do(Do(Handled(Do(a, [e |-> "threw"]), ~F("pushy")), [e |-> "peer"]), [e |-> "closed", left |-> 0, st |-> 7]), [e |-> "init"])
               /\ cur' = [k |-> cur.k, b |-> "", out |-> Render(w.h.exp)] /\ pc' = "over" /\ hist' = Append(hist, [op |-> "init"])
  /\ (im.n = 0 => cur' = cur) /\ UNCHANGED <<fs, im, n, clock, fault>>
Finish ==
  /\ pc = "over" /\ Over(s, cur.out) /\ pc' = "rest" /\ cur' = [k |-> "", b |-> ""]
  /\ UNCHANGED <<fs, im, n, clock, fault, hit>>
Late ==   \* the application answers what the script left open
  /\ pc = "wait"
  /\ LET a == Answer(s, Other, elsewhere) IN Over(a.st, a.out)
  /\ pc' = "rest" /\ UNCHANGED <<fs, im, cur, n, clock, fault, hit>>

Step == Edit \/ SetFn \/ Ask \/ Look \/ Load \/ Call1 \/ Finish \/ Late
Next == s.err = "" /\ Step /\ (IF Emit THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Right == fault = "none"
Rest == pc = "rest"
NoError == Right => s.err = ""
State == [e |-> "idle", st |-> StateCode(s.h), pend |-> 0]
Settles == (Right /\ Rest /\ s.h.st # "closed") => Do(s, State).err = ""
(* every request that is over has exactly one complete response, with the status that is meant *)
Meant(r) == IF r.ran = 0 THEN (IF Mode = "fn" THEN Other ELSE 500)
            ELSE CASE r.b \in {"answer", "whole", "torn"} -> Own [] r.b \in {"pass", "later"} -> Other [] OTHER -> 500
Answered == (Right /\ Rest) => \A i \in 1..Len(res) :
  LET r == res[i] a == DecodeAnswer(r.out, MethodOf(r.k), FALSE, 0) IN
  /\ a.got /\ StatusPart(a.line) = StatusTable[Meant(r)]
  /\ (r.b = "torn" /\ r.ran # 0 /\ r.k # "h") \/ (a.complete /\ a.rest = <<>>)
(* the version that ran is the one that was there when the request came *)
Ran == {i \in 1..Len(res) : res[i].ran # 0}
Current == (Right /\ Auto /\ Mode = "file") => \A i \in Ran : LET d == res[i].disk IN d.kind = "missing" \/ (d.kind \in Usable /\ d.n = res[i].ran)
Steady == (Right /\ ~Auto /\ Mode = "file") => \A i, j \in Ran : res[i].ran = res[j].ran
Used == (Right /\ Rest /\ Mode = "file") => \A i \in 1..Len(res) : (res[i].disk.kind \in Usable) => res[i].ran # 0
Given == (Right /\ Mode = "fn") => \A i \in 1..Len(res) : pc = "call" \/ res[i].ran = res[i].disk.n
Found == (hit /\ Rest /\ s.h.st # "closed") => (s.err # "" \/ Do(s, State).err # "")
=============================================================================
