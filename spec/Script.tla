------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* Requests handled by scripts: what the script sees of a request, which   *)
(* version of it runs, and what becomes of the request, on one connection  *)
(* that behaves as HttpConnection says.                                    *)
(*                                                                         *)
(* The file (or function) changes under the handler's feet at any moment.  *)
(* PApply(s, e) is the next state, or one whose err says what was wrong.   *)
(***************************************************************************)
EXTENDS HttpConnection, ClientView

(* file: the script's kind and version; edited: it was changed since the   *)
(* handler last read it; loaded: the version the handler has, 0 if none.   *)
(* run: where the handling of the current request stands:                  *)
(*   ""  no handler at work          script    a script has to run         *)
(*   refuse  must not be handled     broken    the script cannot be used   *)
(*   either  old script or broken    seen      the script is running       *)
(*   true, false  it returned        clean, late   it failed, before or    *)
(*   told  a failure was reported       after the response was begun       *)
pFresh == [err |-> "", h |-> Fresh, mode |-> "file", auto |-> TRUE, file |-> [kind |-> "missing", n |-> 0], edited |-> TRUE, loaded |-> 0,
           run |-> "", torn |-> FALSE]
PFail(s, why) == [s EXCEPT !.err = why]
PConn(s, h) == IF h.err # "" THEN PFail(s, h.err) ELSE [s EXCEPT !.h = h]

Usable == {"good", "later", "local"}
Unusable == {"syntax", "toperror", "nofunction", "number", "empty"}

PHandle(s) ==
  LET s1 == PConn(s, Synced(s.h)) IN
  IF s1.err # "" THEN s1
  ELSE IF s.mode = "fn" THEN [s1 EXCEPT !.run = IF s.loaded = 0 THEN "refuse" ELSE "script"]
  ELSE IF s.loaded # 0 /\ ~(s.auto /\ s.edited) THEN [s1 EXCEPT !.run = "script"]
  ELSE CASE s.file.kind \in Usable -> [s1 EXCEPT !.loaded = s.file.n, !.edited = FALSE, !.run = "script"]
         [] s.file.kind \in Unusable -> [s1 EXCEPT !.run = "broken"]
         \* a script taken away: what was there last may go on
         [] s.file.kind = "missing" -> [s1 EXCEPT !.run = IF s.loaded = 0 THEN "broken" ELSE "either"]
         \* failing after its functions were defined: may be used or not
         [] s.file.kind = "topstring" -> [s1 EXCEPT !.run = "either", !.loaded = s.file.n, !.edited = FALSE]

(* what an object shows of a list of named values: each name with one of its values *)
Shows(obj, list) ==
  LET names == {list[i][1] : i \in 1..Len(list)} IN
  /\ {obj[i][1] : i \in 1..Len(obj)} = names
  /\ Len(obj) = Cardinality(names)
  /\ \A i \in 1..Len(obj) : \E j \in 1..Len(list) : list[j] = obj[i]
Wrong(s, e) ==
  LET r == s.h.req IN
  IF e.n # s.loaded THEN "version of the script"
  ELSE IF e.m # PercentDecode(r.m) THEN "method"
  ELSE IF e.u # PercentDecode(r.u) THEN "URI"
  ELSE IF e.p # PercentDecode(r.p) THEN "path"
  ELSE IF e.q # PercentDecode(r.q) THEN "query string"
  ELSE IF e.f # PercentDecode(r.f) THEN "fragment"
  ELSE IF e.c # PercentDecode(r.c) THEN "content"
  ELSE IF ~Shows(e.h, [i \in 1..Len(r.h) |-> <<r.h[i][1], PercentDecode(r.h[i][2])>>]) THEN "headers"
  ELSE IF ~Shows(e.ps, ParseParams(r.q)) THEN "parameters"
  ELSE ""
PSaw(s, e) ==
  IF s.run \notin {"script", "either"} THEN PFail(s, "script called that is not to be called")
  ELSE LET w == Wrong(s, e) IN IF w # "" THEN PFail(s, "script called with the wrong " \o w) ELSE [s EXCEPT !.run = "seen"]

PThrew(s) ==
  LET s1 == PConn(s, IF s.h.st = "sh" THEN Synced(s.h) ELSE s.h) IN
  IF s.run # "seen" THEN PFail(s, "script failed that does not run") ELSE [s1 EXCEPT !.run = IF s.h.st = "sh" THEN "clean" ELSE "late", !.torn = @ \/ s.h.st = "sb"]

(* the handler reports a failure by itself: a complete 500 response with any text *)
Report(h) ==
  LET a == DecodeAnswer(h.act, h.req.m, FALSE, 0)
      len == ValuesOf(a.hs, cvContentLength)
      n == IF h.req.m # cvHead THEN Size(a.body) ELSE IF len = <<>> THEN 0 ELSE DecValue(len[1])
      body == IF n = 0 THEN <<>> ELSE IF h.req.m = cvHead THEN <<Run(120, n)>> ELSE a.body
  IN IF ~a.got THEN Fail(h, "failure not reported to the client")
     ELSE IF StatusPart(a.line) # StatusTable[500] THEN Fail(h, "failure reported with the wrong status")
     ELSE IF ~a.complete THEN Fail(h, "failure reported incompletely")
     ELSE Call(h, [op |-> "ws", s |-> 500, h |-> <<>>, c |-> body])
PCompleted(s, e) ==
  IF s.run \in {"clean", "broken", "either"} /\ s.h.st = "sh"
  THEN LET h1 == Report(s.h) IN
       IF h1.err # "" THEN PFail(s, h1.err) ELSE [PConn(s, Completed(h1, e)) EXCEPT !.run = "told"]
  ELSE PConn(s, Completed(s.h, e))

PHandled(s, e) ==
  LET over == [s EXCEPT !.run = ""] gone == s.h.st \in {"closing", "closed"} IN
  CASE s.run = "refuse" -> IF e.ret THEN PFail(s, "request taken without a script") ELSE over
    [] s.run \in {"script", "either"} -> IF gone THEN over ELSE PFail(s, "script not called")
    [] s.run = "seen"  -> PFail(s, "handler returned before the script")
    [] s.run \in {"broken", "clean"} -> IF gone THEN over ELSE PFail(s, "failure not reported to the client")
    [] s.run = "told"  -> IF e.ret THEN over ELSE PFail(s, "reported failure passed on as not handled")
    [] s.run = "late"  -> IF e.ret THEN over ELSE PFail(s, "request passed on although its response was begun")
    [] s.run \in {"true", "false"} -> IF e.ret # (s.run = "true") THEN PFail(s, "the script's answer whether it handled the request was lost") ELSE over

PClosed(s, e) == PConn(s, Closed(IF s.torn /\ s.h.st = "sb" THEN Peer(s.h) ELSE s.h, e))

PApply(s, e) ==
  CASE e.e = "cfg"  -> [s EXCEPT !.mode = e.mode, !.auto = e.auto]
    [] e.e = "file" -> [s EXCEPT !.file = [kind |-> e.kind, n |-> e.n], !.edited = TRUE]
    [] e.e = "fn"   -> [s EXCEPT !.loaded = IF e.kind = "good" THEN e.n ELSE 0]
    [] e.e = "init" -> [PConn(s, Initialize(s.h)) EXCEPT !.torn = FALSE]
    [] e.e = "ready" -> LET h == Ready(s.h, e) IN [PConn(s, h) EXCEPT !.torn = FALSE]
    [] e.e = "handle" -> PHandle(s)
    [] e.e = "saw"  -> PSaw(s, e)
    [] e.e = "returned" -> IF s.run # "seen" THEN PFail(s, "script returned that does not run") ELSE [s EXCEPT !.run = IF e.v THEN "true" ELSE "false"]
    [] e.e = "threw" -> PThrew(s)
    [] e.e = "completed" -> PCompleted(s, e)
    [] e.e = "handled" -> PHandled(s, e)
    [] e.e = "closed" -> PClosed(s, e)
    [] OTHER -> PConn(s, Apply(s.h, e))
=============================================================================
