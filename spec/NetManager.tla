----------------------------- MODULE NetManager -----------------------------
(***************************************************************************)
(* Pillow::NetworkAccessManager: many replies over many connections to     *)
(* several servers at once, sharing a cookie jar.                          *)
(*                                                                         *)
(* Every reply is an exchange of its own: what its server sends on the     *)
(* connection that carries its request is what it announces, and nothing   *)
(* else.  A connection carries one exchange at a time, and another one, to *)
(* the same server, only after a complete answer that allows it.           *)
(* NApply(s, e) is the next state, or one whose err says what was wrong.   *)
(***************************************************************************)
EXTENDS HttpClient

nmFresh == [err |-> "", auth |-> <<>>, down |-> {}, codings |-> {}, reps |-> <<>>, conns |-> <<>>, jar |-> <<>>,
            starts |-> <<>>, accepts |-> <<>>, calls |-> <<>>, dying |-> {}]
NFail(s, why) == [s EXCEPT !.err = why]

nNoAnswer == [q |-> "head", head |-> FALSE]
nmSetCookie == B("set-cookie")
nmCookie == B("cookie")
nmPath == B("path")
nmMaxAge == B("max-age")
nmGap == B("; ")
nmJoin == B(", ")
NmErr == [none |-> 0, network |-> 99, invalid |-> 301, closed |-> 2, aborted |-> 5]

(* ---- cookies: name, value, path, the host they belong to ---------------*)
HostOf(auth) == LET k == FindByte(auth, 58) IN IF k < 0 THEN auth ELSE Take(auth, k)
LTrim(x) == IF x # <<>> /\ RunByte(x[1]) = SP THEN Tail(x) ELSE x
Part(x) == LET k == FindByte(x, 61) IN IF k < 0 THEN <<x, <<>>>> ELSE <<Take(x, k), Drop(x, k + 1)>>
CookieOf(v, host) ==
  LET ps == SplitByte(v, 59)
      p(i) == Part(LTrim(ps[i]))
      path == {i \in 2..Len(ps) : Lower(p(i)[1]) = nmPath}
      age == {i \in 2..Len(ps) : Lower(p(i)[1]) = nmMaxAge}
  IN [host |-> host, n |-> p(1)[1], v |-> p(1)[2],
      path |-> IF path = {} THEN cSlash ELSE p(CHOOSE i \in path : TRUE)[2],
      dead |-> age # {} /\ DecValue(p(CHOOSE i \in age : TRUE)[2]) = 0]
CookiesIn(hs, host) == LET vs == RValues(hs, nmSetCookie) IN [i \in 1..Len(vs) |-> CookieOf(vs[i], host)]
SameCookie(a, b) == a.host = b.host /\ a.n = b.n /\ a.path = b.path
Keep(jar, c) == LET rest == SelectSeq(jar, LAMBDA o : ~SameCookie(o, c)) IN IF c.dead THEN rest ELSE Append(rest, c)
PathOf(t) == LET at == {FindByte(t, 63), FindByte(t, 35)} \ {-1} IN IF at = {} THEN t ELSE Take(t, CHOOSE k \in at : \A j \in at : k <= j)
Under(path, t) == LET p == PathOf(t) IN IsPrefixOf(path, p) /\ (Size(p) = Size(path) \/ path = cSlash \/ RunByte(Drop(p, Size(path))[1]) = 47)
CookiesFor(s, srv, t) == {<<c.n, c.v>> : c \in {s.jar[i] : i \in {j \in 1..Len(s.jar) : s.jar[j].host = HostOf(s.auth[srv]) /\ Under(s.jar[j].path, t)}}}

(* ---- replies -----------------------------------------------------------*)
R(s, k) == s.reps[k]
NewReply(s, e) == [m |-> e.m, s |-> e.s, t |-> e.t, h |-> e.h, d |-> e.d, ck |-> CookiesFor(s, e.s, e.t), c |-> 0, rx |-> <<>>, eof |-> "", lossy |-> FALSE,
                   a |-> nNoAnswer, meta |-> FALSE, taken |-> <<>>, st |-> "live", errs |-> -1, told |-> FALSE, abort |-> FALSE, dropped |-> FALSE]
Live(r) == r.st = "live"
AsClient(s, r) == [a |-> r.a, codings |-> s.codings]
NmReported(s, r, x) == Reported(AsClient(s, r), x)
(* a coded body cut short by the end of its connection: how much of it shows is left open *)
Cuttable(s, r) == IsGzip(r.a.hs) /\ \A c \in s.codings : c.raw # r.a.raw

NStart(s, e) == [s EXCEPT !.reps = Append(@, NewReply(s, e)), !.starts[e.s] = @ + 1]

Cut(s, r) == IF r.abort THEN "aborted"
             ELSE IF r.a.q = "done" THEN (IF r.lossy THEN "either" ELSE "none")
             ELSE IF r.a.q = "bad" THEN "invalid"
             ELSE IF r.eof # "" THEN (IF r.eof = "rst" THEN "lost" ELSE "closed")
             ELSE IF r.s \in s.down THEN "network"
             ELSE IF r.c = 0 /\ \E c \in s.dying : s.conns[c].srv = r.s THEN "race"   \* sent on a connection whose end was on its way
             ELSE "open"
Outcomes(s, r) == LET c == Cut(s, r) IN
  CASE c = "either" -> {NmErr.none, NmErr.closed, NmErr.network}
    [] c \in {"lost", "race"} -> {NmErr.closed, NmErr.network}
    [] c = "open" -> {}
    [] OTHER -> {NmErr[c]}

(* an abort of a reply that is over, or is just announcing so, does nothing *)
NAbort(s, k) == LET takes == Live(R(s, k)) /\ R(s, k).errs = -1 /\ ~R(s, k).told IN
  [s EXCEPT !.reps[k].abort = @ \/ takes, !.calls = Append(@, IF takes THEN k ELSE 0)]
NRet(s) == LET k == s.calls[Len(s.calls)] IN
           IF k # 0 /\ Live(R(s, k)) THEN NFail(s, "abort not announced") ELSE [s EXCEPT !.calls = SubSeq(@, 1, Len(@) - 1)]

(* the header fields of a reply: one per name, repeated ones joined *)
NamesIn(hs) == {Lower(hs[i][1]) : i \in 1..Len(hs)}
Joined(hs, n) == LET v == RValues(hs, n) IN FoldLeft(LAMBDA a, i : IF i = 1 THEN v[1] ELSE CatAll(<<a, nmJoin, v[i]>>), <<>>, [i \in 1..Len(v) |-> i])
(* how an empty value is joined with others is left open, and so is the raw form of what is reported as cookies *)
OpenNames(hs) == {nmSetCookie} \cup {n \in NamesIn(hs) : LET v == RValues(hs, n) IN Len(v) > 1 /\ \E i \in 1..Len(v) : v[i] = <<>>}
FieldsOf(hs) == {f \in {<<n, Joined(hs, n)>> : n \in NamesIn(hs) \ OpenNames(hs)} : f[2] # <<>>}
FieldsSeen(seen, hs) == {f \in {<<Lower(seen[i][1]), seen[i][2]>> : i \in 1..Len(seen)} : f[2] # <<>> /\ f[1] \notin OpenNames(hs)}

NMeta(s, e) ==
  LET r == R(s, e.k) host == HostOf(s.auth[r.s]) cks == CookiesIn(r.a.hs, host) IN
  IF ~Live(r) THEN NFail(s, "headers announced by a reply that is over")
  ELSE IF r.abort THEN NFail(s, "headers announced by an aborted reply")
  ELSE IF r.meta THEN NFail(s, "headers announced twice")
  ELSE IF ~r.a.head THEN NFail(s, "headers announced before they arrived")
  ELSE IF e.code # r.a.code THEN NFail(s, "wrong status code")
  ELSE IF FieldsSeen(e.h, r.a.hs) # FieldsOf(r.a.hs) THEN NFail(s, "wrong header fields")
  ELSE IF e.ck # [i \in 1..Len(cks) |-> <<cks[i].n, cks[i].v>>] THEN NFail(s, "wrong cookies reported")
  ELSE LET loc == RValues(r.a.hs, cnLocation) IN
       IF e.loc # (IF loc = <<>> THEN <<>> ELSE loc[Len(loc)]) THEN NFail(s, "wrong redirection target")
       ELSE [s EXCEPT !.reps[e.k].meta = TRUE, !.jar = FoldLeft(Keep, @, cks)]

NReady(s, e) ==
  LET r == R(s, e.k) IN
  IF ~Live(r) \/ r.abort THEN NFail(s, "content announced by a reply that is over")
  ELSE IF ~r.meta THEN NFail(s, "content announced before the headers")
  ELSE IF ~IsGzip(r.a.hs) /\ e.n > Size(r.a.raw) - Size(r.taken) THEN NFail(s, "more content available than arrived")
  ELSE s

NRead(s, e) ==
  LET r == R(s, e.k) all == Cat(r.taken, e.d) IN
  IF ~NmReported(s, r, all) THEN NFail(s, "wrong content read")
  ELSE IF e.all /\ r.st = "done" /\ r.errs = -1 /\ ~Cuttable(s, r) /\ all # FullBody(AsClient(s, r), r.a) THEN NFail(s, "content missing")
  ELSE [s EXCEPT !.reps[e.k].taken = all]

NError(s, e) ==
  LET r == R(s, e.k) IN
  IF ~Live(r) \/ r.errs # -1 THEN NFail(s, "error announced by a reply that is over")
  ELSE IF e.err \notin Outcomes(s, r) \ {0} THEN NFail(s, "wrong error announced")
  ELSE LET s1 == [s EXCEPT !.reps[e.k].errs = e.err] IN IF r.c = 0 THEN s1 ELSE [s1 EXCEPT !.conns[r.c].ok = FALSE]

NDone(s, e) ==
  LET r == R(s, e.k) IN
  IF ~Live(r) THEN NFail(s, "finished twice")
  ELSE IF Cut(s, r) = "open" THEN NFail(s, "finished although the answer is still awaited")
  ELSE IF e.err \notin Outcomes(s, r) THEN NFail(s, "finished with the wrong error")
  ELSE IF (IF e.err = 0 THEN -1 ELSE e.err) # r.errs THEN NFail(s, "finished with an error that was not announced")
  ELSE IF ~e.fin THEN NFail(s, "finished announced by a reply that does not say so")
  ELSE IF e.err = 0 /\ ~r.meta THEN NFail(s, "finished before the headers were announced")
  ELSE IF e.err = 0 /\ ~Cuttable(s, r) /\ e.n # Size(FullBody(AsClient(s, r), r.a)) - Size(r.taken) THEN NFail(s, "finished with the wrong amount of content")
  ELSE IF e.code # (IF r.meta THEN r.a.code ELSE 0) THEN NFail(s, "finished with the wrong status code")
  ELSE [s EXCEPT !.reps[e.k].st = "done"]

NTold(s, e) == LET r == R(s, e.k) IN
  IF r.errs = -1 /\ Cut(s, r) = "open" THEN NFail(s, "manager announced an unfinished reply")
  ELSE IF r.told THEN NFail(s, "manager announced a reply twice")
  ELSE [s EXCEPT !.reps[e.k].told = TRUE]

(* ---- what the servers see ----------------------------------------------*)
NAccept(s, e) ==
  IF s.accepts[e.s] >= s.starts[e.s] THEN NFail(s, "connection opened without need")
  ELSE [s EXCEPT !.accepts[e.s] = @ + 1, !.conns = Append(@, [srv |-> e.s, k |-> 0, ok |-> TRUE, closed |-> FALSE])]

IsCookie(h) == Lower(h[1]) = nmCookie
CookieLines(head) == LET ls == HeadLines(head) IN
  LET l == SelectSeq([i \in 1..Len(ls) |-> LineHeader(ls[i])], IsCookie) IN [i \in 1..Len(l) |-> l[i][2]]
CookiesSent(x) == LET k == FindText(x, CRLF \o CRLF) IN
  IF k < 0 THEN {} ELSE LET v == CookieLines(Take(x, k)) IN UNION {{Part(LTrim(p)) : p \in {q[i] : i \in 1..Len(q)}} : q \in {SplitByte(v[i], 59) : i \in 1..Len(v)}}
NWire(s, r, x) ==
  LET w == WireCheck(s, r, x, IsCookie) IN
  IF w # "" THEN w ELSE IF CookiesSent(x) # r.ck THEN "wrong cookies sent" ELSE ""

NGot(s, e) ==
  LET c == s.conns[e.c]
      wait == {k \in 1..Len(s.reps) : R(s, k).c = 0 /\ R(s, k).s = c.srv}
      fit == {k \in wait : NWire(s, R(s, k), e.d) = ""}
  IN IF e.c \in s.dying THEN s
     ELSE IF ~c.ok THEN NFail(s, "connection used again although its last exchange does not allow it")
     ELSE IF c.k # 0 /\ R(s, c.k).a.q # "done" THEN NFail(s, "connection used for two exchanges at a time")
     ELSE IF fit # {} THEN LET k == CHOOSE k \in fit : \A j \in fit : k <= j IN
          [s EXCEPT !.conns[e.c].k = k, !.reps[k].c = e.c]
     ELSE IF \E k \in wait : R(s, k).abort \/ R(s, k).dropped THEN [s EXCEPT !.conns[e.c].ok = FALSE]
     ELSE IF wait = {} THEN NFail(s, "request sent that nobody asked for")
     ELSE NFail(s, NWire(s, R(s, CHOOSE k \in wait : TRUE), e.d))

NSend(s, e) ==
  LET c == s.conns[e.c] IN
  IF c.k = 0 THEN s
  ELSE LET r == R(s, c.k) IN
       IF r.a.q = "done" THEN s                       \* surplus bytes belong to no exchange
       ELSE IF r.eof # "" \/ r.abort THEN [s EXCEPT !.conns[e.c].ok = FALSE]
       ELSE LET x == Cat(r.rx, e.d) a == Answer(x, r.m = cHead, FALSE) IN
            [s EXCEPT !.reps[c.k].rx = x, !.reps[c.k].a = a,
                      !.conns[e.c].ok = IF a.q = "done" THEN a.ka ELSE a.q # "bad"]
NEof(s, e) ==
  LET c == s.conns[e.c] s1 == [s EXCEPT !.conns[e.c].ok = FALSE, !.conns[e.c].closed = TRUE, !.dying = @ \cup {e.c}] IN
  IF c.k = 0 THEN s1
  ELSE LET r == R(s, c.k) IN
       IF ~Live(r) \/ r.eof # "" \/ (r.a.q = "done" /\ r.dropped) THEN s1
       ELSE [s1 EXCEPT !.reps[c.k].eof = e.e, !.reps[c.k].a = Answer(r.rx, r.m = cHead, TRUE), !.reps[c.k].lossy = e.e = "rst" /\ r.a.q # "done"]

NClosed(s, e) ==
  LET c == s.conns[e.c] s1 == [s EXCEPT !.conns[e.c].closed = TRUE, !.conns[e.c].ok = FALSE] IN
  IF c.k # 0 /\ LET r == R(s, c.k) IN Live(r) /\ ~r.abort /\ ~r.dropped /\ r.a.q \in {"head", "body"} /\ r.eof = ""
  THEN NFail(s, "connection closed in the middle of an exchange")
  ELSE s1

(* ---- quiescence: everything due was announced, everything over let go --*)
NAvail(s, e) ==
  LET r == R(s, e.k) IN
  IF Live(r) /\ r.a.head /\ ~IsGzip(r.a.hs) /\ e.n # Size(r.a.raw) - Size(r.taken) THEN NFail(s, "content that arrived is not available") ELSE s

NOwed(s, k) ==
  LET r == R(s, k) IN
  IF r.dropped THEN ""
  ELSE IF Live(r) THEN
     IF r.abort THEN "abort not announced"
     ELSE CASE Cut(s, r) # "open" -> (IF r.s \in s.down THEN "refused connection not announced" ELSE "finished not announced")
            [] r.c = 0 -> "request not sent"
            [] r.a.head /\ ~r.meta -> "headers not announced"
            [] OTHER -> ""
  ELSE IF ~r.told THEN "the manager did not announce a finished reply"
  ELSE IF r.c # 0 /\ s.conns[r.c].k = k /\ ~s.conns[r.c].closed /\ (r.errs # -1 \/ ~r.a.ka) THEN "a connection that is done with was left open"
  ELSE ""
NIdle(s) ==
  LET bad == {k \in 1..Len(s.reps) : NOwed(s, k) # ""} IN
  IF bad # {} THEN NFail(s, NOwed(s, CHOOSE k \in bad : TRUE)) ELSE s
NRest(s) == NIdle([s EXCEPT !.dying = {}])

NApply(s, e) ==
  CASE e.e = "srv"   -> [s EXCEPT !.auth = e.a, !.down = {e.down[i] : i \in 1..Len(e.down)}, !.starts = [i \in 1..Len(e.a) |-> 0], !.accepts = [i \in 1..Len(e.a) |-> 0]]
    [] e.e = "coding" -> [s EXCEPT !.codings = @ \cup {[raw |-> e.raw, plain |-> e.plain]}]
    [] e.e = "start" -> NStart(s, e)
    [] e.e = "abort" -> NAbort(s, e.k)
    [] e.e = "ret"   -> NRet(s)
    [] e.e = "drop"  -> [s EXCEPT !.reps[e.k].dropped = TRUE]
    [] e.e = "meta"  -> NMeta(s, e)
    [] e.e = "ready" -> NReady(s, e)
    [] e.e = "read"  -> NRead(s, e)
    [] e.e = "error" -> NError(s, e)
    [] e.e = "done"  -> NDone(s, e)
    [] e.e = "told"  -> NTold(s, e)
    [] e.e = "avail" -> NAvail(s, e)
    [] e.e = "accept" -> NAccept(s, e)
    [] e.e = "got"   -> NGot(s, e)
    [] e.e = "cclosed" -> NClosed(s, e)
    [] e.e = "send"  -> NSend(s, e)
    [] e.e \in {"fin", "rst"} -> NEof(s, e)
    [] e.e = "idle"  -> NRest(s)
=============================================================================
