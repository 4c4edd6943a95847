------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* Pillow::HttpHandlerProxy between its clients and the proxied server.    *)
(*                                                                         *)
(* Every request of every client is an exchange of its own with the        *)
(* upstream server: it is passed on once, complete and unchanged, after    *)
(* the ones its client sent before it; what the upstream server answers to *)
(* it, and nothing else, is what its client gets, as it comes in; if no    *)
(* answer can be had the client is told so, and if one breaks off the      *)
(* client can tell; a client that went away leaves nothing behind.         *)
(* XApply(s, e) is the next state, or one whose err says what was wrong.   *)
(***************************************************************************)
EXTENDS RequestGrammar, ResponseGrammar, ClientView, UrlParams

xFresh == [err |-> "", auth |-> <<>>, down |-> FALSE, cl |-> <<>>, up |-> <<>>]
XFail(s, why) == [s EXCEPT !.err = why]
xNoAnswer == [q |-> "head", head |-> FALSE]

(* ---- request targets: equal up to needless or missing escapes ----------*)
xUnreserved == Alpha \cup Digit \cup {45, 46, 95, 126}
xPlain == (33..126) \ {34, 60, 62, 92, 94, 96, 123, 124, 125}
UpHex(k) == IF k < 10 THEN 48 + k ELSE 55 + k
Escaped(b) == <<Run(37, 1)>> \o Canon(<<Run(UpHex(b \div 16), 1), Run(UpHex(b % 16), 1)>>)
PlainByte(b) == IF b \in xPlain THEN <<Run(b, 1)>> ELSE Escaped(b)
NormTarget(t) ==
  LET step(a, b) ==
        CASE a.m = 0 -> IF b = 37 THEN [a EXCEPT !.m = 1] ELSE [a EXCEPT !.out = Cat(@, PlainByte(b))]
          [] a.m = 1 -> [a EXCEPT !.m = 2, !.h = HexVal(b)]
          [] a.m = 2 -> LET v == a.h * 16 + HexVal(b) IN
                        [a EXCEPT !.m = 0, !.out = Cat(@, IF v \in xUnreserved THEN <<Run(v, 1)>> ELSE Escaped(v))]
  IN FoldLeft(step, [m |-> 0, h |-> 0, out |-> <<>>], Expand(t)).out

(* ---- header fields: one value per name, repeated ones joined -----------*)
xConnection == B("connection")
xKeepAlive == B("keep-alive")
xHost == B("host")
xCookie == B("cookie")
xSetCookie == B("set-cookie")
xHop == {xConnection, xKeepAlive, B("proxy-connection"), B("te"), B("trailer"), rnTransfer, B("upgrade")}
xAdded == {xConnection, xHost, rnLength, B("accept-encoding"), B("accept-language"), B("user-agent"), B("content-type")}
xGiven == {xConnection, rnTransfer, B("content-type")}
xComma == B(", ")
xSemicolon == B("; ")
FieldNames(hs) == {Lower(hs[i][1]) : i \in 1..Len(hs)}
JoinedBy(vs, sep) == FoldLeft(LAMBDA a, i : IF i = 1 THEN vs[1] ELSE CatAll(<<a, sep, vs[i]>>), <<>>, [i \in 1..Len(vs) |-> i])
FieldOf(hs, n) == JoinedBy(RValues(hs, n), IF n = xCookie THEN xSemicolon ELSE xComma)
SameField(a, b, n) == IF n = xSetCookie THEN RValues(a, n) = RValues(b, n)
                      ELSE FieldOf(a, n) = FieldOf(b, n) \/ \E i \in 1..Len(b) : Lower(b[i][1]) = n /\ b[i][2] = <<>>  \* empty values are left open
(* the fields of b all came through in a, which has no others but those that may be added *)
FieldsPassed(a, b, own, added) ==
  /\ \A n \in FieldNames(b) \ own : SameField(a, b, n)
  /\ FieldNames(a) \subseteq FieldNames(b) \cup added

(* ---- requests ----------------------------------------------------------*)
NewExchange(p, d) == [m |-> p.m, t |-> NormTarget(p.u), hs |-> p.hs, d |-> d, u |-> 0, tx |-> <<>>, a |-> xNoAnswer, fin |-> "", lossy |-> FALSE]
(* the complete requests at the start of x, and what is left *)
RECURSIVE XRequests(_)
XRequests(x) ==
  LET p == Feed(P0, x) IN
  IF p.q # "done" THEN [rs |-> <<>>, rest |-> x, bad |-> p.q = "bad"]
  ELSE LET cl == RValues(p.hs, rnLength)
           n == IF cl = <<>> THEN 0 ELSE DecValue(cl[1])
           y == Drop(x, p.n)
       IN IF Size(y) < n THEN [rs |-> <<>>, rest |-> x, bad |-> FALSE]
          ELSE LET z == XRequests(Drop(y, n)) IN [z EXCEPT !.rs = <<NewExchange(p, Take(y, n))>> \o @]

Ex(s, c, i) == s.cl[c].rs[i]
GaveUp(s, r) == s.down \/ r.a.q = "bad" \/ (r.fin # "" /\ r.a.q # "done") \/ r.lossy
Settled(s, r) == s.down \/ r.a.q \in {"done", "bad"} \/ r.fin # ""
Present(s, c) == s.cl[c].end = "open"

XClientSends(s, e) ==
  LET z == XRequests(Cat(s.cl[e.c].buf, e.d)) IN
  [s EXCEPT !.cl[e.c].buf = z.rest, !.cl[e.c].rs = @ \o z.rs]

(* ---- what the upstream server sees -------------------------------------*)
PassedOn(s, r, q) ==       \* q, received upstream, against r, received from the client
  IF q.m # r.m THEN "request passed on with another method"
  ELSE IF q.d # r.d THEN "request passed on with other content"
  ELSE IF RValues(q.hs, rnLength) # (IF r.d = <<>> /\ RValues(q.hs, rnLength) = <<>> THEN <<>> ELSE <<Dec(Size(r.d))>>) THEN "request passed on with a wrong length"
  ELSE IF FieldOf(q.hs, xHost) \notin {FieldOf(r.hs, xHost), s.auth} THEN "request passed on to another host"
  ELSE IF ~FieldsPassed(q.hs, r.hs, xHop \cup {xHost, rnLength}, xAdded) THEN "request passed on with other header fields"
  ELSE ""

XUpReceives(s, e) ==
  LET u == s.up[e.u]
      z == XRequests(Cat(u.rx, e.d))
  IN IF z.bad THEN XFail(s, "malformed request passed on")
     ELSE IF z.rs = <<>> THEN [s EXCEPT !.up[e.u].rx = z.rest]
     ELSE IF u.c # 0 /\ ~Settled(s, Ex(s, u.c, u.i)) /\ Present(s, u.c) THEN XFail(s, "request passed on in the middle of another exchange")
     ELSE LET q == z.rs[1]
              of == {<<c, i>> \in UNION {{<<c, i>> : i \in 1..Len(s.cl[c].rs)} : c \in 1..Len(s.cl)} : Ex(s, c, i).t = q.t}
          IN IF of = {} THEN XFail(s, "request passed on that no client made")
             ELSE LET ci == CHOOSE x \in of : TRUE c == ci[1] i == ci[2] r == Ex(s, c, i) w == PassedOn(s, r, q) IN
                  IF w # "" THEN XFail(s, w)
                  ELSE IF r.u # 0 /\ ((r.fin = "" /\ r.a.q # "bad") \/ r.a.head) THEN XFail(s, "request passed on twice")   \* again only if no answer came of it
                  ELSE IF \E j \in 1..(i-1) : ~Settled(s, Ex(s, c, j)) THEN XFail(s, "request passed on before its turn")
                  ELSE [s EXCEPT !.up[e.u].rx = z.rest, !.up[e.u].c = c, !.up[e.u].i = i,
                                 !.cl[c].rs[i].u = e.u, !.cl[c].rs[i].fin = u.fin, !.cl[c].rs[i].tx = <<>>, !.cl[c].rs[i].a = xNoAnswer, !.cl[c].rs[i].lossy = FALSE]

XUpSends(s, e) ==
  LET u == s.up[e.u] IN
  IF u.c = 0 \/ u.fin # "" THEN s
  ELSE LET r == Ex(s, u.c, u.i) x == Cat(r.tx, e.d) IN
       IF r.a.q = "done" THEN s                          \* surplus bytes belong to no exchange
       ELSE [s EXCEPT !.cl[u.c].rs[u.i].tx = x, !.cl[u.c].rs[u.i].a = Answer(x, r.m = cvHead, FALSE)]
XUpEnds(s, e) ==
  LET u == s.up[e.u] s1 == [s EXCEPT !.up[e.u].fin = e.e] IN
  IF u.c = 0 THEN s1
  ELSE LET r == Ex(s, u.c, u.i) IN
       IF r.a.q = "done" /\ e.e = "ufin" THEN s1
       ELSE IF r.a.q = "done" THEN [s1 EXCEPT !.cl[u.c].rs[u.i].lossy = TRUE]
       ELSE [s1 EXCEPT !.cl[u.c].rs[u.i].fin = e.e, !.cl[u.c].rs[u.i].a = Answer(r.tx, r.m = cvHead, TRUE), !.cl[u.c].rs[u.i].lossy = e.e = "urst"]
XUpClosed(s, e) ==
  LET u == s.up[e.u] s1 == [s EXCEPT !.up[e.u].closed = TRUE] IN
  IF u.c # 0 /\ Present(s, u.c) /\ ~s.cl[u.c].eof /\ ~Settled(s, Ex(s, u.c, u.i)) THEN XFail(s, "exchange given up for no reason") ELSE s1

(* ---- what the clients see ----------------------------------------------*)
CodeOf(a) == DecValue(Take(StatusPart(a.line), 3))
Bodiless == {204, 304}
XDecode(x, m, closed) ==
  LET a == DecodeAnswer(x, m, closed, 0) IN
  IF a.got /\ CodeOf(a) \in Bodiless THEN DecodeAnswer(x, cvHead, closed, 0) ELSE a

xKnown(code) == DecValue(Take(StatusText(code), 3))     \* codes without a status text are told as 500
Told(s, r, a) ==
  LET relayed == r.u # 0 /\ r.a.head /\ CodeOf(a) = xKnown(r.a.code)
      fields == relayed /\ FieldsPassed(a.hs, r.a.hs, xHop \cup (IF CodeOf(a) \in Bodiless THEN {rnLength} ELSE {}), xGiven)
  IN IF GaveUp(s, r) /\ CodeOf(a) = 503 /\ ~fields THEN ""
     ELSE IF ~r.a.head THEN "answered although upstream did not"
     ELSE IF ~relayed THEN "answered with another status"
     ELSE IF ~fields THEN "answered with other header fields"
     ELSE IF ~IsPrefixOf(a.body, r.a.raw) THEN "answered with other content"
     ELSE IF a.complete /\ a.delimited /\ (r.a.q # "done" \/ a.body # r.a.raw) THEN "answer ended before its time"
     ELSE IF a.complete /\ r.a.q = "done" /\ a.body # r.a.raw /\ ~r.lossy THEN "content missing"
     ELSE ""

RECURSIVE XAbsorb(_, _)
XAbsorb(s, c) ==
  LET k == s.cl[c] i == k.n + 1 IN
  IF k.out = <<>> THEN s
  ELSE IF i > Len(k.rs) THEN XFail(s, "bytes sent that belong to no answer")
  ELSE LET r == k.rs[i] a == XDecode(k.out, r.m, k.eof) IN
       IF ~a.got THEN (IF r.u = 0 /\ ~s.down THEN XFail(s, "answered although upstream did not") ELSE s)
       ELSE LET w == Told(s, r, a) IN
            IF w # "" THEN XFail(s, w)
            ELSE IF ~a.complete THEN s
            ELSE XAbsorb([s EXCEPT !.cl[c].n = i, !.cl[c].out = a.rest, !.cl[c].keep = a.keep /\ a.delimited, !.cl[c].mayClose = CodeOf(a) \in Bodiless], c)

XClientReceives(s, e) ==
  IF s.cl[e.c].n > 0 /\ ~s.cl[e.c].keep THEN XFail(s, "bytes sent after the last answer")
  ELSE XAbsorb([s EXCEPT !.cl[e.c].out = Cat(@, e.d)], e.c)

XClientEof(s, e) ==
  LET s1 == XAbsorb([s EXCEPT !.cl[e.c].eof = TRUE], e.c) k == s1.cl[e.c] IN
  IF s1.err # "" \/ ~Present(s1, e.c) \/ (k.n > 0 /\ (~k.keep \/ k.mayClose)) THEN s1
  ELSE IF k.n < Len(k.rs) /\ GaveUp(s1, k.rs[k.n + 1]) /\ (k.rs[k.n + 1].a.head \/ k.rs[k.n + 1].lossy) THEN s1      \* the answer broke off
  ELSE XFail(s1, "client cut off")

(* ---- quiescence --------------------------------------------------------*)
XOwed(s, c) ==
  LET k == s.cl[c] IN
  IF ~Present(s, c)
  THEN IF \E u \in 1..Len(s.up) : s.up[u].c = c /\ s.up[u].fin = "" /\ ~s.up[u].closed /\ ~Settled(s, Ex(s, c, s.up[u].i))
       THEN "exchange kept up for a client that is gone" ELSE ""
  ELSE IF k.eof THEN ""
  ELSE IF k.n > 0 /\ ~k.keep THEN "connection not closed after the last answer"
  ELSE IF k.n = Len(k.rs) THEN ""
  ELSE LET r == k.rs[k.n + 1] a == XDecode(k.out, r.m, FALSE) IN
       IF s.down THEN "client not told that upstream cannot be reached"
       ELSE IF r.u = 0 THEN "request not passed on"
       ELSE IF GaveUp(s, r) /\ ~(r.lossy /\ r.a.q # "done" /\ r.fin = "") THEN "client not told that its answer will not come"
       ELSE IF r.a.q = "done" THEN "answer not completed"
       ELSE IF r.a.head /\ r.a.code \in {401, 407} THEN ""     \* challenges may be held back until they are complete
       ELSE IF r.a.head /\ r.a.raw # <<>> /\ ~a.got THEN "answer not begun"
       ELSE IF a.got /\ a.body # r.a.raw THEN "content that came in not passed on"
       ELSE ""
XSync(s) ==
  LET bad == {c \in 1..Len(s.cl) : XOwed(s, c) # ""} IN
  IF bad = {} THEN s ELSE XFail(s, XOwed(s, CHOOSE c \in bad : TRUE))

XApply(s, e) ==
  CASE e.e = "cfg"    -> [s EXCEPT !.auth = e.auth, !.down = e.down]
    [] e.e = "copen"  -> [s EXCEPT !.cl = Append(@, [buf |-> <<>>, rs |-> <<>>, out |-> <<>>, n |-> 0, keep |-> TRUE, mayClose |-> FALSE, end |-> "open", eof |-> FALSE])]
    [] e.e = "csend"  -> XClientSends(s, e)
    [] e.e = "crecv"  -> XClientReceives(s, e)
    [] e.e = "ceof"   -> XClientEof(s, e)
    [] e.e \in {"cfin", "crst"} -> [s EXCEPT !.cl[e.c].end = e.e]
    [] e.e = "uopen"  -> [s EXCEPT !.up = Append(@, [rx |-> <<>>, c |-> 0, i |-> 0, fin |-> "", closed |-> FALSE])]
    [] e.e = "urecv"  -> XUpReceives(s, e)
    [] e.e = "usend"  -> XUpSends(s, e)
    [] e.e \in {"ufin", "urst"} -> XUpEnds(s, e)
    [] e.e = "uclosed" -> XUpClosed(s, e)
    [] e.e = "sync"   -> XSync(s)
=============================================================================
