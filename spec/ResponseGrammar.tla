-------------------------- MODULE ResponseGrammar --------------------------
(***************************************************************************)
(* HTTP responses as a client must read them (RFC 7230): the head as a     *)
(* deterministic automaton over bytes, the body by its framing.            *)
(*                                                                         *)
(*   Head = "HTTP/" d{1,3} "." d{1,3} " " d{1,3} [" " reason] CRLF        *)
(*          (name ":" " "* value CRLF)* CRLF                               *)
(***************************************************************************)
EXTENDS Bytes

RToken == (33..126) \ {40,41,60,62,64,44,59,58,92,34,47,91,93,63,61,123,125}
RDigit == 48..57
RStates == {"s0","s1","s2","s3","s4","s5","s6","s6b","s6c","s7","s8","s8b","s8c","c1","c2","c3","c4","reason","cr","line","endcr",
            "name","sp","value","vcr","done","bad"}

RDelta1(q, b) ==
  CASE q = "s0" -> IF b = 72 THEN "s1" ELSE IF b \in {CR, LF} THEN "s0" ELSE "bad"  \* stray line ends in front are let pass
    [] q = "s1" -> IF b = 84 THEN "s2" ELSE "bad"
    [] q = "s2" -> IF b = 84 THEN "s3" ELSE "bad"
    [] q = "s3" -> IF b = 80 THEN "s4" ELSE "bad"
    [] q = "s4" -> IF b = 47 THEN "s5" ELSE "bad"
    [] q = "s5" -> IF b \in RDigit THEN "s6" ELSE "bad"
    \* numbers of at most three digits: a fourth is refused at once
    [] q = "s6" -> IF b \in RDigit THEN "s6b" ELSE IF b = 46 THEN "s7" ELSE "bad"
    [] q = "s6b" -> IF b \in RDigit THEN "s6c" ELSE IF b = 46 THEN "s7" ELSE "bad"
    [] q = "s6c" -> IF b = 46 THEN "s7" ELSE "bad"
    [] q = "s7" -> IF b \in RDigit THEN "s8" ELSE "bad"
    [] q = "s8" -> IF b \in RDigit THEN "s8b" ELSE IF b = SP THEN "c1" ELSE "bad"
    [] q = "s8b" -> IF b \in RDigit THEN "s8c" ELSE IF b = SP THEN "c1" ELSE "bad"
    [] q = "s8c" -> IF b = SP THEN "c1" ELSE "bad"
    [] q = "c1" -> IF b \in RDigit THEN "c2" ELSE "bad"
    [] q = "c2" -> IF b \in RDigit THEN "c3" ELSE IF b = SP THEN "reason" ELSE IF b = CR THEN "cr" ELSE "bad"
    [] q = "c3" -> IF b \in RDigit THEN "c4" ELSE IF b = SP THEN "reason" ELSE IF b = CR THEN "cr" ELSE "bad"
    [] q = "c4" -> IF b = SP THEN "reason" ELSE IF b = CR THEN "cr" ELSE "bad"
    [] q = "reason" -> IF b = CR THEN "cr" ELSE "reason"
    [] q = "cr" -> IF b = LF THEN "line" ELSE "bad"
    [] q = "line" -> IF b = CR THEN "endcr" ELSE IF b \in RToken THEN "name" ELSE "bad"
    [] q = "endcr" -> IF b = LF THEN "done" ELSE "bad"
    [] q = "name" -> IF b = 58 THEN "sp" ELSE IF b \in RToken THEN "name" ELSE "bad"
    [] q = "sp"   -> IF b = SP THEN "sp" ELSE IF b = CR THEN "vcr" ELSE "value"
    [] q = "value" -> IF b = CR THEN "vcr" ELSE "value"
    [] q = "vcr"  -> IF b = LF THEN "line" ELSE "bad"
    [] OTHER -> q

RTarget1(q, b) ==
  IF RDelta1(q, b) = "bad" THEN "-"
  ELSE CASE q \in {"s5","s6","s6b","s6c","s7","s8","s8b","s8c"} -> IF b = SP THEN "-" ELSE "v"
         [] q \in {"c1","c2","c3"} -> IF b \in RDigit THEN "c" ELSE "-"
         [] q = "line" -> IF b = CR THEN "-" ELSE "n"
         [] q = "name" -> IF b = 58 THEN "-" ELSE "n"
         [] q = "sp" -> IF b = CR THEN "H" ELSE IF b = SP THEN "-" ELSE "h"
         [] q = "value" -> IF b = CR THEN "H" ELSE "h"
         [] OTHER -> "-"

RDelta == [q \in RStates |-> [b \in 0..255 |-> RDelta1(q, b)]]
RTarget == [q \in RStates |-> [b \in 0..255 |-> RTarget1(q, b)]]

RP0 == [q |-> "s0", n |-> 0, v |-> <<>>, c |-> <<>>, hs |-> <<>>, hn |-> <<>>, hv |-> <<>>]
RCredit(p, t, d) ==
  CASE t = "v" -> [p EXCEPT !.v = Cat(@, d)]
    [] t = "c" -> [p EXCEPT !.c = Cat(@, d)]
    [] t = "n" -> [p EXCEPT !.hn = Cat(@, d)]
    [] t = "h" -> [p EXCEPT !.hv = Cat(@, d)]
    [] t = "H" -> [p EXCEPT !.hs = Append(@, <<p.hn, p.hv>>), !.hn = <<>>, !.hv = <<>>]
RFeed(p, x) == LET z == Scan(RDelta, RTarget, p.q, x) IN
  FoldLeft(LAMBDA a, o : RCredit(a, o[1], o[2]), [p EXCEPT !.q = z.q, !.n = @ + z.n], z.out)

GrammarSane ==
  /\ \A q \in RStates, b \in 0..255 : RDelta[q][b] \in RStates
  /\ \A b \in 0..255 : RDelta["bad"][b] = "bad" /\ RDelta["done"][b] = "done"

----------------------------------------------------------------------------
rnLength == B("content-length")
rnTransfer == B("transfer-encoding")
rnConnection == B("connection")
rChunked == B("chunked")
rClose == B("close")
rKeep == B("keep-alive")
rV11 == B("1.1")

RValues(hs, lname) == LET sel == SelectSeq(hs, LAMBDA h : Lower(h[1]) = lname) IN [i \in 1..Len(sel) |-> sel[i][2]]
RHas(hs, lname, tok) == \E i \in 1..Len(hs) : Lower(hs[i][1]) = lname /\ SameText(hs[i][2], tok)

(* a chunked body from x on: d what it carries so far; q where it stands   *)
(* (more, done, bad); tr the trailers                                      *)
RECURSIVE RChunks(_, _)
RChunks(x, d) ==
  LET k == FindByte(x, CR)
      raw == IF k < 0 THEN x ELSE Take(x, k)
      semi == FindByte(raw, 59)
      h == IF semi < 0 THEN raw ELSE Take(raw, semi)
  IN IF h # <<>> /\ ~AllHex(h) THEN [q |-> "bad", d |-> d]
     ELSE IF k < 0 THEN [q |-> IF h = <<>> /\ semi >= 0 THEN "bad" ELSE "more", d |-> d]
     ELSE IF h = <<>> THEN [q |-> "bad", d |-> d]
     ELSE LET n == HexValue(h) y == Drop(x, k + 1) IN
          IF y = <<>> THEN [q |-> "more", d |-> d]
          ELSE IF RunByte(y[1]) # LF THEN [q |-> "bad", d |-> d]
          ELSE IF n = 0
               THEN LET t == RFeed([RP0 EXCEPT !.q = "line"], Drop(y, 1)) IN
                    IF t.q = "done" THEN [q |-> "done", d |-> d, tr |-> t.hs, rest |-> Drop(y, 1 + t.n)]
                    ELSE [q |-> IF t.q = "bad" THEN "bad" ELSE "more", d |-> d]
               ELSE LET z == Drop(y, 1) w == Drop(z, n) d2 == Cat(d, Take(z, n)) IN
                    IF w = <<>> THEN [q |-> "more", d |-> d2]
                    ELSE IF RunByte(w[1]) # CR THEN [q |-> "bad", d |-> d2]
                    ELSE IF Size(w) = 1 THEN [q |-> "more", d |-> d2]
                    ELSE IF RunByte(Drop(w, 1)[1]) # LF THEN [q |-> "bad", d |-> d2]
                    ELSE RChunks(Drop(w, 2), d2)

(* The answer to one request at the start of x.  q: "head" (head not yet   *)
(* complete), "body", "done", "bad"; head tells whether code and hs are    *)
(* known.  Interim replies (1xx other than 101) do not show.               *)
RECURSIVE Answer(_, _, _)
Answer(x, isHead, eof) ==
  LET p == RFeed(RP0, x) IN
  IF p.q = "bad" THEN [q |-> "bad", head |-> FALSE]
  ELSE IF (\E v \in {RValues(p.hs, rnLength)[i] : i \in 1..Len(RValues(p.hs, rnLength))} : ~AllDigits(v))
          \/ (Lower(p.hn) = rnLength /\ p.hv # <<>> /\ ~AllDigits(p.hv)) THEN [q |-> "bad", head |-> FALSE]
  ELSE IF p.q # "done" THEN [q |-> "head", head |-> FALSE]
  ELSE LET code == DecValue(p.c)
           rest == Drop(x, p.n)
           cl == RValues(p.hs, rnLength)
           chunked == RHas(p.hs, rnTransfer, rChunked)
           ka == IF p.v = rV11 THEN ~RHas(p.hs, rnConnection, rClose) ELSE RHas(p.hs, rnConnection, rKeep)
           base == [head |-> TRUE, code |-> code, hs |-> p.hs, raw |-> <<>>, tr |-> <<>>, ka |-> ka, rest |-> <<>>]
       IN IF code \div 100 = 1 /\ code # 101 THEN Answer(rest, isHead, eof)
          ELSE IF isHead \/ code \in {101, 204, 304} THEN [base EXCEPT !.rest = rest] @@ [q |-> "done"]
          ELSE IF chunked THEN
               LET c == RChunks(rest, <<>>) IN
               IF c.q = "done" THEN [base EXCEPT !.raw = c.d, !.tr = c.tr, !.rest = c.rest] @@ [q |-> "done"]
               ELSE [base EXCEPT !.raw = c.d] @@ [q |-> IF c.q = "bad" THEN "bad" ELSE "body"]
          ELSE IF cl # <<>> THEN
               LET n == DecValue(cl[1]) IN
               [base EXCEPT !.raw = Take(rest, n), !.rest = Drop(rest, n)] @@ [q |-> IF Size(rest) >= n THEN "done" ELSE "body"]
          ELSE [base EXCEPT !.raw = rest, !.ka = FALSE] @@ [q |-> IF eof THEN "done" ELSE "body"]
=============================================================================
