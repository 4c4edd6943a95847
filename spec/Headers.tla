------------------------------- MODULE Headers -------------------------------
(***************************************************************************)
(* A collection of headers as a list of <<name, value>>, the ways to build *)
(* it, and every way to ask it for a header.  Names and values are byte    *)
(* strings; letter case means the 26 ASCII letters and nothing else.       *)
(***************************************************************************)
EXTENDS Bytes

Matching(hs, n) == SelectSeq(hs, LAMBDA h : SameText(h[1], n))
All(hs, n) == LET m == Matching(hs, n) IN [i \in 1..Len(m) |-> m[i][2]]
First(hs, n) == LET m == All(hs, n) IN IF m = <<>> THEN <<>> ELSE m[1]
Has(hs, n, v) == \E i \in 1..Len(hs) : SameText(hs[i][1], n) /\ SameText(hs[i][2], v)

(* A header from its raw text: everything up to the first colon, and what  *)
(* follows the colon and any spaces.                                       *)
RECURSIVE Unindented(_)
Unindented(x) == IF x # <<>> /\ RunByte(x[1]) = 32 THEN Unindented(Tail(x)) ELSE x
FromRaw(x) == LET k == FindByte(x, 58) IN IF k < 0 THEN <<x, <<>>>> ELSE <<Take(x, k), Unindented(Drop(x, k + 1))>>

(* Two bytes that are the same up to letter case (all pairs are recorded). *)
Folds(b) == IF b >= 65 /\ b <= 90 THEN {b, b + 32} ELSE IF b >= 97 /\ b <= 122 THEN {b, b - 32} ELSE {b}

H0 == [hs |-> <<>>, err |-> ""]
BadH(s, why) == [s EXCEPT !.err = why]

ApplyHeaders(s, e) ==
  CASE e.e = "add"   -> [s EXCEPT !.hs = Append(@, e.h)]
    [] e.e = "cat"   -> [s EXCEPT !.hs = @ \o e.l]
    [] e.e = "self"  -> [s EXCEPT !.hs = @ \o @]
    [] e.e = "raw"   -> [s EXCEPT !.hs = Append(@, FromRaw(e.d))]
    [] e.e = "clear" -> [s EXCEPT !.hs = <<>>]
    [] e.e = "sum"   -> IF e.l = s.hs \o e.with THEN s ELSE BadH(s, "wrong sum of two collections")
    [] e.e = "list"  -> IF e.l = s.hs THEN s ELSE BadH(s, "the collection does not hold what was put in")
    [] e.e = "get"   -> IF e.v = First(s.hs, e.n) THEN s ELSE BadH(s, "wrong header value")
    [] e.e = "all"   -> IF e.v = All(s.hs, e.n) THEN s ELSE BadH(s, "wrong list of header values")
    [] e.e = "test"  -> IF e.r = Has(s.hs, e.n, e.v) THEN s ELSE BadH(s, "wrong answer to a value test")
    [] e.e = "pairs" -> IF {e.m[i] : i \in 1..Len(e.m)} = Folds(e.b) THEN s ELSE BadH(s, "wrong comparison of single bytes")
=============================================================================
