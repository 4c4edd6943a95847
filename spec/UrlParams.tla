----------------------------- MODULE UrlParams -----------------------------
(* Percent-decoding and query parameters. *)
EXTENDS Bytes

(* Decoding automaton over the bytes: m = 0 plain, 1 after "%", 2 after "%h".  "%" "u" hex hex   *)
(* (accepted by the grammar) is no standard escape and is left out of every generated input.     *)
PercentDecode(x) ==
  LET step(a, b, k) ==
        CASE a.m = 0 -> IF b = 37 THEN [a EXCEPT !.m = 1] ELSE [a EXCEPT !.out = Put(@, b, k)]
          [] a.m = 1 -> [a EXCEPT !.m = 2, !.h = HexVal(b)]
          [] a.m = 2 -> [a EXCEPT !.m = 0, !.out = Put(@, a.h * 16 + HexVal(b), 1)]
      r == FoldLeft(LAMBDA a, c :
              IF a.m = 0 /\ RunByte(c) # 37 THEN step(a, RunByte(c), RunLen(c))
              ELSE LET bs == [i \in 1..RunLen(c) |-> RunByte(c)] IN
                   FoldLeft(LAMBDA z, b : step(z, b, 1), a, bs),
            [m |-> 0, h |-> 0, out |-> <<>>], x)
  IN r.out

(* The parameters of a query string, in order. *)
ParseParams(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET parts == SplitByte(q, 38)
           used == IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts)-1) ELSE parts
       IN [i \in 1..Len(used) |->
             LET k == FindByte(used[i], 61) IN
             IF k < 0 THEN <<PercentDecode(used[i]), <<>>>>
             ELSE <<PercentDecode(Take(used[i], k)), PercentDecode(Drop(used[i], k+1))>>]
=============================================================================
