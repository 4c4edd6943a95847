------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, represented run-length encoded so that the same operators *)
(* work on 10-byte request lines and on 100-megabyte bodies.               *)
(*                                                                         *)
(* A byte string is a sequence of runs; the run of n >= 1 copies of byte b *)
(* is the integer b + 256*n.  Adjacent runs have different bytes, so the   *)
(* representation is canonical and equality of byte strings is equality of *)
(* sequences.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

RunByte(r) == r % 256
RunLen(r)  == r \div 256
Run(b, n)  == b + 256 * n

Size(x) == FoldLeft(LAMBDA a, r : a + RunLen(r), 0, x)

Cat(x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE LET l == x[Len(x)] h == y[1] IN
       IF RunByte(l) = RunByte(h)
       THEN SubSeq(x, 1, Len(x)-1) \o <<l + h - RunByte(h)>> \o SubSeq(y, 2, Len(y))
       ELSE x \o y

CatAll(xs) == FoldLeft(Cat, <<>>, xs)

Put(x, b, n) == IF n = 0 THEN x
                ELSE IF x # <<>> /\ RunByte(x[Len(x)]) = b
                     THEN [x EXCEPT ![Len(x)] = @ + 256*n]
                     ELSE Append(x, Run(b, n))

(* number of whole runs of x within the first n bytes, and the bytes left  *)
Locate(x, n) ==
  FoldLeft(LAMBDA a, r : IF a.stop THEN a
                         ELSE IF RunLen(r) <= a.left THEN [i |-> a.i+1, left |-> a.left - RunLen(r), stop |-> FALSE]
                         ELSE [a EXCEPT !.stop = TRUE],
           [i |-> 0, left |-> n, stop |-> FALSE], x)

Take(x, n) == LET l == Locate(x, n) IN
  IF l.left = 0 \/ l.i = Len(x) THEN SubSeq(x, 1, l.i)
  ELSE Append(SubSeq(x, 1, l.i), Run(RunByte(x[l.i+1]), l.left))

Drop(x, n) == LET l == Locate(x, n) IN
  IF l.i = Len(x) THEN <<>>
  ELSE IF l.left = 0 THEN SubSeq(x, l.i+1, Len(x))
  ELSE <<Run(RunByte(x[l.i+1]), RunLen(x[l.i+1]) - l.left)>> \o SubSeq(x, l.i+2, Len(x))

Canon(x) == FoldLeft(LAMBDA a, r : Put(a, RunByte(r), RunLen(r)), <<>>, x)

(* 0-based offset of the first occurrence of byte b, or -1                 *)
FindByte(x, b) ==
  LET r == FoldLeft(LAMBDA a, c : IF a.found THEN a
                                  ELSE IF RunByte(c) = b THEN [a EXCEPT !.found = TRUE]
                                  ELSE [a EXCEPT !.n = @ + RunLen(c)],
                    [found |-> FALSE, n |-> 0], x)
  IN IF r.found THEN r.n ELSE -1

(* split at every occurrence of byte b *)
SplitByte(x, b) ==
  LET r == FoldLeft(LAMBDA a, c :
                 IF RunByte(c) = b
                 THEN [done |-> Append(a.done, a.cur) \o [i \in 1..(RunLen(c)-1) |-> <<>>], cur |-> <<>>]
                 ELSE [a EXCEPT !.cur = Append(@, c)],
              [done |-> <<>>, cur |-> <<>>], x)
  IN Append(r.done, r.cur)

(* the individual bytes; only for short strings                            *)
Expand(x) == FoldLeft(LAMBDA a, r : a \o [i \in 1..RunLen(r) |-> RunByte(r)], <<>>, x)
FromList(l) == FoldLeft(LAMBDA a, b : Put(a, b, 1), <<>>, l)

IsPrefixOf(p, x) == LET n == Size(p) IN Size(x) >= n /\ Take(x, n) = p

(* 0-based offset of the first occurrence of the byte string p, or -1       *)
FindText(x, p) ==
  LET n == Size(p)
      at == {k \in 0..(Size(x) - n) : Take(Drop(x, k), n) = p}
  IN IF at = {} THEN -1 ELSE CHOOSE k \in at : \A j \in at : k <= j

(* Run the automaton delta from state q over x, stopping in "done" and     *)
(* before the byte that leads to "bad".  target[q][b] names the field the  *)
(* byte belongs to ("-" for none); out lists the maximal stretches of      *)
(* equally targeted bytes.                                                 *)
RECURSIVE ScanRun(_, _, _, _, _)
ScanRun(delta, target, a, b, k) ==
  IF k = 0 \/ a.q \in {"done", "bad"} THEN a
  ELSE LET r == delta[a.q][b] t == target[a.q][b] IN
       IF r = "bad" THEN [a EXCEPT !.q = "bad"]
       ELSE LET take == IF r = a.q THEN k ELSE 1 IN
            ScanRun(delta, target,
                    [q |-> r, n |-> a.n + take, last |-> t,
                     out |-> IF t = "-" THEN a.out
                             ELSE IF t = a.last THEN [a.out EXCEPT ![Len(a.out)][2] = Put(@, b, take)]
                             ELSE Append(a.out, <<t, <<Run(b, take)>>>>)], b, k - take)
Scan(delta, target, q, x) ==
  LET a == FoldLeft(LAMBDA acc, r : ScanRun(delta, target, acc, RunByte(r), RunLen(r)),
                    [q |-> q, n |-> 0, last |-> "-", out |-> <<>>], x)
  IN [q |-> a.q, n |-> a.n, out |-> a.out]

----------------------------------------------------------------------------
(* Text: conversion of TLA+ string literals (printable ASCII, CR, LF).     *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
               31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
B(str) == FromList([i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]])

CR == 13
LF == 10
SP == 32
CRLF == <<Run(CR, 1), Run(LF, 1)>>

LowerByte(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Lower(x) == Canon([i \in 1..Len(x) |-> Run(LowerByte(RunByte(x[i])), RunLen(x[i]))])
SameText(x, y) == Size(x) = Size(y) /\ Lower(x) = Lower(y)     \* equal up to ASCII letter case

IsDigit(b) == b >= 48 /\ b <= 57
HexVal(b) == CASE b >= 48 /\ b <= 57 -> b - 48
               [] b >= 97 /\ b <= 102 -> b - 87
               [] b >= 65 /\ b <= 70 -> b - 55
               [] OTHER -> -1
IsHex(b) == HexVal(b) >= 0

(* Decimal numbers.  Values of more than 9 digits are all the same to us:  *)
(* "big" (they exceed every limit of the system).                          *)
BIG == 2000000000
AllDigits(x) == x # <<>> /\ \A i \in 1..Len(x) : IsDigit(RunByte(x[i]))
StripZeros(x) == IF x # <<>> /\ RunByte(x[1]) = 48 THEN (IF Len(x) = 1 THEN <<Run(48,1)>> ELSE SubSeq(x, 2, Len(x))) ELSE x
DecValue(x) == LET y == StripZeros(x) IN
   IF Size(y) > 9 THEN BIG ELSE FoldLeft(LAMBDA a, b : a*10 + (b-48), 0, Expand(y))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Run(48+n, 1)>> ELSE Put(Dec(n \div 10), 48 + (n % 10), 1)
HexValue(x) == FoldLeft(LAMBDA a, b : a*16 + HexVal(b), 0, Expand(x))
AllHex(x) == x # <<>> /\ \A i \in 1..Len(x) : IsHex(RunByte(x[i]))
=============================================================================
