---------------------------- MODULE MCUrlParams ----------------------------
(***************************************************************************)
(* Every short text made of ordinary characters, separators and escapes,   *)
(* read by the specification and read declaratively: the text is a list of *)
(* tokens whose meaning is known, of which only unescaped separators       *)
(* separate.  Then every way to set parameters of the request.             *)
(***************************************************************************)
EXTENDS HttpConnection, Json
CONSTANTS Letters,      \* which tokens may occur, see below
          MaxLen, MaxSets, Wrong, Emit

\* text, meaning, whether it separates
Piece == [a |-> <<"a", 97, FALSE>>, A |-> <<"A", 65, FALSE>>, plus |-> <<"+", 43, FALSE>>, four |-> <<"4", 52, FALSE>>, one |-> <<"1", 49, FALSE>>,
          amp |-> <<"&", 38, TRUE>>, eq |-> <<"=", 61, TRUE>>, xamp |-> <<"%26", 38, FALSE>>, xeq |-> <<"%3d", 61, FALSE>>,
          xpct |-> <<"%25", 37, FALSE>>, xa |-> <<"%61", 97, FALSE>>, xeqU |-> <<"%3D", 61, FALSE>>, semi |-> <<";", 59, FALSE>>]
Tok == [t \in DOMAIN Piece |-> [text |-> B(Piece[t][1]), v |-> Piece[t][2], sep |-> Piece[t][3]]]

Text(l) == CatAll([i \in 1..Len(l) |-> Tok[l[i]].text])
Meaning(l) == FromList([i \in 1..Len(l) |-> Tok[l[i]].v])

\* the places of the unescaped separators b in l, in order
At(l, b) == {i \in 1..Len(l) : Tok[l[i]].sep /\ Tok[l[i]].v = b}
Nth(ps, n) == CHOOSE i \in ps : Cardinality({j \in ps : j <= i}) = n
Pair(l) == LET e == At(l, 61) IN
           IF e = {} THEN <<Meaning(l), <<>>>>
           ELSE <<Meaning(SubSeq(l, 1, Nth(e, 1) - 1)), Meaning(SubSeq(l, Nth(e, 1) + 1, Len(l)))>>
Given(l) ==
  LET a == At(l, 38)
      n == Cardinality(a)
      from(i) == IF i = 1 THEN 1 ELSE Nth(a, i - 1) + 1
      to(i) == IF i = n + 1 THEN Len(l) ELSE Nth(a, i) - 1
      all == [i \in 1..(n + 1) |-> Pair(SubSeq(l, from(i), to(i)))]
  IN IF l = <<>> \/ from(n + 1) > Len(l) THEN SubSeq(all, 1, n) ELSE all

Keys == {B("a"), B("A"), B("4"), <<>>, B("="), B("zz")}
Sets == {<<k, v>> : k \in {B("a"), B("A"), <<>>, B("zz")}, v \in {B("1"), <<>>}}
Up(b) == IF b \in 97..122 THEN b - 32 ELSE b
Same(x, y) == LET p == Expand(x) q == Expand(y) IN Len(p) = Len(q) /\ \A i \in 1..Len(p) : Up(p[i]) = Up(q[i])

VARIABLES l, sets, text, ps
vars == <<l, sets, text, ps>>
Init == l = <<>> /\ sets = <<>> /\ text = <<>> /\ ps = <<>>
Grow == /\ sets = <<>> /\ Len(l) < MaxLen
        /\ \E t \in Letters : l' = Append(l, t)
        /\ text' = Text(l') /\ ps' = ParseParams(text')
        /\ UNCHANGED sets
Set == /\ Len(sets) < MaxSets
       /\ \E p \in Sets : sets' = Append(sets, p) /\ ps' = SetParam(ps, p[1], p[2])
       /\ UNCHANGED <<l, text>>
Next == (Grow \/ Set) /\ (Emit => PrintT("SCRIPT " \o ToJson(<<[q |-> text', sets |-> sets']>>)))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Decodes == PercentDecode(text) = Meaning(l)
Reads == sets = <<>> => ps = Given(l)
\* Whatever the text means, writing all of it in escapes keeps it in one piece.
HexDigits == "0123456789abcdef"
Escape(b) == B("%" \o SubSeq(HexDigits, (b \div 16) + 1, (b \div 16) + 1) \o SubSeq(HexDigits, (b % 16) + 1, (b % 16) + 1))
Escapes == l # <<>> => LET e == CatAll([i \in 1..Len(l) |-> Escape(Tok[l[i]].v)]) IN
             PercentDecode(e) = Meaning(l) /\ ParseParams(e) = <<<<Meaning(l), <<>>>>>>
\* A lookup finds the value set last for that name, else the first one given; all else is as it was given.
LastSet(k) == {i \in 1..Len(sets) : Same(sets[i][1], k) /\ \A j \in (i+1)..Len(sets) : ~Same(sets[j][1], k)}
Looked(k) == LET g == Given(l)
                 a == {i \in 1..Len(g) : Same(g[i][1], k)}
             IN IF LastSet(k) # {} THEN sets[Nth(LastSet(k), 1)][2]
                ELSE IF a # {} THEN g[Nth(a, 1)][2] ELSE <<>>
Finds == \A k \in Keys : GetParam(ps, k) = Looked(k)
Others == LET g == Given(l)
              first(i) == \A j \in 1..(i-1) : ~Same(g[j][1], g[i][1])
              added == {i \in 1..Len(sets) : (\A j \in 1..Len(g) : ~Same(g[j][1], sets[i][1])) /\ \A j \in 1..(i-1) : ~Same(sets[j][1], sets[i][1])}
          IN /\ Len(ps) = Len(g) + Cardinality(added)
             /\ \A i \in 1..Len(g) : (~first(i) \/ LastSet(g[i][1]) = {}) => ps[i] = g[i]
             /\ \A n \in 1..Cardinality(added) : Same(ps[Len(g) + n][1], sets[Nth(added, n)][1])

(***************************************************************************)
(* Wrong readings: each one must differ from the specification somewhere.  *)
Swap(x, b, c) == Canon([i \in 1..Len(x) |-> IF RunByte(x[i]) = b THEN Run(c, RunLen(x[i])) ELSE x[i]])
WrongParams(w, x) ==
  LET r == ParseParams(x) IN
  CASE w = "first"  -> ParseParams(PercentDecode(x))                       \* decoded before it is split
    [] w = "plus"   -> ParseParams(Swap(x, 43, 32))                        \* form encoding
    [] w = "semi"   -> ParseParams(Swap(x, 59, 38))
    [] w = "never"  -> [i \in 1..Len(r) |-> <<r[i][1], IF r[i][1] = <<>> THEN <<>> ELSE r[i][2]>>]
    [] w = "drop"   -> SelectSeq(r, LAMBDA p : p # <<<<>>, <<>>>>)
    [] w = "keep"   -> IF x # <<>> /\ RunByte(x[Len(x)]) = 38 THEN Append(r, <<<<>>, <<>>>>) ELSE r
    [] w = "novalue" -> SelectSeq(r, LAMBDA p : p[2] # <<>>)
    [] w = "unique" -> SelectSeq(r, LAMBDA p : \A q \in Range(r) : q[1] = p[1] => q = p)
    [] w = "raw"    -> LET y == SplitByte(x, 38) IN [i \in 1..Len(r) |-> LET k == FindByte(y[i], 61) IN <<IF k < 0 THEN y[i] ELSE Take(y[i], k), r[i][2]>>]
    [] w = "lasteq" -> LET y == SplitByte(x, 38) IN
                       [i \in 1..Len(r) |-> LET z == SplitByte(y[i], 61) IN
                          IF Len(z) < 3 THEN r[i] ELSE <<Cat(r[i][1], Put(PercentDecode(z[2]), 61, 1)), PercentDecode(z[Len(z)])>>]
Range2 == UNION {[1..n -> Letters] : n \in 1..3}
ASSUME \A w \in Wrong : \E x \in Range2 : WrongParams(w, Text(x)) # Given(x)
=============================================================================
