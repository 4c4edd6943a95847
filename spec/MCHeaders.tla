----------------------------- MODULE MCHeaders -----------------------------
(***************************************************************************)
(* Every way to build a small collection, and every question about it: the *)
(* operators of Headers against a declarative reading.                     *)
(***************************************************************************)
EXTENDS Headers, Json, IOUtils
CONSTANTS MaxOps, Emit

\* names that differ in case, in the case bit only, by a prefix, and not at all
Names0 == {<<>>, B("a"), B("A"), B("b"), B("aA"), B("@"), B("`")}
Values0 == {<<>>, B("x"), B("X"), B("xx")}
Raw0 == {B("a:x"), B("A: x"), B("a"), B("a:"), B(": x"), B("b:  : x"), B("a b:x ")}
Pairs0 == {<<n, v>> : n \in {B("a"), B("A"), B("@"), <<>>}, v \in {B("x"), B("X")}}

VARIABLES s, hist
Init == s = H0 /\ hist = <<>>
Do(e) == s' = ApplyHeaders(s, e) /\ hist' = Append(hist, e)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E h \in Pairs0 : Do([e |-> "add", h |-> h])
           \/ \E d \in Raw0 : Do([e |-> "raw", d |-> d])
           \/ \E h \in Pairs0 : Do([e |-> "cat", l |-> <<h, <<B("b"), B("xx")>>>>])
           \/ Do([e |-> "self"])
           \/ (s.hs # <<>> /\ Do([e |-> "clear"]))
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<s, hist>>
Ghost == s

Up(b) == IF b \in 97..122 THEN b - 32 ELSE b
Same(x, y) == LET a == Expand(x) b == Expand(y) IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Up(a[i]) = Up(b[i])
Where(n) == {i \in 1..Len(s.hs) : Same(s.hs[i][1], n)}
FirstIsFirst == \A n \in Names0 : LET w == Where(n) IN
                  First(s.hs, n) = (IF w = {} THEN <<>> ELSE s.hs[CHOOSE i \in w : \A j \in w : i <= j][2])
AllInOrder == \A n \in Names0 : LET a == All(s.hs, n) w == Where(n) IN
                Len(a) = Cardinality(w) /\ \A i \in w : a[Cardinality({j \in w : j <= i})] = s.hs[i][2]
HasIffThere == \A n \in Names0 : \A v \in Values0 : Has(s.hs, n, v) = (\E i \in Where(n) : Same(s.hs[i][2], v))
Symmetric == \A m, n \in Names0 : SameText(m, n) = Same(m, n)
CaseBlind == \A n \in Names0 : First(s.hs, n) = First(s.hs, Lower(n)) /\ All(s.hs, n) = All(s.hs, Lower(n))
FoldsRight == \A a \in 0..255 : Folds(a) = {b \in 0..255 : Up(a) = Up(b)}
=============================================================================
