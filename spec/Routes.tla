------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* Path patterns of the router: literal text, :name (one or more letters,  *)
(* digits, "_" or "-"), *name (any text); bytes from 128 on are taken for    *)
(* parts of letters.  A pattern is given as a sequence of pieces            *)
(* [t |-> "lit", d] / [t |-> "one", n] / [t |-> "any", n].       *)
(***************************************************************************)
EXTENDS UrlParams

WordByte(b) == b >= 128 \/ b = 45 \/ b = 95 \/ IsDigit(b) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
RECURSIVE WordPrefix(_)          \* length of the longest prefix of word bytes
WordPrefix(x) == IF x = <<>> \/ ~WordByte(RunByte(x[1])) THEN 0 ELSE RunLen(x[1]) + WordPrefix(Tail(x))

NoMatch == [ok |-> FALSE]

(* Bind every placeholder, each taking as much as the rest permits. *)
RECURSIVE MatchPieces(_, _)
MatchPieces(ps, x) ==
  IF ps = <<>> THEN (IF x = <<>> THEN [ok |-> TRUE, b |-> <<>>] ELSE NoMatch)
  ELSE LET p == ps[1] rest == Tail(ps) IN
       IF p.t = "lit" THEN (IF IsPrefixOf(p.d, x) THEN MatchPieces(rest, Drop(x, Size(p.d))) ELSE NoMatch)
       ELSE LET hi == IF p.t = "one" THEN WordPrefix(x) ELSE Size(x)
                lo == IF p.t = "one" THEN 1 ELSE 0
                ks == {k \in lo..hi : MatchPieces(rest, Drop(x, k)).ok}
            IN IF ks = {} THEN NoMatch
               ELSE LET k == CHOOSE k \in ks : \A j \in ks : j <= k IN
                    [ok |-> TRUE, b |-> <<<<p.n, Take(x, k)>>>> \o MatchPieces(rest, Drop(x, k)).b]

(* Decide among the routes [m, p]: the first whose path and method fit.    *)
(* k |-> "route" with its index and bindings, "method" with the methods of *)
(* the routes whose path fits, or "none".                                  *)
Route(routes, method, path) ==
  LET m == [i \in 1..Len(routes) |-> MatchPieces(routes[i].p, path)]
      fit == {i \in 1..Len(routes) : m[i].ok}
      hit == {i \in fit : routes[i].m = <<>> \/ SameText(routes[i].m, method)}
  IN IF hit # {} THEN LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN [k |-> "route", i |-> i, b |-> m[i].b]
     ELSE IF fit = {} THEN [k |-> "none"]
     ELSE [k |-> "method", ms |-> LET l == SelectSeq([i \in 1..Len(routes) |-> i], LAMBDA i : m[i].ok)
                                  IN [j \in 1..Len(l) |-> routes[l[j]].m]]
=============================================================================
