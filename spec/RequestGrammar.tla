--------------------------- MODULE RequestGrammar ---------------------------
(***************************************************************************)
(* The request head accepted by the server, as a deterministic automaton   *)
(* over bytes together with the field each byte belongs to.                *)
(*                                                                         *)
(*   Request   = Method " " URI ["#" Fragment] " HTTP/" d+ "." d+ CRLF     *)
(*               (name ":" " "* value CRLF)* CRLF                          *)
(*   Method    = 1..20 of A-Z 0-9 $ - _ .                                  *)
(*   URI       = "*" | [scheme] ":" ... | "/" path [";" params] ["?" query]*)
(***************************************************************************)
EXTENDS Bytes

MaxMethod == 20

Upper   == 65..90
Alpha   == Upper \cup (97..122)
Digit   == 48..57
Safe    == {36, 45, 95, 46}                                \* $ - _ .
Ctl     == (0..31) \cup {127}
Sep     == {35, 37}                                        \* # %
Reserved== {59, 47, 63, 58, 64, 38, 61, 43}                \* ; / ? : @ & = +
UriByte == (0..255) \ (Ctl \cup {SP} \cup Sep)             \* uchar | reserved, but for escapes
PathByte== UriByte \ {63}                                  \* everything but "?" (path, params)
Scheme  == Alpha \cup Digit \cup {43, 45, 46}
Token   == (33..126) \ {40,41,60,62,64,44,59,58,92,34,47,91,93,63,61,123,125}
Xdigit  == Digit \cup (65..70) \cup (97..102)

MethodState == [k \in 1..MaxMethod |-> "m" \o ToString(k)]
MethodStates == {MethodState[k] : k \in 1..MaxMethod}
MethodPos == [q \in MethodStates |-> CHOOSE k \in 1..MaxMethod : q = MethodState[k]]
IsMethodState(q) == q \in MethodStates

Ctx == {"abs", "path", "query", "frag"}         \* URI parts in which escapes occur
Esc == [k \in {"e0","e1","e2"} |-> [c \in Ctx |-> k \o c]]
EscStates == [k \in {"e0","e1","e2"} |-> {Esc[k][c] : c \in Ctx}]
EscCtx == [q \in UNION {EscStates[k] : k \in {"e0","e1","e2"}} |->
             CHOOSE c \in Ctx : \E k \in {"e0","e1","e2"} : q = Esc[k][c]]

States == {"start"} \cup {MethodState[k] : k \in 1..MaxMethod}
          \cup {"uri", "star", "scheme"} \cup Ctx
          \cup UNION {{Esc[k][c] : c \in Ctx} : k \in {"e0","e1","e2"}}
          \cup {"v0","v1","v2","v3","v4","v5","v6","v7","v8","cr","line","endcr","name","sp","value","vcr","done","bad"}

(* the delta function, one case per automaton state *)
AfterUri(b) == IF b = 35 THEN "frag" ELSE IF b = SP THEN "v0" ELSE "bad"

InCtx(c, b) == IF b = 37 THEN Esc["e0"][c]
               ELSE IF b = SP THEN "v0"
               ELSE IF b = 35 /\ c # "frag" THEN "frag"
               ELSE IF c = "path" /\ b = 63 THEN "query"
               ELSE IF b \in UriByte THEN c
               ELSE "bad"

DeltaOf(q, b) ==
  CASE q = "start"  -> IF b \in Upper \cup Digit \cup Safe THEN MethodState[1] ELSE "bad"
    [] IsMethodState(q) -> LET k == MethodPos[q] IN
                           IF b = SP THEN "uri"
                           ELSE IF b \in Upper \cup Digit \cup Safe /\ k < MaxMethod THEN MethodState[k+1]
                           ELSE "bad"
    [] q = "uri"    -> IF b = 42 THEN "star" ELSE IF b = 47 THEN "path"
                       ELSE IF b = 58 THEN "abs" ELSE IF b \in Scheme THEN "scheme" ELSE "bad"
    [] q = "star"   -> AfterUri(b)
    [] q = "scheme" -> IF b = 58 THEN "abs" ELSE IF b \in Scheme THEN "scheme" ELSE "bad"
    [] q \in Ctx    -> InCtx(q, b)
    [] q \in EscStates["e0"] -> LET c == EscCtx[q] IN
                           IF b = 117 THEN Esc["e1"][c] ELSE IF b \in Xdigit THEN Esc["e2"][c] ELSE "bad"
    [] q \in EscStates["e1"] -> LET c == EscCtx[q] IN
                           IF b \in Xdigit THEN Esc["e2"][c] ELSE "bad"
    [] q \in EscStates["e2"] -> LET c == EscCtx[q] IN
                           IF b \in Xdigit THEN c ELSE "bad"
    [] q = "v0" -> IF b = 72 THEN "v1" ELSE "bad"
    [] q = "v1" -> IF b = 84 THEN "v2" ELSE "bad"
    [] q = "v2" -> IF b = 84 THEN "v3" ELSE "bad"
    [] q = "v3" -> IF b = 80 THEN "v4" ELSE "bad"
    [] q = "v4" -> IF b = 47 THEN "v5" ELSE "bad"
    [] q = "v5" -> IF b \in Digit THEN "v6" ELSE "bad"
    [] q = "v6" -> IF b \in Digit THEN "v6" ELSE IF b = 46 THEN "v7" ELSE "bad"
    [] q = "v7" -> IF b \in Digit THEN "v8" ELSE "bad"
    [] q = "v8" -> IF b \in Digit THEN "v8" ELSE IF b = CR THEN "cr" ELSE "bad"
    [] q = "cr" -> IF b = LF THEN "line" ELSE "bad"
    [] q = "line" -> IF b = CR THEN "endcr" ELSE IF b \in Token THEN "name" ELSE "bad"
    [] q = "endcr" -> IF b = LF THEN "done" ELSE "bad"
    [] q = "name" -> IF b = 58 THEN "sp" ELSE IF b \in Token THEN "name" ELSE "bad"
    [] q = "sp"   -> IF b = SP THEN "sp" ELSE IF b = CR THEN "vcr" ELSE "value"
    [] q = "value" -> IF b = CR THEN "vcr" ELSE "value"
    [] q = "vcr"  -> IF b = LF THEN "line" ELSE "bad"
    [] q = "done" -> "done"
    [] q = "bad"  -> "bad"

Delta == [q \in States |-> [b \in 0..255 |-> DeltaOf(q, b)]]

(* which context an escape state belongs to *)
CtxOf(q) == IF q \in Ctx THEN q ELSE IF q \in DOMAIN EscCtx THEN EscCtx[q] ELSE "-"

(* the field(s) a byte taken from state q belongs to:                      *)
(* m method, u URI, ua URI and path, uq URI and query, f fragment,         *)
(* v version, n header name, h header value, H end of a header, - nothing  *)
TargetOf(q, b) ==
  LET r == DeltaOf(q, b) IN
  IF r \in {"bad"} THEN "-"
  ELSE CASE q = "start" -> "m"
         [] IsMethodState(q) -> IF b = SP THEN "-" ELSE "m"
         [] q = "uri" -> IF r = "path" THEN "ua" ELSE "u"
         [] q = "scheme" -> "u"
         [] q = "star" -> "-"
         [] CtxOf(q) = "abs"   -> IF r \in {"v0", "frag"} THEN "-" ELSE "u"
         [] CtxOf(q) = "path"  -> IF r \in {"v0", "frag"} THEN "-" ELSE IF r = "query" THEN "u" ELSE "ua"
         [] CtxOf(q) = "query" -> IF r \in {"v0", "frag"} THEN "-" ELSE "uq"
         [] CtxOf(q) = "frag"  -> IF r = "v0" THEN "-" ELSE "f"
         [] q \in {"v0","v1","v2","v3","v4","v5","v6","v7","v8"} -> IF b = CR THEN "-" ELSE "v"
         [] q = "line" -> IF b = CR THEN "-" ELSE "n"
         [] q = "name" -> IF b = 58 THEN "-" ELSE "n"
         [] q = "sp" -> IF b = CR THEN "H" ELSE IF b = SP THEN "-" ELSE "h"
         [] q = "value" -> IF b = CR THEN "H" ELSE "h"
         [] OTHER -> "-"

Target == [q \in States |-> [b \in 0..255 |-> TargetOf(q, b)]]

----------------------------------------------------------------------------
(* Incremental parsing.  n counts the bytes consumed; consumption stops at *)
(* the end of the head ("done") or at the first offending byte ("bad").    *)
P0 == [q |-> "start", n |-> 0, m |-> <<>>, u |-> <<>>, pa |-> <<>>, qs |-> <<>>, fr |-> <<>>,
       ve |-> <<>>, hs |-> <<>>, hn |-> <<>>, hv |-> <<>>]

Credit(p, t, d) ==
  CASE t = "m"  -> [p EXCEPT !.m = Cat(@, d)]
    [] t = "u"  -> [p EXCEPT !.u = Cat(@, d)]
    [] t = "ua" -> [p EXCEPT !.u = Cat(@, d), !.pa = Cat(@, d)]
    [] t = "uq" -> [p EXCEPT !.u = Cat(@, d), !.qs = Cat(@, d)]
    [] t = "f"  -> [p EXCEPT !.fr = Cat(@, d)]
    [] t = "v"  -> [p EXCEPT !.ve = Cat(@, d)]
    [] t = "n"  -> [p EXCEPT !.hn = Cat(@, d)]
    [] t = "h"  -> [p EXCEPT !.hv = Cat(@, d)]
    [] t = "H"  -> [p EXCEPT !.hs = Append(@, <<p.hn, p.hv>>), !.hn = <<>>, !.hv = <<>>]

Feed(p, x) == LET z == Scan(Delta, Target, p.q, x) IN
  FoldLeft(LAMBDA a, o : Credit(a, o[1], o[2]), [p EXCEPT !.q = z.q, !.n = @ + z.n], z.out)

(* Grammar design invariants, checked by TLC over every state and byte.    *)
GrammarOK ==
  /\ \A q \in States, b \in 0..255 : Delta[q][b] \in States
  /\ \A q \in States : q \notin {"start", "done", "bad"} => \E p \in States, b \in 0..255 : p # q /\ Delta[p][b] = q
  /\ \A b \in 0..255 : Delta["bad"][b] = "bad"
=============================================================================
