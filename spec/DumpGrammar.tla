---------------------------- MODULE DumpGrammar ----------------------------
(* Checks the design of the request grammar and hands its automaton to the *)
(* script generator.                                                       *)
EXTENDS RequestGrammar, Json, IOUtils
ASSUME GrammarOK
ASSUME JsonSerialize(IOEnv.OUT, [q \in States |-> [b \in 1..256 |-> Delta[q][b-1]]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
