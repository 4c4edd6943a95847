---------------------------- MODULE TraceHeaders ----------------------------
(* Decides for every recorded use of a header collection whether it is one *)
(* the specification allows.                                               *)
EXTENDS Headers, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, s
vars == <<tid, i, s>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = H0
Next == /\ i < Len(Traces[tid].ev)
        /\ s.err = ""
        /\ i' = i + 1
        /\ s' = ApplyHeaders(s, Traces[tid].ev[i+1])
        /\ tid' = tid
Spec == Init /\ [][Next]_vars

Judge == /\ (s.err # "" => PrintT(<<"REJECT", Traces[tid].id, i, s.err, Traces[tid].ev[i].e>>))
         /\ ((s.err = "" /\ i = Len(Traces[tid].ev)) => PrintT(<<"ACCEPT", Traces[tid].id>>))
View == <<tid, i>>
=============================================================================
