------------------------ MODULE TraceHttpClient ------------------------
(* Runs HttpClient's operators over recorded executions of the real        *)
(* client: every trace of the file must be a behaviour of the spec.    *)
EXTENDS HttpClient, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, s
vars == <<tid, i, s>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = cFresh
Next == /\ i < Len(Traces[tid].ev)
        /\ s.err = ""
        /\ i' = i + 1
        /\ s' = CApply(s, Traces[tid].ev[i+1])
        /\ tid' = tid
Spec == Init /\ [][Next]_vars

(* Reporting: a rejected trace is printed with the position and reason.    *)
Judge == /\ (s.err # "" => PrintT(<<"REJECT", Traces[tid].id, i, s.err, Traces[tid].ev[i].e>>))
         /\ ((s.err = "" /\ i = Len(Traces[tid].ev)) => PrintT(<<"ACCEPT", Traces[tid].id>>))
View == <<tid, i>>
=============================================================================
