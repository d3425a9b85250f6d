------------------------------ MODULE OutFileTrace ------------------------------
(* Every line of the input is one execution of the real file output. *)
EXTENDS OutFile, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s
vars == <<tid, i, s>>
Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = Out0
Next == /\ i <= Len(Traces[tid].ev)
        /\ s' = OutStep(s, Traces[tid].ev[i])
        /\ i' = i + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Report == i = Len(Traces[tid].ev) + 1 =>
            PrintT("TRACE " \o ToJson([sd |-> Traces[tid].sd, n |-> i - 1, bad |-> s.bad]))
=============================================================================
