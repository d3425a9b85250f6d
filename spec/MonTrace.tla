------------------------------ MODULE MonTrace ------------------------------
(* Trace validation: every line of the input is one execution of the real code. *)
EXTENDS HoglMon, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, s
vars == <<tid, i, s>>

Init == tid \in 1..Len(Traces) /\ i = 1 /\ s = Mon0
Next == /\ i <= Len(Traces[tid].ev)
        /\ s' = Step(s, Traces[tid].ev[i])
        /\ i' = i + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars

(* One line per execution: accepted or the set of violated properties *)
Report == i = Len(Traces[tid].ev) + 1 =>
            PrintT("TRACE " \o ToJson([sd |-> Traces[tid].sd, n |-> i - 1, bad |-> s.bad]))
=============================================================================
