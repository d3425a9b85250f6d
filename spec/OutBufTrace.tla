------------------------------ MODULE OutBufTrace ------------------------------
(* Each line: one sequence of operations on a real buffer, or one life of a real output. *)
EXTENDS OutBuf, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

RECURSIVE Run(_, _, _)
Run(s, ops, k) == IF k > Len(ops) THEN s ELSE Run(BufStep(s, ops[k]), ops, k + 1)

Bad(t) ==
  IF t.suite = "ob" THEN Run(Buf0(t.kind, t.cap, t.pre), t.ops, 1).bad
  ELSE LET all == t.h \o t.b \o t.f
           bads == {k \in 1..Len(t.got) : t.got[k] # all}
           why(g) == IF Len(t.h) > Len(g) \/ SubSeq(g, 1, Len(t.h)) # t.h THEN "the output does not begin with the header"
                     ELSE IF Len(g) < Len(t.f) \/ SubSeq(g, Len(g) - Len(t.f) + 1, Len(g)) # t.f THEN "the output does not end with the footer"
                     ELSE "bytes are lost, duplicated, reordered or altered"
       IN {<<"C19", why(t.got[k]) \o " (" \o t.kind \o ")", 0>> : k \in bads}
          \cup (IF t.failed = 1 THEN {<<"C19", "failure is reported without an error", 0>>} ELSE {})
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> 1, bad |-> Bad(Traces[i])]))
=============================================================================
