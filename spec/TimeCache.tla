------------------------------ MODULE TimeCache ------------------------------
(* Design of the cached time text of headers (C24): seconds, the high and the low part of the fraction; the text of    *)
(* the first two is rewritten only when they change.  Every sequence of times.                                         *)
EXTENDS Naturals
CONSTANTS Secs, His, Los, Defect
VARIABLES sec, hi, text, shown
vars == <<sec, hi, text, shown>>
Has(d) == d \in Defect
Init == sec = 0 /\ hi = 0 /\ text = [s |-> 0, h |-> (IF Has("blank") THEN 99 ELSE 0), l |-> 0] /\ shown = [s |-> 0, h |-> (IF Has("blank") THEN 99 ELSE 0), l |-> 0] \* nothing shown yet
Show(s, h, l) ==
  LET ns == sec # s
      nh == IF Has("nested") THEN ns /\ hi # h ELSE IF Has("stale") THEN hi # h /\ ~ns ELSE hi # h
  IN /\ sec' = (IF ns THEN s ELSE sec)
     /\ hi' = (IF nh /\ (~Has("forget") \/ ~ns) THEN h ELSE hi)
     /\ text' = [s |-> IF ns THEN s ELSE text.s, h |-> IF nh THEN h ELSE text.h, l |-> l]
     /\ shown' = [s |-> s, h |-> h, l |-> l]
Next == \E s \in Secs, h \in His, l \in Los : Show(s, h, l)
Spec == Init /\ [][Next]_vars
Good == text = shown
=============================================================================
