------------------------------ MODULE OutBufDesign ------------------------------
(* Design of a buffered output to a descriptor: every program of at most Ops operations with data of at most MaxLen   *)
(* bytes, against every way the system can accept them (in parts, after an interruption, or not at all).              *)
(* Good: the specification OutBuf accepts what happened.                                                              *)
EXTENDS OutBuf
CONSTANTS Cap, Ops, MaxLen, Intr, Errors, Defect
VARIABLES buf,    \* bytes held back
          out,    \* bytes still to be written by the operation in progress
          cur,    \* that operation; op = "-" when there is none
          failed, n, next, mon, intr, errs
vars == <<buf, out, cur, failed, n, next, mon, intr, errs>>
None0 == [op |-> "-", d |-> << >>, got |-> << >>, err |-> 0, failed |-> 0, msg |-> 0]
Data(k) == [i \in 1..k |-> next + i]
Has(d) == d \in Defect

Init == /\ buf = << >> /\ out = << >> /\ cur = None0 /\ failed = FALSE /\ n = 0 /\ next = 0
        /\ mon = Buf0("fd", Cap, << << >> >>) /\ intr = 0 /\ errs = 0

Done(c, f) == mon' = BufStep(mon, [c EXCEPT !.got = <<c.got>>, !.failed = IF f THEN 1 ELSE 0, !.msg = IF f THEN 1 ELSE 0]) /\ cur' = None0

Start(op, k) ==
  LET c == [None0 EXCEPT !.op = op, !.d = Data(k)] IN
  /\ cur.op = "-" /\ n < Ops
  /\ n' = n + 1 /\ next' = next + k /\ UNCHANGED <<intr, errs>>
  /\ IF op = "a" /\ k <= Cap - Len(buf) THEN buf' = buf \o Data(k) /\ Done(c, failed) /\ UNCHANGED <<out, failed>>
     ELSE IF failed /\ ~Has("nolatch") THEN Done(c, failed) /\ UNCHANGED <<buf, out, failed>>
     ELSE /\ out' = (IF Has("order") THEN Data(k) \o buf ELSE IF Has("drop") /\ op = "a" THEN buf ELSE buf \o Data(k))
          /\ cur' = c /\ UNCHANGED <<buf, failed, mon>>

(* the system takes k bytes *)
Write(k) ==
  /\ cur.op # "-" /\ k \in 1..Len(out)
  /\ out' = (IF Has("short") THEN << >> ELSE IF Has("restart") /\ k < Len(out) /\ intr < Intr THEN out ELSE SubSeq(out, k + 1, Len(out)))
  /\ cur' = [cur EXCEPT !.got = @ \o SubSeq(out, 1, k)]
  /\ intr' = (IF Has("restart") /\ k < Len(out) /\ intr < Intr THEN intr + 1 ELSE intr)
  /\ UNCHANGED <<buf, failed, n, next, mon, errs>>
(* it is interrupted before it took any *)
Interrupted ==
  /\ cur.op # "-" /\ out # << >> /\ intr < Intr /\ intr' = intr + 1
  /\ IF Has("eintr") THEN failed' = TRUE /\ out' = << >> ELSE UNCHANGED <<failed, out>>
  /\ UNCHANGED <<buf, cur, n, next, mon, errs>>
(* or refuses *)
Error ==
  /\ cur.op # "-" /\ out # << >> /\ errs < Errors /\ errs' = errs + 1
  /\ failed' = ~Has("silent") /\ out' = << >> /\ cur' = [cur EXCEPT !.err = 1]
  /\ UNCHANGED <<buf, n, next, mon, intr>>
End ==
  /\ cur.op # "-" /\ out = << >>
  /\ buf' = (IF Has("noreset") THEN buf ELSE << >>)
  /\ Done(cur, failed)
  /\ UNCHANGED <<out, failed, n, next, intr, errs>>

Next == (\E op \in {"a", "f"}, k \in 0..MaxLen : Start(op, k)) \/ (\E k \in 1..(Ops * MaxLen) : Write(k)) \/ Interrupted \/ Error \/ End
        \/ (n = Ops /\ cur.op = "-" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Good == mon.bad = {}
View == <<buf, out, cur, failed, n, next, intr, errs, mon.bad, mon.got, mon.failed>>
=============================================================================
