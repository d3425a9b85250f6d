------------------------------ MODULE OutBuf ------------------------------
(* Specification of the output buffers (C19): what has been appended (want; pre of it before, through *)
(* another buffer), what arrived at each sink (got), and *)
(* whether the system has reported an error.  BufStep is the state after one operation and what it let through.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Buf0(kind, cap, pre) == [ l |-> 0, pre |-> [i \in 1..Len(pre) |-> Len(pre[i])], bad |-> {}, kind |-> kind, cap |-> cap, want |-> pre, got |-> [i \in 1..Len(pre) |-> 0], failed |-> FALSE ]
Flag(s, c, why) == IF c THEN s ELSE [s EXCEPT !.bad = @ \cup {<<"C19", why, s.l>>}]
IsPart(w, k, d) == k + Len(d) <= Len(w) /\ SubSeq(w, k + 1, k + Len(d)) = d

(* e: op "a" append / "f" flush, d the bytes given, got the bytes that arrived at each sink during the operation,      *)
(* err: errors the system reported during the operation, failed and msg: what the buffer says afterwards               *)
BufStep(s0, e) ==
  LET s == [s0 EXCEPT !.l = @ + 1]
      n == Len(s.want)
      want == TLCEval([i \in 1..n |-> IF s.failed THEN s.want[i] ELSE s.want[i] \o e.d])
      ok == \A i \in 1..n : IsPart(want[i], s.got[i], e.got[i])
      s1 == Flag(s, ok, "bytes are lost, duplicated, reordered or altered")
      s2 == Flag(s1, ~s.failed \/ \A i \in 1..n : e.got[i] = << >>, "data passes a failed buffer")
      nofail == ~s.failed /\ e.err = 0
      s3 == Flag(s2, (e.failed = 1) = ~nofail, IF nofail THEN "failure is reported without an error" ELSE "an error is not reported")
      s4 == Flag(s3, e.failed = 0 \/ e.msg > 0, "failure without a message")
      got == TLCEval([i \in 1..n |-> s.got[i] + Len(e.got[i])])
      s5 == Flag(s4, ~nofail \/ e.op # "f" \/ \A i \in 1..n : got[i] = Len(want[i]) \/ Len(want[i]) = s.pre[i], "bytes stay behind a flush")
      s6 == Flag(s5, ~nofail \/ \A i \in 1..n : Len(want[i]) - got[i] <= s.cap, "more bytes are held back than the capacity")
  IN [s6 EXCEPT !.want = want, !.got = got, !.failed = ~nofail]
=============================================================================
