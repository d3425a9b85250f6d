------------------------------ MODULE Recover ------------------------------
(* Specification of recovery (C21): rings are bounded queues of records; what is pending in them when the image is      *)
(* taken has to be shown, each record once, by time and in the order of its ring.                                       *)
(* caps: capacities asked for; ops: history of pushes and pops (q: the record); recs: the records                       *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
RECURSIVE Play(_, _, _)
\* the contents of the rings after the operations from the i-th on
Play(ops, i, rings) ==
  IF i > Len(ops) THEN rings
  ELSE LET o == ops[i]
           r == rings[o.r]
           n == IF o.k = "push" THEN (IF Len(r.q) < r.room THEN [r EXCEPT !.q = Append(@, o.q)] ELSE r)
                ELSE [r EXCEPT !.q = Tail(@)]
       IN Play(ops, i + 1, [rings EXCEPT ![o.r] = n])
Pending(caps, ops) == LET e == Play(ops, 1, [r \in 1..Len(caps) |-> [room |-> Pow2(caps[r], 1) - 1, q |-> << >>]])
                      IN [r \in 1..Len(caps) |-> e[r].q]

\* what can be shown next when the records in todo (a set of <<ring, position, record>>) are left
Least(todo, K(_)) == {x \in todo : (\A y \in todo : K(x[3]) <= K(y[3]))
                                   /\ (\A z \in todo : (z[1] = x[1] /\ K(z[3]) = K(x[3])) => x[2] <= z[2])}
=============================================================================
