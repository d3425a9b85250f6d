------------------------------ MODULE CpuTrace ------------------------------
(* Each line: strings given as CPU affinity and what became of them in the real code.                                   *)
(*  s: string; how: 0 a thread entering with the parameters, 1 engine, 2 helper of a file, 3/4 the same through the C   *)
(*  interface; v: validation; mach: CPUs of the machine; calls: sets passed to the system by the thread and results;    *)
(*  sched: results of setting the policy; pol: <<policy, priority given, policy, priority set>>; ok: result of entering *)
EXTENDS CpuSet, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

SetOf(q) == {q[j] : j \in 1..Len(q)}
B(c, why, n) == IF c THEN {} ELSE {<<"C23", why, n>>}
Case(x, n) ==
  LET m == Meaning(x.s)
      k == Len(x.calls)
      aff == k = 0 \/ x.calls[k].rc = 0
      sch == \A j \in 1..Len(x.sched) : x.sched[j] = 0
  IN (IF x.s = << >> THEN
        B(x.v = 1, "no affinity is rejected", n) \cup B(k = 0, "CPUs are selected without an affinity", n)
        \cup B(x.how = 0 => (x.ok = 1) = sch, "wrong result of entering", n)
      ELSE IF m.c = "free" THEN {}
      ELSE IF m.c = "bad" \/ (m.c = "any" /\ x.v = 0) THEN
        B(x.v = 0, "a malformed string is accepted", n) \cup B(k = 0, "a thread runs with CPUs of a rejected string", n)
        \cup B(x.how = 0 => x.ok = 0, "entering with a rejected string succeeds", n)
      ELSE
        B(x.v = 1, "a well-formed string is rejected", n)
        \cup B(k > 0, "the CPUs are not selected", n)
        \cup B(k > 0 => SetOf(x.calls[k].set) = m.s, "the CPUs selected are not those named", n)
        \cup B(x.how = 0 => (x.ok = 1) = (aff /\ sch), "wrong result of entering", n))
     \cup B(x.pol[1] = x.pol[3] /\ x.pol[2] = x.pol[4], "policy or priority differ", n)
     \cup B(x.other = 0, "another thread is changed", n)
Bad(t) == UNION {Case(t.cases[j], j) : j \in 1..Len(t.cases)}
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> Len(Traces[i].cases), bad |-> Bad(Traces[i])]))
=============================================================================
