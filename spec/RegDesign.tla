------------------------------ MODULE RegDesign ------------------------------
(* Design of the registry of areas: a mutex protects the map of areas and the mask; an area that is added is inserted *)
(* and masked, a mask that is applied is stored and applied to all areas, rule after rule.  The ghost state (A, M) is *)
(* what Registry.tla says: every operation happens at once when the mutex is taken.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Progs,    \* sequence of programs of the threads
          Defect
VARIABLES pc, k, w,            \* per thread: step, operation in its program, work: what is still to be masked
          lock, map, mask,     \* map: name -> [kind, bits] or None
          A, M, log            \* ghost areas and mask; log: wrong results
vars == <<pc, k, w, lock, map, mask, A, M, log>>

Names == {1, 2}
Secs == {1, 2}
None == [kind |-> 0, bits |-> {}]
R(n, s, on) == [n |-> n, s |-> s, on |-> on]
Masks == << << R({1, 2}, {1, 2}, TRUE) >>, << R({1}, {1}, FALSE) >>, << R({1, 2}, {2}, FALSE), R({2}, {2}, TRUE) >>, << >> >>
D(x) == Defect = x
One(r, n, b) == IF n \notin r.n THEN b ELSE IF r.on THEN b \cup r.s ELSE b \ r.s
RECURSIVE Apply(_, _, _, _)
Apply(m, j, n, b) == IF j > Len(m) THEN b ELSE Apply(m, j + 1, n, One(m[j], n, b))

Threads == 1..Len(Progs)
Op(t) == Progs[t][k[t]]
Init == /\ pc = [t \in Threads |-> "go"] /\ k = [t \in Threads |-> 1] /\ w = [t \in Threads |-> [m |-> 0, todo |-> {}, n |-> 0, j |-> 0, res |-> 0, want |-> 0]]
        /\ lock = 0 /\ map = [n \in Names |-> None] /\ mask = 1 /\ A = [n \in Names |-> None] /\ M = 1 /\ log = {}

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Lock(t) ==
  /\ pc[t] = "go" /\ k[t] <= Len(Progs[t]) /\ lock = 0
  /\ lock' = t
  /\ LET o == Op(t) IN
     /\ CASE o.o = "add" ->
             /\ A' = IF A[o.n].kind = 0 THEN [A EXCEPT ![o.n] = [kind |-> o.kind, bits |-> Apply(Masks[M], 1, o.n, {})]] ELSE A
             /\ w' = [w EXCEPT ![t].want = IF A[o.n].kind \in {0, o.kind} THEN o.kind ELSE 0]
             /\ UNCHANGED M
          [] o.o = "find" -> w' = [w EXCEPT ![t].want = A[o.n].kind] /\ UNCHANGED <<A, M>>
          [] o.o = "mask" ->
             /\ M' = o.m /\ A' = [n \in Names |-> IF A[n].kind = 0 THEN None ELSE [A[n] EXCEPT !.bits = Apply(Masks[o.m], 1, n, @)]]
             /\ UNCHANGED w
     /\ Go(t, o.o)
  /\ UNCHANGED <<k, map, mask, log>>

\* looking up and inserting
Find(t) == /\ pc[t] = "find" /\ w' = [w EXCEPT ![t].res = map[Op(t).n].kind] /\ Go(t, "unlock") /\ UNCHANGED <<k, lock, map, mask, A, M, log>>
Add(t) ==
  /\ pc[t] = "add"
  /\ LET o == Op(t) old == map[o.n].kind
         same == old = o.kind \/ (D("prefix") /\ old > o.kind) IN
     IF old = 0
     THEN IF D("insertlate") THEN Go(t, "insert") /\ lock' = 0 /\ UNCHANGED <<w, map>>
          ELSE /\ map' = [map EXCEPT ![o.n] = [kind |-> o.kind, bits |-> {}]]
               /\ w' = [w EXCEPT ![t] = [@ EXCEPT !.res = o.kind, !.todo = {o.n}, !.m = mask, !.n = 0]]
               /\ Go(t, IF D("latemask") THEN "unlock1" ELSE "next") /\ UNCHANGED lock
     ELSE w' = [w EXCEPT ![t].res = IF same THEN old ELSE 0] /\ Go(t, "unlock") /\ UNCHANGED <<lock, map>>
  /\ UNCHANGED <<k, mask, A, M, log>>
Insert(t) == \* only with a defect: in a second critical section
  /\ pc[t] = "insert" /\ lock = 0 /\ lock' = t
  /\ map' = [map EXCEPT ![Op(t).n] = [kind |-> Op(t).kind, bits |-> {}]]
  /\ w' = [w EXCEPT ![t] = [@ EXCEPT !.res = Op(t).kind, !.todo = {Op(t).n}, !.m = mask, !.n = 0]]
  /\ Go(t, "next") /\ UNCHANGED <<k, mask, A, M, log>>
Unlock1(t) == pc[t] = "unlock1" /\ lock' = 0 /\ Go(t, "next") /\ UNCHANGED <<k, w, map, mask, A, M, log>>

Store(t) ==
  /\ pc[t] = "mask"
  /\ mask' = IF D("nostore") THEN mask ELSE Op(t).m
  /\ w' = [w EXCEPT ![t] = [@ EXCEPT !.m = Op(t).m, !.todo = {n \in Names : map[n].kind # 0}, !.n = 0]]
  /\ IF D("unlocked") THEN lock' = 0 ELSE UNCHANGED lock
  /\ Go(t, "next") /\ UNCHANGED <<k, map, A, M, log>>

\* masking: the next area, then rule after rule
NextArea(t) ==
  /\ pc[t] = "next"
  /\ IF w[t].todo = {} THEN Go(t, "unlock") /\ UNCHANGED <<w, map>>
     ELSE \E n \in w[t].todo :
            /\ w' = [w EXCEPT ![t] = [@ EXCEPT !.n = n, !.todo = @ \ {n}, !.j = 1]]
            /\ map' = IF D("clear") THEN [map EXCEPT ![n].bits = {}] ELSE map
            /\ Go(t, "rule")
  /\ UNCHANGED <<k, lock, mask, A, M, log>>
Rule(t) ==
  /\ pc[t] = "rule"
  /\ LET m == Masks[w[t].m] j == w[t].j n == w[t].n IN
     IF j > Len(m) THEN Go(t, "next") /\ UNCHANGED <<w, map>>
     ELSE /\ map' = [map EXCEPT ![n].bits = One(m[j], n, @)]
          /\ w' = [w EXCEPT ![t].j = IF D("first") /\ n \in m[j].n THEN Len(m) + 1 ELSE j + 1]
          /\ UNCHANGED pc
  /\ UNCHANGED <<k, lock, mask, A, M, log>>

Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ lock' = IF lock = t THEN 0 ELSE lock
  /\ log' = log \cup (IF Op(t).o # "mask" /\ w[t].res # w[t].want THEN {<<t, k[t]>>} ELSE {})
  /\ k' = [k EXCEPT ![t] = @ + 1]
  /\ w' = [w EXCEPT ![t] = [m |-> 0, todo |-> {}, n |-> 0, j |-> 0, res |-> 0, want |-> 0]]
  /\ Go(t, "go") /\ UNCHANGED <<map, mask, A, M>>

Done == /\ \A t \in Threads : k[t] > Len(Progs[t]) /\ pc[t] = "go"
        /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : Lock(t) \/ Find(t) \/ Add(t) \/ Insert(t) \/ Unlock1(t) \/ Store(t) \/ NextArea(t) \/ Rule(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars

Quiet == \A t \in Threads : pc[t] = "go"
Good == /\ log = {}                                              \* every result is the one of the abstract registry
        /\ Quiet => map = A /\ mask = M                          \* sections agree with the masks

add(n, kd) == [o |-> "add", n |-> n, kind |-> kd]
find(n) == [o |-> "find", n |-> n]
msk(m) == [o |-> "mask", m |-> m]
Two == << << add(1, 1), add(2, 1) >>, << msk(2), msk(3) >> >>
Kinds == << << add(1, 1), add(1, 2) >>, << add(1, 2), find(1) >>, << msk(3) >> >>
Masking == << << add(1, 1), msk(2) >>, << add(2, 2), msk(3) >>, << msk(4), find(2) >> >>
Cross == << << add(1, 1), msk(1) >>, << add(2, 1), msk(2) >>, << msk(3) >> >>
Big == << << add(1, 1), msk(2), add(2, 1) >>, << add(2, 2), msk(3), find(1) >>, << msk(4), add(1, 2), msk(1) >> >>
==============================================================================
