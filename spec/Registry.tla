------------------------------ MODULE Registry ------------------------------
(* Areas and masks of an engine.  Every operation takes effect at one moment between its call and its return; TLC  *)
(* chooses the moments.  An execution is right if some choice explains everything that was observed.               *)
EXTENDS Mask, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTH == 16

VARIABLES tid, i, A, M, P, bad
vars == <<tid, i, A, M, P, bad>>
T == Traces[tid]
Idle == [o |-> ""]

Init == /\ tid \in 1..Len(Traces) /\ i = 1
        /\ A = <<>>            \* registered areas, in order of registration
        /\ M = 1               \* number of the current mask
        /\ P = [t \in 1..NTH |-> Idle]
        /\ bad = {}

Where(n) == LET s == {k \in 1..Len(A) : A[k].name = n} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
Zero(n) == [k \in 1..n |-> 0]
F(c, p, why) == IF c THEN {} ELSE {<<p, why, i>>}
MaskBusy == \E t \in 1..NTH : P[t].o = "mask"

Lin(t) ==
  /\ P[t].o # "" /\ ~P[t].lin
  /\ LET p == P[t] k == IF p.o \in {"adda", "finda"} THEN Where(p.name) ELSE 0 IN
     CASE p.o = "adda" ->
            IF k = 0
            THEN /\ A' = Append(A, [name |-> p.name, secs |-> p.secs, id |-> 0, bits |-> ApplyMask(T.masks[M], p.nm, p.secs, Zero(Len(p.secs)))])
                 /\ P' = [P EXCEPT ![t].lin = TRUE, ![t].k = Len(A) + 1]
                 /\ UNCHANGED M
            ELSE /\ P' = [P EXCEPT ![t].lin = TRUE, ![t].k = IF A[k].secs = p.secs THEN k ELSE 0]
                 /\ UNCHANGED <<A, M>>
       [] p.o = "finda" -> P' = [P EXCEPT ![t].lin = TRUE, ![t].k = k] /\ UNCHANGED <<A, M>>
       [] p.o = "mask" ->
            /\ A' = [j \in 1..Len(A) |-> [A[j] EXCEPT !.bits = ApplyMask(T.masks[p.m], IF "nm" \in DOMAIN A[j] THEN A[j].nm ELSE T.chars[A[j].name], A[j].secs, A[j].bits)]]
            /\ M' = p.m
            /\ P' = [P EXCEPT ![t].lin = TRUE]
       [] p.o = "lista" -> P' = [P EXCEPT ![t].lin = TRUE, ![t].k = {A[j].name : j \in 1..Len(A)}] /\ UNCHANGED <<A, M>>
  /\ UNCHANGED <<tid, i, bad>>

Ev == T.ev[i]
Call == /\ Ev.e = "op"
        /\ P' = [P EXCEPT ![Ev.t] = Ev @@ [lin |-> FALSE, k |-> 0]]
        /\ UNCHANGED <<A, M, bad>>

Ret ==
  /\ Ev.e = "ret" /\ P[Ev.t].lin
  /\ P' = [P EXCEPT ![Ev.t] = Idle]
  /\ UNCHANGED M
  /\ LET p == P[Ev.t] IN
     IF p.o \in {"adda", "finda"}
     THEN LET what == IF p.o = "adda" THEN "adding an area" ELSE "looking up an area" IN
          IF p.k = 0 \/ Ev.id = 0
          THEN /\ bad' = bad \cup F(p.k = 0 /\ Ev.id = 0, "C13", what \o (IF Ev.id = 0 THEN " failed although it exists or is new" ELSE " succeeded although it must fail"))
               /\ UNCHANGED A
          ELSE LET a == A[p.k] IN
               /\ A' = [A EXCEPT ![p.k].id = IF @ = 0 THEN Ev.id ELSE @]
               /\ bad' = bad \cup F(a.id \in {0, Ev.id} /\ ~\E j \in 1..Len(A) : j # p.k /\ A[j].id = Ev.id, "C13", what \o " returned another area")
                             \cup F(Ev.name = a.name /\ Ev.secs = a.secs, "C13", what \o ": name or sections differ")
                             \cup F(MaskBusy \/ Ev.bits = a.bits, "C12", what \o ": sections do not agree with the masks")
     ELSE /\ bad' = bad \cup (IF p.o = "lista" THEN F({Ev.v[k] : k \in 1..Len(Ev.v)} = p.k /\ Cardinality(p.k) = Len(Ev.v), "C13", "list of areas is wrong") ELSE {})
          /\ UNCHANGED A

\* nobody is in an operation: all areas are looked at
Obs ==
  /\ Ev.e = "obs"
  /\ LET names == {Ev.v[k].name : k \in 1..Len(Ev.v)}
         was(k) == A[Where(Ev.v[k].name)] IN
     /\ bad' = bad \cup F(\A k \in 1..Len(Ev.v) : Where(Ev.v[k].name) # 0 => Ev.v[k].bits = was(k).bits, "C12", "sections do not agree with the masks")
                   \cup F(names = {A[k].name : k \in 1..Len(A)} /\ \A k \in 1..Len(Ev.v) : Where(Ev.v[k].name) # 0 => was(k).id \in {0, Ev.v[k].id} /\ was(k).secs = Ev.v[k].secs,
                          "C13", "registered areas changed")
     /\ A' = [k \in 1..Len(Ev.v) |-> [name |-> Ev.v[k].name, secs |-> Ev.v[k].secs, id |-> Ev.v[k].id, bits |-> Ev.v[k].bits]]
  /\ UNCHANGED <<M, P>>
First == \* the engine's own area at the start
  /\ Ev.e = "start"
  /\ A' = [k \in 1..Len(Ev.v) |-> [name |-> Ev.v[k].name, secs |-> Ev.v[k].secs, id |-> Ev.v[k].id, bits |-> Ev.v[k].bits]]
  /\ UNCHANGED <<M, P, bad>>
Fault == /\ Ev.e \in {"mem", "crash", "hang"}
         /\ bad' = bad \cup {<<"C13", "crash, hang or access to freed memory", i>>}
         /\ UNCHANGED <<A, M, P>>

Consume == i <= Len(T.ev) /\ (Call \/ Ret \/ Obs \/ First \/ Fault) /\ i' = i + 1 /\ UNCHANGED tid
Next == Consume \/ \E t \in 1..NTH : Lin(t)
Spec == Init /\ [][Next]_vars

Report == i = Len(T.ev) + 1 => PrintT("TRACE " \o ToJson([sd |-> T.sd, n |-> i - 1, bad |-> bad]))
=============================================================================
