----------------------------- MODULE CApiTrace -----------------------------
(* Each line: one program, run in the real code through the C interface, the C++ interface or a mixture of them: its   *)
(* operations with their results, and what the outputs held at the end.                                                *)
EXTENDS CApi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

F(c, why, k) == IF c THEN {} ELSE {<<"C25", why, k>>}
Set(x) == {x[j] : j \in 1..Len(x)}

Step(S, e) ==
  CASE e.o = "out" -> NewOutput(S, e.kind, Set(e.f))
    [] e.o = "act" -> Activate(S, e.out, IF e.dm = 1 THEN e.rules ELSE Default)
    [] e.o = "area" -> AddArea(S, e.nm, e.name, e.secs, e.sb)
    [] e.o = "set" -> SetBit(S, e.k, e.s, 1)
    [] e.o = "reset" -> SetBit(S, e.k, e.s, 0)
    [] e.o = "setall" -> SetAll(S, e.k, 1)
    [] e.o = "resetall" -> SetAll(S, e.k, 0)
    [] e.o = "mnew" -> [S EXCEPT !.masks = Append(@, e.rules)]
    [] e.o = "madd" -> [S EXCEPT !.masks[e.m] = @ \o e.rules]
    [] e.o = "mclr" -> [S EXCEPT !.masks[e.m] = << >>]
    [] e.o = "mapply" -> Apply(S, S.masks[e.m])
    [] e.o = "post" -> Post(S, e.k, e.s, e.ring, e.as, e.tail)
    [] e.o = "flush" -> Flush(S, e.ring)
    [] e.o = "deact" -> [S EXCEPT !.areas = << >>]
    [] OTHER -> S

\* what the operation must have shown: S before, T after
Check(S, T, e, k) ==
  (CASE e.o = "out" -> F(e.ok = 1, "an output is not made", k)
     [] e.o = "badout" -> F(e.failed = 1, "making an output that cannot be opened does not fail", k)
     [] e.o \in {"act", "tls", "untls"} -> F(e.want = e.got, IF e.o = "act" THEN "the engine has other options" ELSE "the thread has another ring", k)
     [] e.o = "area" -> LET n == Named(S, e.nm) IN
          IF n = {} THEN F(e.fresh = 1, "a new area is not added", k)
          ELSE LET j == CHOOSE x \in n : TRUE IN
               IF Same(S.areas[j], e.nm, e.secs) THEN F(e.id = j, "an area that exists is not found", k) ELSE F(e.id = 0 /\ e.fresh = 0, "adding an area with other sections does not fail", k)
     [] e.o = "post" -> F(e.ev = <<1, 1>>, "the area or the section is not evaluated once", k) \cup IF ~T.ok THEN {<<"SPEC", "text is not specified", k>>} ELSE {}
     [] e.o = "flush" -> F(e.n = -1 \/ e.n >= At(S, e.ring), "records are missing in the output after a flush", k) \cup F(e.rot = 1, "the output does not switch files", k)
     [] e.o = "deact" -> F(e.off = 1, "the engine is not stopped", k)
     [] OTHER -> {})
  \cup (IF "bits" \in DOMAIN e THEN F(e.bits = Bits(T), "wrong sections are enabled after " \o e.o, k) ELSE {})

RECURSIVE Fold(_, _, _, _)
Fold(S, ops, k, bad) ==
  IF k > Len(ops) THEN <<S, bad>>
  ELSE LET T == TLCEval(Step(S, ops[k]))
           b == bad \cup Check(S, T, ops[k], k)
       IN IF \E x \in b : x[1] = "C25" THEN <<S, b>> ELSE Fold(T, ops, k + 1, b)

\* the content c holds the texts from the k-th on, or (files that are overwritten) the last ones
RECURSIVE Holds(_, _, _, _)
Holds(c, p, recs, k) ==
  IF k > Len(recs) THEN p = Len(c) + 1
  ELSE LET n == Len(recs[k]) IN p + n - 1 <= Len(c) /\ SubSeq(c, p, p + n - 1) = recs[k] /\ Holds(c, p + n, recs, k + 1)
Ends(c, recs) == LET e == Flat(recs) IN Len(c) <= Len(e) /\ SubSeq(e, Len(e) - Len(c) + 1, Len(e)) = c
RECURSIVE Consecutive(_, _, _)
Consecutive(ch, j, n) == j >= Len(ch) \/ (ch[j + 1][1] = (ch[j][1] + 1) % n /\ Consecutive(ch, j + 1, n))
Width(n) == Len(Nat10(n - 1))

FinalOut(o, r) ==
  IF o.kind # "file" THEN F(Holds(r.c, 1, o.recs, 1), "the output does not hold the posted records", 0)
  ELSE LET ch == r.chunks n == Len(ch) IN
       F(n >= 1 /\ n <= r.count, "wrong number of files", 0)
       \cup F(\A j \in 1..n : ch[j][2] = Width(r.count) /\ ch[j][3] = r.perms, "files with other names or permissions", 0)
       \cup F(Consecutive(ch, 1, r.count), "files are not numbered in order", 0)
       \cup F(\A j \in 1..(n - 1) : ch[j][4] >= r.size, "switches to another file early", 0)
       \cup F(IF n < r.count THEN Holds(r.c, 1, o.recs, 1) ELSE Ends(r.c, o.recs), "the output does not hold the posted records", 0)

BadRun(r) ==
  LET x == Fold(Start, r.ops, 1, {}) S == x[1] IN
  IF \E b \in x[2] : b[1] = "C25" THEN x[2]
  ELSE x[2] \cup F(Len(S.outs) = Len(r.outs), "an output is missing", 0) \cup UNION {FinalOut(S.outs[j], r.outs[j]) : j \in 1..Len(r.outs)}
Bad(t) == UNION {BadRun(t.runs[j]) : j \in 1..Len(t.runs)}
          \cup F(\A j \in 2..Len(t.runs) : t.runs[j].w = t.runs[1].w, "the interfaces write the output in different pieces", 0)
RECURSIVE Sum(_, _)
Sum(rs, j) == IF j > Len(rs) THEN 0 ELSE Len(rs[j].ops) + Sum(rs, j + 1)
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> Sum(Traces[i].runs, 1), bad |-> Bad(Traces[i])]))
============================================================================
