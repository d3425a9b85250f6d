---------------------------- MODULE RecoverTrace ----------------------------
(* Each line: the history of rings and outputs, an image of the memory, and what the recovery tool showed of it.        *)
EXTENDS Recover, Text, Json, IOUtils, TLC, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Fields(t) == {t.f[j] : j \in 1..Len(t.f)}
At(s, p, x) == p + Len(x) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(x) - 1) = x
TextOf(t, x, prev) == LET r == t.recs[x[3]] IN
  Header(Fields(t), [ring |-> t.rings[x[1]], area |-> r.area, sect |-> r.sect, ts |-> r.ts, seq |-> r.seq], prev, 0) \o r.body

\* the output from p on shows the records left, in an allowed order; skip: other text may be between them
RECURSIVE Match(_, _, _, _)
Match(t, p, todo, prev) ==
  IF todo = {} THEN p = Len(t.out) + 1
  ELSE \E x \in Least(todo, LAMBDA q : t.recs[q].k) :
         LET s == TextOf(t, x, prev) IN At(t.out, p, s) /\ Match(t, p + Len(s), todo \ {x}, t.recs[x[3]].ts)
Find(s, x, p) == {q \in p..(Len(s) - Len(x) + 1) : s[q] = x[1] /\ SubSeq(s, q, q + Len(x) - 1) = x}
\* the texts are in s from p on, in this order, with anything between them
RECURSIVE After(_, _, _)
After(s, p, xs) ==
  IF xs = << >> THEN TRUE
  ELSE LET f == Find(s, Head(xs), p)
       IN f # {} /\ After(s, (CHOOSE q \in f : \A q2 \in f : q <= q2) + Len(Head(xs)), Tail(xs))
Line(t, x) == LET r == t.recs[x[3]] IN
  (IF {"area", "section"} \subseteq Fields(t) THEN r.area \o <<58>> \o r.sect \o <<32>> ELSE << >>) \o r.body
\* with used records as well: every pending record, those of a ring in order, and all of them by time if that is unique
Loose(t, pend, todo) ==
  /\ \A r \in 1..Len(pend) : LET o == SortSeq([j \in 1..Len(pend[r]) |-> <<r, j, pend[r][j]>>], LAMBDA x, y : t.recs[x[3]].k < t.recs[y[3]].k \/ (t.recs[x[3]].k = t.recs[y[3]].k /\ x[2] < y[2]))
                             IN After(t.out, 1, [j \in 1..Len(o) |-> Line(t, o[j])])
  /\ (\A x, y \in todo : t.recs[x[3]].k = t.recs[y[3]].k => x = y) =>
       After(t.out, 1, LET o == SetToSortSeq(todo, LAMBDA x, y : t.recs[x[3]].k < t.recs[y[3]].k) IN [j \in 1..Len(o) |-> Line(t, o[j])])

Ends(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
B(c, why) == IF c THEN {} ELSE {<<"C21", why, 0>>}
Bad(t) ==
  LET pend == Pending(t.caps, t.ops)
      todo == UNION {{<<r, j, pend[r][j]>> : j \in 1..Len(pend[r])} : r \in 1..Len(t.caps)}
      fill == {b \in 1..Len(t.bufs) : t.bufs[b] # << >>}
  IN B(t.rc = 0, "recovery fails or crashes")
     \cup (IF t.rc # 0 THEN {} ELSE
           B(IF t.all = 1 THEN Loose(t, pend, todo) ELSE Match(t, 1, todo, Zero8), "what is recovered is not what was pending")
           \cup B(\A b \in fill : Find(t.pre, t.bufs[b], 1) # {}, "text in an output buffer is not recovered")
           \* a record accepted is in a ring, in a buffer, or behind the output (images of a running engine)
           \cup B("sunk" \in DOMAIN t => \A j \in 1..Len(t.ops) :
                   t.ops[j].k = "push" => LET r == t.recs[t.ops[j].q] IN
                     \/ r.sp = 1 \/ \E x \in todo : x[3] = t.ops[j].q
                     \/ Find(t.sunk, r.body, 1) # {} \/ Find(t.pre, r.body, 1) # {}
                     \/ \E k \in 1..(Len(r.body) - 1) : Ends(t.sunk, SubSeq(r.body, 1, k)) /\ Find(t.pre, SubSeq(r.body, k + 1, Len(r.body)), 1) # {}, "an accepted record is neither written nor recovered"))
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> Len(Traces[i].ops), bad |-> Bad(Traces[i])]))
=============================================================================
