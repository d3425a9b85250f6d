------------------------------ MODULE RecTrace ------------------------------
(* Each line: records posted to a real ring and taken out again, or records made by hand, with their text. *)
EXTENDS RecArgs, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
View1(a) == [t |-> a.t, v |-> a.v, d |-> a.d]
Same(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : View1(x[j]) = View1(y[j])
Fields(t) == {t.f[j] : j \in 1..Len(t.f)}

BadRec(t, r, prev, pos) ==
  LET want == IF "tail" \in DOMAIN t THEN StoredArgs(r.as, t.tail) ELSE r.as
      h == Header(Fields(t), r, prev, t.tz)
      hok == Len(r.text) >= Len(h) /\ SubSeq(r.text, 1, Len(h)) = h
      b == Body(r.got)
      B(c, p, why) == IF c THEN {} ELSE {<<p, why, pos>>}
  IN B(Same(r.got, want), "C22", "the record does not hold its arguments")
     \cup B(\A j \in 1..Len(r.got) : r.got[j].z = 1, "C22", "a stored string is not terminated")
     \cup B(r.spill = 0, "C22", "posting changed other records or its own header")
     \cup B(hok, "C24", "the header does not show the record")
     \cup B(~hok \/ ~b.ok \/ From(r.text, Len(h) + 1) = b.s, IF t.suite = "hdr" THEN "C24" ELSE "C22", "the text does not show the stored arguments")
RECURSIVE Bad(_, _, _)
Bad(t, k, prev) == IF k > Len(t.recs) THEN {} ELSE BadRec(t, t.recs[k], prev, k) \cup Bad(t, k + 1, t.recs[k].ts)
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> Len(Traces[i].recs), bad |-> Bad(Traces[i], 1, Zero8)]))
=============================================================================
