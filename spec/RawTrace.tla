------------------------------ MODULE RawTrace ------------------------------
(* Each line: a raw log written by the real code, as a whole or damaged, and what the real reader shows of it.         *)
(* recs: for every record where it starts and ends in the file that is read (-1: damaged) and its text when it is      *)
(* formatted directly                                                                                                   *)
EXTENDS RawCodec, Json, IOUtils, TLC, Integers
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

RECURSIVE Cat(_, _, _)
Cat(rs, a, b) == IF a > b THEN << >> ELSE rs[a].text \o Cat(rs, a + 1, b)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
B(c, why) == IF c THEN {} ELSE {<<"C20", why, 0>>}
View1(a) == [t |-> IF a.t = "gstr" THEN "cstr" ELSE a.t, v |-> IF a.t = "gstr" THEN << >> ELSE a.v, d |-> a.d]
Same(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : View1(x[j]) = View1(y[j])

Bad(t) ==
  LET n == Len(t.recs)
      pre == t.pre                                                       \* records before the damage
      after == {k \in (pre + 1)..n : \A j \in k..n : t.recs[j].s >= 0}   \* behind it
  IN CASE t.kind = "whole" ->
            B(t.rc = 0, "the reader fails on a good file") \cup B(t.out = Cat(t.recs, 1, n), "the text of the raw log is not the text of the records")
            \cup B(\A k \in 1..n : LET r == t.recs[k] IN r.bin = Encode(r.ts, r.sq, r.ring, r.area, r.sect, r.as, t.v1 = 1), "the bytes of the raw log are not the record")
            \cup B(\A k \in 1..n : Same(t.recs[k].as, t.recs[k].got) /\ t.recs[k].same = 1, "a record read back is not the record written")
       [] t.kind = "tail" ->
            B(t.rc = 0, "the reader fails at a cut-off end") \cup B(t.out = Cat(t.recs, 1, pre), "a cut-off end changes what is shown of the records before it")
       [] t.kind \in {"damage", "head"} ->
            LET s == Shown(t.file, t.min, t.max)
                last == s[Len(s)]
                hit == {k \in after : \E j \in 1..Len(last.at) : last.at[j] = t.recs[k].s}
            IN B(t.rc \in {0, 1}, "the reader crashes or hangs on damaged data")
               \cup B(t.kind = "head" \/ StartsWith(t.out, Cat(t.recs, 1, pre)), "damage changes what is shown of the records before it")
               \cup (IF hit = {} THEN {} ELSE LET k == CHOOSE k \in hit : \A j \in hit : k <= j IN
                     B(EndsWith(t.out, Cat(t.recs, k, n)), "the reader does not find the records behind the damage"))
Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> Len(Traces[i].recs), bad |-> Bad(Traces[i])]))
=============================================================================
