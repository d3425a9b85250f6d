------------------------------ MODULE RawDesign ------------------------------
(* Design of raw logs (C20): every file of at most N records of a few shapes, as written, cut off at every byte, with   *)
(* one byte changed to each of a few values at every byte, and with its beginning missing.                              *)
EXTENDS RawCodec, TLC, Json
CONSTANTS N, Values, Max, Mins
Z8(x) == [i \in 1..8 |-> IF i = 1 THEN x ELSE 0]
A(t, v, d) == [t |-> t, v |-> v, d |-> d]
Recs == <<
  [ring |-> <<82, 82>>, area |-> <<65, 65>>, sect |-> <<83, 83>>, as |-> << >>],
  [ring |-> <<82, 82, 82>>, area |-> <<65, 65>>, sect |-> <<83, 83>>, as |-> <<A("cstr", << >>, <<>>), A("u32", <<1, 0, 0, 0>>, << >>)>>],
  [ring |-> <<82, 82>>, area |-> <<65, 32>>, sect |-> <<83, 83>>, as |-> <<A("raw", << >>, <<65, 0, 3>>), A("cstr", << >>, <<104>>), A("u64", Z8(9), << >>)>>],
  [ring |-> <<82, 82>>, area |-> <<65, 65>>, sect |-> <<83, 83>>, as |-> <<A("i32", <<255, 255, 255, 255>>, << >>)>>] >>
Bin(k, j) == LET r == Recs[k] IN Encode(Z8(j), Z8(j + 1), r.ring, r.area, r.sect, r.as, FALSE)
RECURSIVE File(_, _)
File(ks, j) == IF j > Len(ks) THEN << >> ELSE Bin(ks[j], j) \o File(ks, j + 1)
Start(ks, j) == Len(File(SubSeq(ks, 1, j - 1), 1))
Starts(ks, p) == [j \in 1..Cardinality({i \in 1..Len(ks) : Start(ks, i + 1) <= p}) |-> Start(ks, j)]   \* records that end at p or before

VARIABLES ks, kind, p, v
vars == <<ks, kind, p, v>>
Init == \E n \in 0..N : /\ ks \in [1..n -> 1..Len(Recs)] /\ kind = "whole" /\ p = 0 /\ v = 0
Next == /\ kind = "whole" /\ UNCHANGED ks
        /\ \/ kind' = "cut" /\ p' \in 0..Len(File(ks, 1)) /\ v' = 0
           \/ kind' = "damage" /\ p' \in 1..Len(File(ks, 1)) /\ v' \in Values
           \/ kind' = "head" /\ p' \in 1..Len(File(ks, 1)) /\ v' = 0
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Data == LET f == File(ks, 1) IN
        CASE kind = "whole" -> f [] kind = "cut" -> SubSeq(f, 1, p) [] kind = "head" -> SubSeq(f, p + 1, Len(f)) [] kind = "damage" -> [f EXCEPT ![p] = v]
Good ==
  LET f == Data
      c == Chain(f, 0, Max, << >>)
  IN CASE kind = "whole" -> c.at = Starts(ks, Len(f)) /\ c.k = "end"
       [] kind = "cut" -> \* exactly the records that are there, once: the reader does not start over
             c.at = Starts(ks, p) /\ c.k # "format" /\ \A m \in Mins : Len(Shown(f, m, Max)) = 1
       [] kind = "damage" -> IsPrefix(Starts(ks, p - 1), c.at)
       [] kind = "head" -> \* reading ends; where it goes on in front of a record, all records from there on are shown
             \A m \in Mins : LET s == Shown(f, m, Max) IN
               /\ Len(s) <= Max + 1
               /\ \A j \in 1..Len(ks) : (\E x \in 1..Len(s[Len(s)].at) : s[Len(s)].at[x] + p = Start(ks, j))
                    => \A i \in j..Len(ks) : \E x \in 1..Len(s[Len(s)].at) : s[Len(s)].at[x] + p = Start(ks, i)

\* mistakes, put in place of the operators by the configuration
BadNameCut(b, r) == IF r.k # "ok" THEN r ELSE IF r.at + 1 > Len(b) \/ r.at + 1 + b[r.at + 1] > Len(b) THEN Fail("format") ELSE Ok(r.at + 1 + b[r.at + 1])
BadName(b, r) == IF r.k # "ok" THEN r ELSE IF r.at + 1 > Len(b) THEN Fail("input") ELSE LET n == CLen(b, r.at + 1, Len(b)) IN IF n = 0 THEN Fail("format") ELSE Ok(r.at + 1 + n)
BadEncArg(a, v1) == IF a.t = "raw" THEN Sz(Len(a.d), 2) \o a.d ELSE IF a.t = "cstr" THEN Sz(Len(a.d), 2) \o a.d ELSE a.v
BadTypes(as) == [i \in 1..8 |-> IF i <= Len(as) THEN Types[as[i].t] ELSE 0]
=============================================================================
