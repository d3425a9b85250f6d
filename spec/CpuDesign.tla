----------------------------- MODULE CpuDesign -----------------------------
(* Design of the parser of CPU lists, character by character, against the grammar of CpuSet.  Every string of at most    *)
(* Max characters of Chars is an initial state.                                                                         *)
EXTENDS CpuSet, TLC
CONSTANTS Chars, Max, Defect
VARIABLES s,     \* the string
          p,     \* position
          st,    \* what is expected: first, num, second, num2, next
          a, b,  \* numbers
          set,   \* result
          res    \* "run", "ok", "bad"
vars == <<s, p, st, a, b, set, res>>
Has(d) == d = Defect
Strings == UNION {[1..n -> Chars] : n \in 0..Max}
Init == s \in Strings /\ p = 1 /\ st = "first" /\ a = 0 /\ b = 0 /\ set = {} /\ res = "run"
C == IF p <= Len(s) THEN s[p] ELSE 0
Wrap(v) == IF Has("trunc") THEN v % 16 ELSE v
Stop(r) == res' = r /\ UNCHANGED <<s, p, st, a, b, set>>
Digit(n, next) == IF Dig(C) THEN /\ p' = p + 1 /\ st' = next /\ (IF n = 1 THEN a' = Wrap(a * 10 + C - 48) /\ b' = a' ELSE b' = Wrap(b * 10 + C - 48) /\ a' = a)
                                 /\ UNCHANGED <<s, set, res>>
                  ELSE Stop("bad")
Item == IF ~(a <= b) /\ ~Has("order") THEN Stop("bad")
        ELSE IF b >= Cpus THEN Stop("bad")
        ELSE LET add == set \cup (IF Has("open") /\ a < b THEN a..(b - 1) ELSE a..b)
                 q == IF C = 44 THEN p + 1 ELSE p
             IN /\ set' = (IF Has("last") THEN a..b ELSE add) /\ p' = q /\ a' = 0 /\ b' = 0
                /\ res' = (IF q > Len(s) THEN "ok" ELSE "run") /\ st' = "first" /\ UNCHANGED s
Next == /\ res = "run"
        /\ \/ st = "first" /\ Digit(1, "num")
           \/ st = "num" /\ (IF Dig(C) THEN Digit(1, "num") ELSE IF C = 45 THEN p' = p + 1 /\ st' = "second" /\ b' = 0 /\ UNCHANGED <<s, a, set, res>> ELSE Item)
           \/ st = "second" /\ (IF Has("dash") /\ ~Dig(C) THEN b' = a /\ st' = "num2" /\ UNCHANGED <<s, p, a, set, res>> ELSE Digit(2, "num2"))
           \/ st = "num2" /\ (IF Dig(C) THEN Digit(2, "num2") ELSE Item)
Spec == Init /\ [][Next]_vars
Good == LET m == List(s) IN
  CASE res = "ok" -> m.c # "bad" /\ set = m.s
    [] res = "bad" -> m.c # "good"
    [] OTHER -> TRUE
=============================================================================
