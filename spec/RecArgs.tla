------------------------------ MODULE RecArgs ------------------------------
(* Specification of the storage of arguments in a record (C22): what is stored for a list of arguments in a record     *)
(* with `tail` bytes for them.                                                                                         *)
EXTENDS Text

Mark == <<62, 62, 62>>
Min(a, b) == IF a < b THEN a ELSE b
(* <<stored data, bytes used>> *)
Keep(a, room) ==
  CASE a.t = "cstr" ->
         IF a.d = << >> \/ room = 0 THEN << << >>, 0 >>
         ELSE IF Len(a.d) <= room - 1 THEN <<a.d, Len(a.d) + 1>>
         ELSE IF room - 1 > 3 THEN <<SubSeq(a.d, 1, room - 4) \o Mark, room>>
         ELSE <<SubSeq(a.d, 1, room - 1), room>>
    [] a.t = "raw" -> <<SubSeq(a.d, 1, Min(Len(a.d), room)), Min(Len(a.d), room)>>
    [] a.t = "xdump" -> (IF room < 4 THEN << << >>, 0 >> ELSE <<SubSeq(a.d, 1, Min(Len(a.d), room)), Min(Len(a.d), room)>>)
    [] OTHER -> <<a.d, 0>>
RECURSIVE Stored(_, _, _)
Stored(as, i, room) ==
  IF i > Len(as) THEN << >>
  ELSE LET k == Keep(as[i], room) IN <<[as[i] EXCEPT !.d = k[1]]>> \o Stored(as, i + 1, room - k[2])
StoredArgs(as, tail) == Stored(as, 1, tail - 8 * Len(as))
=============================================================================
