------------------------------ MODULE RecDesign ------------------------------
(* Design of the storage of arguments: the record is an array of Tail bytes (and Guard bytes of the next record), one   *)
(* word per argument first, data behind them.  Arguments are added one by one, every list of at most Args of them.      *)
(* Good: nothing outside is written, no argument is overwritten, and what is read back is what RecArgs says.            *)
EXTENDS RecArgs, TLC
CONSTANTS Tail0, Guard, Word, Args, Lens, Defect
VARIABLES n,      \* the number of arguments, known before the first one is stored
          as,     \* arguments stored so far
          mem,    \* the bytes
          off,    \* where the next data goes
          ref     \* for every argument <<offset, length>>
vars == <<n, as, mem, off, ref>>
Has(d) == d \in Defect
Bytes(k, j) == [i \in 1..k |-> 64 + j * 8 + (i % 8)]
Arg(t, k, j) == [t |-> t, d |-> (IF t = "num" THEN << >> ELSE Bytes(k, j))]
Put(m, at, d) == [i \in DOMAIN m |-> IF i >= at /\ i < at + Len(d) THEN d[i - at + 1] ELSE m[i]]

Init == /\ n \in 1..Args /\ as = << >> /\ off = n * Word /\ ref = << >>
        /\ mem = [i \in 0..(Tail0 + Guard - 1) |-> 0]
Store(t, k) ==
  LET j == Len(as) + 1
      a == Arg(t, k, j)
      room == IF Has("room") THEN Tail0 - n * Word ELSE Tail0 - off
      m1 == Put(mem, (j - 1) * Word, [i \in 1..Word |-> j])
      cut == IF t = "cstr" THEN (IF room = 0 \/ k = 0 THEN << >> ELSE IF k <= room - (IF Has("noterm") THEN 0 ELSE 1) THEN a.d
                                 ELSE IF room - 1 > 3 THEN SubSeq(a.d, 1, room - 1 - (IF Has("longmark") THEN 2 ELSE 3)) \o Mark ELSE SubSeq(a.d, 1, room - 1))
             ELSE IF t = "xdump" /\ room < 4 THEN << >> ELSE SubSeq(a.d, 1, Min(k, room))
      z == IF t = "cstr" /\ cut # << >> THEN <<0>> ELSE IF t = "cstr" /\ k > 0 /\ room > 0 THEN <<0>> ELSE << >>
  IN /\ j <= n
     /\ as' = Append(as, a)
     /\ mem' = IF t = "num" THEN m1 ELSE Put(m1, off, cut \o z)
     /\ off' = IF t = "num" THEN off ELSE off + Len(cut) + (IF Has("nocount") THEN 0 ELSE Len(z))
     /\ ref' = Append(ref, IF t = "num" THEN <<(j - 1) * Word, Word>> ELSE <<off, Len(cut)>>)
     /\ UNCHANGED n
Next == (\E t \in {"num", "cstr", "raw", "xdump"}, k \in Lens : (t = "num" => k = 0) /\ (t = "xdump" => k >= 4) /\ Store(t, k)) \/ (Len(as) = n /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Read(j) == [i \in 1..ref[j][2] |-> mem[ref[j][1] + i - 1]]
Good ==
  /\ \A i \in Tail0..(Tail0 + Guard - 1) : mem[i] = 0
  /\ LET want == Stored(as, 1, Tail0 - n * Word)
     IN \A j \in 1..Len(as) : IF as[j].t = "num" THEN Read(j) = [i \in 1..Word |-> j]
                              ELSE Read(j) = want[j].d /\ (as[j].t = "cstr" /\ want[j].d # << >> => mem[ref[j][1] + ref[j][2]] = 0)
=============================================================================
