--------------------------- MODULE RecoverDesign ---------------------------
(* Design of what recovery relies on: rings as slots with two indices, posting threads, the engine, and a buffered      *)
(* output.  Every reachable state may be the image; Shown is what the recovery tool makes of it.                        *)
EXTENDS Recover, TLC
CONSTANTS Rings, Slots, Posts, Times, Defect
VARIABLES slot,   \* ring -> index -> record <<time, number>>
          head,   \* ring -> the slot before the oldest record
          tail,   \* ring -> the next slot to write
          pc,     \* poster of the ring: idle, begun, filled
          cnt,    \* ring -> records begun
          now,    \* time
          acc,    \* accepted records <<ring, number, time>>
          used,   \* consumed by the engine
          eng,    \* <<state, ring>>
          buf,    \* text in the buffer of the output
          out     \* text behind it
vars == <<slot, head, tail, pc, cnt, now, acc, used, eng, buf, out>>
Has(d) == d = Defect
None == <<0, 0>>

Init == /\ slot = [r \in 1..Rings |-> [i \in 0..(Slots - 1) |-> None]]
        /\ head = [r \in 1..Rings |-> 0] /\ tail = [r \in 1..Rings |-> 1]
        /\ pc = [r \in 1..Rings |-> "idle"] /\ cnt = [r \in 1..Rings |-> 0]
        /\ now = 1 /\ acc = {} /\ used = {} /\ eng = <<"idle", 1>> /\ buf = {} /\ out = {}
Room(r) == tail[r] # head[r]
Begin(r) == /\ pc[r] = "idle" /\ cnt[r] < Posts /\ Room(r)
            /\ cnt' = [cnt EXCEPT ![r] = @ + 1]
            /\ now' \in {n \in {now, now + 1} : n <= Times}
            /\ slot' = [slot EXCEPT ![r][tail[r]] = <<now', 0>>]
            /\ pc' = [pc EXCEPT ![r] = "begun"]
            /\ tail' = IF Has("early") THEN [tail EXCEPT ![r] = (@ + 1) % Slots] ELSE tail
            /\ UNCHANGED <<head, acc, used, eng, buf, out>>
At(r) == IF Has("early") THEN (tail[r] + Slots - 1) % Slots ELSE tail[r]
Fill(r) == /\ pc[r] = "begun"
           /\ slot' = [slot EXCEPT ![r][At(r)] = <<@[1], cnt[r]>>]
           /\ pc' = [pc EXCEPT ![r] = "filled"]
           /\ UNCHANGED <<head, tail, cnt, now, acc, used, eng, buf, out>>
Commit(r) == /\ pc[r] = "filled"
             /\ acc' = acc \cup {<<r, cnt[r], slot[r][At(r)][1]>>}
             /\ tail' = IF Has("early") THEN tail ELSE [tail EXCEPT ![r] = (@ + 1) % Slots]
             /\ pc' = [pc EXCEPT ![r] = "idle"]
             /\ UNCHANGED <<slot, head, cnt, now, used, eng, buf, out>>
Oldest(r) == slot[r][(head[r] + 1) % Slots]
Some(r) == (head[r] + 1) % Slots # tail[r]
Txt(r) == <<r, Oldest(r)[2]>>
Pop(r) == /\ head' = [head EXCEPT ![r] = (@ + 1) % Slots]
          /\ used' = used \cup {Txt(r)}
Fetch(r) == /\ eng[1] = "idle" /\ Some(r)
            /\ IF Has("popfirst") THEN Pop(r) /\ eng' = <<"late", r, Txt(r)>> /\ buf' = buf
               ELSE eng' = <<"pop", r>> /\ buf' = buf \cup {Txt(r)} /\ UNCHANGED <<head, used>>
            /\ UNCHANGED <<slot, tail, pc, cnt, now, acc, out>>
Finish == /\ eng[1] \in {"pop", "late"} /\ eng' = <<"idle", 1>>
          /\ IF eng[1] = "pop" THEN Pop(eng[2]) /\ buf' = buf ELSE buf' = buf \cup {eng[3]} /\ UNCHANGED <<head, used>>
          /\ UNCHANGED <<slot, tail, pc, cnt, now, acc, out>>
Flush == /\ eng[1] = "idle" /\ buf # {} /\ eng' = <<"flush", buf>>
         /\ IF Has("resetfirst") THEN buf' = {} /\ out' = out ELSE out' = out \cup buf /\ buf' = buf
         /\ UNCHANGED <<slot, head, tail, pc, cnt, now, acc, used>>
Flushed == /\ eng[1] = "flush" /\ eng' = <<"idle", 1>> /\ buf' = {} /\ out' = out \cup eng[2]
           /\ UNCHANGED <<slot, head, tail, pc, cnt, now, acc, used>>
Next == (\E r \in 1..Rings : Begin(r) \/ Fill(r) \/ Commit(r) \/ Fetch(r)) \/ Finish \/ Flush \/ Flushed
        \/ ((\A r \in 1..Rings : cnt[r] = Posts /\ pc[r] = "idle" /\ ~Some(r)) /\ eng[1] = "idle" /\ buf = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* the recovery tool: the records between the indices of every ring, merged by time
Len0(r) == (tail[r] + Slots - 1 - head[r]) % Slots
Ring(r) == [i \in 1..Len0(r) |-> LET x == slot[r][(head[r] + i - (IF Has("offbyone") THEN 1 ELSE 0)) % Slots] IN <<r, x[2], x[1]>>]
Insert(s, x) == LET k == Cardinality({i \in 1..Len(s) : s[i][3] <= x[3]})
                IN IF Has("set") /\ (\E i \in 1..Len(s) : s[i][3] = x[3]) THEN s
                   ELSE IF Has("before") THEN LET j == Cardinality({i \in 1..Len(s) : s[i][3] < x[3]}) IN SubSeq(s, 1, j) \o <<x>> \o SubSeq(s, j + 1, Len(s))
                   ELSE SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Merge(_, _, _)
Merge(s, r, i) == IF r > Rings THEN s ELSE IF i > Len0(r) THEN Merge(s, r + 1, 1) ELSE Merge(Insert(s, Ring(r)[i]), r, i + 1)
Shown == Merge(<< >>, 1, 1)
Range(s) == {s[i] : i \in 1..Len(s)}

Good ==
  LET s == Shown
      pend == {x \in acc : <<x[1], x[2]>> \notin used}
  IN /\ Len(s) = Cardinality(pend) /\ Range(s) = pend                            \* every one, once, and nothing else
     /\ \A i, j \in 1..Len(s) : i < j => s[i][3] <= s[j][3]                      \* by time
     /\ \A i, j \in 1..Len(s) : (i < j /\ s[i][1] = s[j][1]) => s[i][2] < s[j][2]  \* in the order of the ring
     /\ \A x \in acc : x \in Range(s) \/ <<x[1], x[2]>> \in buf \cup out         \* nothing is lost
=============================================================================
