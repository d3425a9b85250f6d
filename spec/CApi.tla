------------------------------- MODULE CApi -------------------------------
(* The public operations of hogl on the default engine, as a program sees them in either interface (C25).  The state: *)
(* areas with their enabled sections, the mask for new areas, mask objects, thread rings with their numbering of      *)
(* records, and outputs with the text they must hold.                                                                 *)
EXTENDS RecArgs, TLC
M == INSTANCE Mask

Lit(c) == [k |-> "ch", c |-> c]
Cat(x, y) == [k |-> "cat", a |-> x, b |-> y]
Alt(x, y) == [k |-> "alt", a |-> x, b |-> y]
RECURSIVE Word(_)
Word(w) == IF Len(w) = 1 THEN Lit(w[1]) ELSE Cat(Lit(w[1]), Word(Tail(w)))
All == [k |-> "star", a |-> [k |-> "any"]]
\* the mask of an engine started without one: .*:(INFO|WARN|ERROR|FATAL).*
Default == << [neg |-> FALSE, form |-> "as", a |-> All,
               b |-> Cat(Alt(Alt(Word(<<"I","N","F","O">>), Word(<<"W","A","R","N">>)), Alt(Word(<<"E","R","R","O","R">>), Word(<<"F","A","T","A","L">>))), All)] >>

Start == [areas |-> << >>, rules |-> << >>, masks |-> << >>, seq |-> << >>, outs |-> << >>, cur |-> 0, ok |-> TRUE]
Num(n) == <<n % 256, (n \div 256) % 256, 0, 0, 0, 0, 0, 0>>
Bits(S) == [j \in 1..Len(S.areas) |-> S.areas[j].bits]

\* numbering of the records of rings: a sequence of [r |-> ring, n |-> number of records so far, at |-> length of the output after its last record]
Ring(S, r) == LET s == {j \in 1..Len(S.seq) : S.seq[j].r = r} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
Count(S, r) == IF Ring(S, r) = 0 THEN 0 ELSE S.seq[Ring(S, r)].n
At(S, r) == IF Ring(S, r) = 0 THEN 0 ELSE S.seq[Ring(S, r)].at
Bump(S, r, at) == IF Ring(S, r) = 0 THEN [S EXCEPT !.seq = Append(@, [r |-> r, n |-> 1, at |-> at])]
                  ELSE [S EXCEPT !.seq[Ring(S, r)].n = @ + 1, !.seq[Ring(S, r)].at = at]

NewOutput(S, kind, f) == [S EXCEPT !.outs = Append(@, [kind |-> kind, f |-> f, recs |-> << >>, len |-> 0])]
Activate(S, out, rules) == [S EXCEPT !.areas = << >>, !.cur = out, !.rules = rules, !.seq = [j \in 1..Len(S.seq) |-> [S.seq[j] EXCEPT !.at = 0]]]
Same(a, nm, secs) == a.nm = nm /\ a.secs = secs
Named(S, nm) == {j \in 1..Len(S.areas) : S.areas[j].nm = nm}
AddArea(S, nm, name, secs, sb) ==
  IF Named(S, nm) # {} THEN S
  ELSE [S EXCEPT !.areas = Append(@, [nm |-> nm, name |-> name, secs |-> secs, sb |-> sb, bits |-> M!ApplyMask(S.rules, nm, secs, [j \in 1..Len(secs) |-> 0])])]
SetBit(S, k, s, v) == [S EXCEPT !.areas[k].bits[s] = v]
SetAll(S, k, v) == [S EXCEPT !.areas[k].bits = [j \in 1..Len(@) |-> v]]
Apply(S, rules) == [S EXCEPT !.rules = rules, !.areas = [j \in 1..Len(S.areas) |-> [S.areas[j] EXCEPT !.bits = M!ApplyMask(rules, S.areas[j].nm, S.areas[j].secs, @)]]]
RecText(S, k, s, ring, args, tail) ==
  LET b == Body(StoredArgs(args, tail))
      h == Header(S.outs[S.cur].f, [ring |-> ring, area |-> S.areas[k].name, sect |-> S.areas[k].sb[s], ts |-> Num(0), seq |-> Num(Count(S, ring))], Num(0), 0)
  IN [ok |-> b.ok, s |-> h \o b.s]
Post(S, k, s, ring, args, tail) ==
  IF S.areas[k].bits[s] = 0 THEN S
  ELSE LET t == RecText(S, k, s, ring, args, tail)
           o == S.outs[S.cur]
       IN Bump([S EXCEPT !.outs[S.cur] = [o EXCEPT !.recs = Append(@, t.s), !.len = @ + Len(t.s)], !.ok = t.ok], ring, o.len + Len(t.s))
Flush(S, ring) == Bump(S, ring, At(S, ring))
============================================================================
