------------------------------ MODULE MaskTrace ------------------------------
(* Each line: one mask applied to one area by the real code, for several ways of building the same mask. *)
EXTENDS Mask, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE i
Init == i \in 1..Len(Traces)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

\* t.texts: masks as texts, applied to areas
BadText(t) == {<<"C11", "wrong sections after applying a mask", k>> :
   k \in {k \in 1..Len(t.texts) : LET x == t.texts[k] IN x.after # ApplyMask([j \in 1..Len(x.m) |-> ParseRule(x.m[j])], x.an, t.secs, x.before)}}
BadRules(t) ==
  LET exp == ApplyMask(t.rules, t.an, t.secs, t.before)
      text == [k \in 1..Len(t.rules) |-> RuleText(t.rules[k])]
      bad1 == {<<"SPEC", "rule text", k>> : k \in {k \in 1..Len(t.rules) : t.text[k] # text[k]}}
      bad2 == {<<"C11", "wrong sections after applying the mask (" \o t.res[k].how \o ")", 0>> :
                   k \in {k \in 1..Len(t.res) : t.res[k].how # "shown" /\ t.res[k].after # exp}}
      bad3 == {<<"C11", "mask is not shown as it was written", 0>> : k \in {k \in 1..Len(t.res) : t.res[k].how = "shown" /\ t.res[k].text # text}}
  IN bad1 \cup bad2 \cup bad3

Bad(t) == IF "texts" \in DOMAIN t THEN BadText(t) ELSE BadRules(t)

Report == PrintT("TRACE " \o ToJson([sd |-> Traces[i].sd, n |-> 1, bad |-> Bad(Traces[i])]))
=============================================================================
