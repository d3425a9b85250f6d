-------------------------------- MODULE Mask --------------------------------
(* Masks: rules with an area part and a section part, both extended regular expressions that must match the whole *)
(* name.  Regular expressions are syntax trees; Show() is the text a user writes, Match() what it means.           *)
(* Texts are sequences of one-character strings.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* trees: k = "eps" | "ch" c | "any" | "cls" neg s(set as sequence) | "cat" a b | "alt" a b | "star" a | "plus" a | "opt" a *)
RECURSIVE Chars(_)
Chars(s) == IF s = <<>> THEN <<>> ELSE << s[1] >> \o Chars(Tail(s))

Special == {".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "^", "$", "\\"}
RECURSIVE Show(_)
Show(x) ==
  CASE x.k = "eps"  -> ""
    [] x.k = "ch"   -> IF x.c \in Special THEN "\\" \o x.c ELSE x.c
    [] x.k = "any"  -> "."
    [] x.k = "cls"  -> "[" \o (IF x.neg THEN "^" ELSE "") \o x.t \o "]"
    [] x.k = "cat"  -> Show(x.a) \o Show(x.b)
    [] x.k = "alt"  -> "(" \o Show(x.a) \o "|" \o Show(x.b) \o ")"
    [] x.k = "star" -> "(" \o Show(x.a) \o ")*"
    [] x.k = "plus" -> "(" \o Show(x.a) \o ")+"
    [] x.k = "opt"  -> "(" \o Show(x.a) \o ")?"
    [] x.k = "rep"  -> "(" \o Show(x.a) \o "){" \o ToString(x.lo) \o "," \o ToString(x.hi) \o "}"
    [] x.k = "bol"  -> "^"
    [] x.k = "eol"  -> "$"
    [] x.k = "all"  -> ".*"

(* positions after which a match of x starting at position p of text w may end *)
RECURSIVE Ends(_, _, _), Star(_, _, _), Rep(_, _, _, _, _)
Ends(x, w, p) ==
  CASE x.k = "eps"  -> {p}
    [] x.k = "ch"   -> IF p <= Len(w) /\ w[p] = x.c THEN {p + 1} ELSE {}
    [] x.k = "any"  -> IF p <= Len(w) THEN {p + 1} ELSE {}
    [] x.k = "cls"  -> IF p <= Len(w) /\ ((\E j \in 1..Len(x.s) : x.s[j] = w[p]) # x.neg) THEN {p + 1} ELSE {}
    [] x.k = "cat"  -> UNION {Ends(x.b, w, q) : q \in Ends(x.a, w, p)}
    [] x.k = "alt"  -> Ends(x.a, w, p) \cup Ends(x.b, w, p)
    [] x.k = "star" -> Star(x.a, w, {p})
    [] x.k = "plus" -> UNION {Star(x.a, w, {q}) : q \in Ends(x.a, w, p)}
    [] x.k = "opt"  -> {p} \cup Ends(x.a, w, p)
    [] x.k = "rep"  -> Rep(x.a, w, {p}, x.lo, x.hi)
    [] x.k = "bol"  -> IF p = 1 THEN {p} ELSE {}
    [] x.k = "eol"  -> IF p = Len(w) + 1 THEN {p} ELSE {}
    [] x.k = "all"  -> p..(Len(w) + 1)
Star(x, w, S) == LET n == S \cup UNION {Ends(x, w, q) : q \in S} IN IF n = S THEN S ELSE Star(x, w, n)

Rep(x, w, S, lo, hi) == IF hi = 0 THEN S ELSE (IF lo = 0 THEN S ELSE {}) \cup Rep(x, w, UNION {Ends(x, w, q) : q \in S}, IF lo = 0 THEN 0 ELSE lo - 1, hi - 1)

Match(x, w) == (Len(w) + 1) \in Ends(x, w, 1)

(* A rule: neg, form "as" (area:section), "s" (section only); an empty part means everything *)
Part(x) == IF x.k = "eps" THEN [k |-> "all"] ELSE x
RuleText(r) == (IF r.neg THEN "!" ELSE "") \o (IF r.form = "s" THEN Show(r.b) ELSE Show(r.a) \o ":" \o Show(r.b))
Hits(r, an, sn) == (r.form = "s" \/ Match(Part(r.a), an)) /\ Match(Part(r.b), sn)

(* what the text of a rule means, for texts of letters, "." and ":" : the first colon separates the parts *)
RECURSIVE Plain(_)
Plain(w) == IF w = <<>> THEN [k |-> "eps"]
            ELSE LET h == IF w[1] = "." THEN [k |-> "any"] ELSE [k |-> "ch", c |-> w[1]] IN IF Len(w) = 1 THEN h ELSE [k |-> "cat", a |-> h, b |-> Plain(Tail(w))]
ParseRule(w) ==
  LET neg == w # <<>> /\ w[1] = "!"
      b == IF neg THEN Tail(w) ELSE w
      cs == {j \in 1..Len(b) : b[j] = ":"}
      c == CHOOSE j \in cs : \A k \in cs : j <= k
  IN IF cs = {} THEN [neg |-> neg, form |-> "s", a |-> [k |-> "eps"], b |-> Plain(b)]
     ELSE [neg |-> neg, form |-> "as", a |-> Plain(SubSeq(b, 1, c - 1)), b |-> Plain(SubSeq(b, c + 1, Len(b)))]

(* the last matching rule decides; unmatched sections keep their state *)
RECURSIVE Decide(_, _, _, _, _)
Decide(rules, k, an, sn, old) ==
  IF k = 0 THEN old
  ELSE IF Hits(rules[k], an, sn) THEN (IF rules[k].neg THEN 0 ELSE 1)
  ELSE Decide(rules, k - 1, an, sn, old)

ApplyMask(rules, an, secs, bits) == [j \in 1..Len(secs) |-> Decide(rules, Len(rules), an, secs[j], bits[j])]
=============================================================================
