------------------------------- MODULE CpuSet -------------------------------
(* Specification of CPU affinity strings (C23): which CPUs a string names.  Strings are sequences of character codes.    *)
(*   "list:" item {"," item}    item: n | n "-" m  (decimal)                                                            *)
(*   ["mask:"] number           decimal, octal (0...) or hexadecimal (0x...), at most 64 bits                           *)
(* Meaning(s): [c |-> class, s |-> set of CPUs]; "good": accepted; "bad": rejected; "any": unspecified, but the CPUs of *)
(* an accepted string are s unless c is "free".                                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Cpus          \* CPUs of a list up to here have to be supported
Dig(c) == c \in 48..57
Cut(s, n) == SubSeq(s, n + 1, Len(s))
IsPre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LIST == <<108, 105, 115, 116, 58>>
MASK == <<109, 97, 115, 107, 58>>

RECURSIVE Split(_, _)
Split(s, c) == LET k == {i \in 1..Len(s) : s[i] = c}
               IN IF k = {} THEN <<s>>
                  ELSE LET m == CHOOSE i \in k : \A j \in k : i <= j IN <<SubSeq(s, 1, m - 1)>> \o Split(Cut(s, m), c)
Digits(s) == s # << >> /\ \A i \in 1..Len(s) : Dig(s[i])
RECURSIVE Dec(_, _, _)
\* a decimal number, everything too large is 100000
Dec(s, i, v) == IF i > Len(s) THEN v ELSE Dec(s, i + 1, IF v >= 10000 THEN 100000 ELSE v * 10 + s[i] - 48)
Num(s) == Dec(s, 1, 0)

GoodItem(x) == LET p == Split(x, 45) IN Len(p) \in 1..2 /\ \A i \in 1..Len(p) : Digits(p[i]) 
Lo(x) == Num(Split(x, 45)[1])
Hi(x) == LET p == Split(x, 45) IN Num(p[Len(p)])
\* leading zeros do not count
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Cut(s, 1)) ELSE s
LessEq(a, b) == LET x == Strip(a) y == Strip(b) IN
   Len(x) < Len(y) \/ (Len(x) = Len(y) /\ (x = y \/ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]))
Ordered(x) == LET p == Split(x, 45) IN LessEq(p[1], p[Len(p)])
List(s) ==
  LET all == Split(s, 44)
      tail == Len(all) > 1 /\ all[Len(all)] = << >>         \* a comma at the end
      it == IF tail THEN SubSeq(all, 1, Len(all) - 1) ELSE all
      I == 1..Len(it)
  IN IF ~(\A i \in I : GoodItem(it[i]) /\ Ordered(it[i])) THEN [c |-> "bad", s |-> {}]
     ELSE LET big == \E i \in I : Hi(it[i]) >= Cpus
          IN IF \E i \in I : Hi(it[i]) >= 10000 THEN [c |-> "bad", s |-> {}]
             ELSE [c |-> IF big \/ tail THEN "any" ELSE "good", s |-> UNION {Lo(it[i])..Hi(it[i]) : i \in I}]

\* numbers as sequences of 16 bit digits, the lowest first
RECURSIVE MulAdd(_, _, _, _)
MulAdd(n, i, b, c) == IF i > Len(n) THEN << >> ELSE LET v == n[i] * b + c IN <<v % 65536>> \o MulAdd(n, i + 1, b, v \div 65536)
Val(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Big(_, _, _, _)
\* the number, <<1>> at the end if it has more than 64 bits
Big(s, i, b, n) == IF i > Len(s) THEN n
                   ELSE LET m == MulAdd(n, 1, b, Val(s[i])) IN IF m[5] > 0 THEN <<0, 0, 0, 0, 1>> ELSE Big(s, i + 1, b, m)
Pow == [i \in 0..15 |-> 2 ^ i]
Bits(n) == {i \in 0..63 : (n[(i \div 16) + 1] \div Pow[i % 16]) % 2 = 1}
Mask(s) ==
  IF s = << >> THEN [c |-> "bad", s |-> {}]
  ELSE IF s[1] \in {32, 9, 10, 11, 12, 13, 43, 45} \/ (Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {98, 66}) THEN [c |-> "free", s |-> {}]
  ELSE LET hex == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
           b == IF hex THEN 16 ELSE IF s[1] = 48 THEN 8 ELSE 10
           d == IF hex THEN Cut(s, 2) ELSE s
       IN IF \E i \in 1..Len(d) : Val(d[i]) >= b THEN [c |-> "bad", s |-> {}]
          ELSE LET n == Big(d, 1, b, <<0, 0, 0, 0, 0>>)
               IN IF n[5] > 0 THEN [c |-> "bad", s |-> {}]
                  ELSE [c |-> IF Bits(n) = {} THEN "any" ELSE "good", s |-> Bits(n)]
Meaning(s) == IF IsPre(s, LIST) THEN List(Cut(s, 5)) ELSE IF IsPre(s, MASK) THEN Mask(Cut(s, 5)) ELSE Mask(s)
=============================================================================
