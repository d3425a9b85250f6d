------------------------------ MODULE RawCodec ------------------------------
(* Specification of reading raw logs (C20): which bytes are a record, and which parts of a file the reader shows.      *)
(* A file is a sequence of byte values.                                                                                *)
EXTENDS Naturals, Sequences, FiniteSets

(* how a record is written: 8 bytes of time, 8 of the sequence number, three names, 4 bits for the type of every argument, *)
(* the arguments; v1: the older version                                                                                     *)
Types == [u32 |-> 1, i32 |-> 2, u64 |-> 3, i64 |-> 4, ptr |-> 5, dbl |-> 6, cstr |-> 7, gstr |-> 8, xdump |-> 9, raw |-> 10]
Sz(n, w) == [i \in 1..w |-> (CASE i = 1 -> n % 256 [] i = 2 -> (n \div 256) % 256 [] i = 3 -> (n \div 65536) % 256 [] i = 4 -> n \div 16777216)]
Nm(s) == Sz(Len(s), 1) \o s
EncArg(a, v1) == IF a.t \in {"cstr", "gstr"} THEN Sz(Len(a.d), 2) \o a.d
                 ELSE IF a.t \in {"raw", "xdump"} THEN Sz(Len(a.d), IF v1 THEN 2 ELSE 4) \o a.d
                 ELSE a.v
RECURSIVE EncArgs(_, _, _)
EncArgs(as, i, v1) == IF i > Len(as) THEN << >> ELSE EncArg(as[i], v1) \o EncArgs(as, i + 1, v1)
EncTypes(as) == LET ty(i) == IF i > Len(as) THEN 0 ELSE Types[as[i].t] IN [i \in 1..8 |-> ty(2 * i - 1) + (16 * ty(2 * i))]
Encode(ts, sq, ring, area, sect, as, v1) == ts \o sq \o Nm(ring) \o Nm(area) \o Nm(sect) \o EncTypes(as) \o EncArgs(as, 1, v1)

U(b, o, n) == IF n = 1 THEN b[o + 1] ELSE b[o + 1] + 256 * b[o + 2]
Fail(k) == [k |-> k, at |-> 0]
Ok(o) == [k |-> "ok", at |-> o]
RECURSIVE CLen(_, _, _)
CLen(b, o, e) == IF o = e \/ b[o + 1] = 0 THEN 0 ELSE 1 + CLen(b, o + 1, e)
Printable(b, o, n) == \A i \in 1..n : b[o + i] \in 32..126

(* a name: 2 to 128 printable characters *)
Name(b, r) ==
  IF r.k # "ok" THEN r
  ELSE LET o == r.at IN
       IF o + 1 > Len(b) THEN Fail("input")
       ELSE LET l == b[o + 1] IN
            IF o + 1 + l > Len(b) THEN Fail("input")
            ELSE LET n == CLen(b, o + 1, o + 1 + l) IN
                 IF n < 2 \/ n > 128 \/ ~Printable(b, o + 1, n) THEN Fail("format") ELSE Ok(o + 1 + l)

Nibble(b, o, i) == LET x == b[o + 1 + (i \div 2)] IN IF i % 2 = 0 THEN x % 16 ELSE x \div 16
(* arguments i..15 of the record whose types are at t; used: bytes of the record in use; max: its size *)
RECURSIVE ArgsAt(_, _, _, _, _, _)
ArgsAt(b, t, i, o, used, max) ==
  IF i = 16 \/ Nibble(b, t, i) = 0 THEN Ok(o)
  ELSE LET ty == Nibble(b, t, i) IN
       IF ty \in {1, 2} THEN (IF o + 4 > Len(b) THEN Fail("input") ELSE ArgsAt(b, t, i + 1, o + 4, used, max))
       ELSE IF ty \in {7, 8, 9, 10} THEN
         LET w == IF ty \in {7, 8} THEN 2 ELSE 4
             z == IF ty \in {7, 8} THEN 1 ELSE 0 IN
         IF o + w > Len(b) THEN Fail("input")
         ELSE LET big == w = 4 /\ (b[o + 4] # 0)
                  l == b[o + 1] + 256 * b[o + 2] + (IF w = 4 THEN 65536 * b[o + 3] ELSE 0) IN
              IF big \/ used + l + z > max THEN Fail("format")
              ELSE IF o + w + l > Len(b) THEN Fail("input")
              ELSE ArgsAt(b, t, i + 1, o + w + l, used + l + z, max)
       ELSE IF o + 8 > Len(b) THEN Fail("input") ELSE ArgsAt(b, t, i + 1, o + 8, used, max)

(* the record at offset o: ok and where it ends, or why there is none *)
Parse(b, o, max) ==
  IF o + 8 > Len(b) THEN Fail("end")
  ELSE IF o + 16 > Len(b) THEN Fail("input")
  ELSE LET r == Name(b, Name(b, Name(b, Ok(o + 16)))) IN
       IF r.k # "ok" THEN r
       ELSE IF r.at + 8 > Len(b) THEN Fail("input")
       ELSE ArgsAt(b, r.at, 0, r.at + 8, 160, max)

(* the offsets of the records read from o on, and why reading ended *)
RECURSIVE Chain(_, _, _, _)
Chain(b, o, max, acc) == LET r == Parse(b, o, max) IN IF r.k = "ok" THEN Chain(b, r.at, max, Append(acc, o)) ELSE [at |-> acc, k |-> r.k]

(* the reader starts over one byte further on until it finds enough records or the end: all its chains *)
RECURSIVE Chains(_, _, _, _)
Chains(b, o, min, max) ==
  LET c == Chain(b, o, max, << >>)
      done == c.k # "format" \/ (min > 0 /\ Len(c.at) >= min)
  IN IF done \/ o >= max THEN <<c>> ELSE <<c>> \o Chains(b, o + 1, min, max)
Shown(b, min, max) == LET s == Chains(b, 0, min, max) IN s
=============================================================================
