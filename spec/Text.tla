------------------------------ MODULE Text ------------------------------
(* What a record looks like as text: numbers, arguments, format strings, data dumps, date and time, headers.         *)
(* Text and data are sequences of byte values; numbers of up to 64 bits are sequences of bytes, lowest first.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, c) == [i \in 1..n |-> c]
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

----------------------------------------------------------------------------
(* Numbers *)
RECURSIVE MulAdd(_, _, _)
MulAdd(ds, m, c) == IF ds = << >> THEN IF c = 0 THEN << >> ELSE <<c % 10>> \o MulAdd(<< >>, m, c \div 10)
                    ELSE LET x == ds[1] * m + c IN <<x % 10>> \o MulAdd(Tail(ds), m, x \div 10)
RECURSIVE DigitsOf(_, _, _)
DigitsOf(b, i, acc) == IF i = 0 THEN acc ELSE DigitsOf(b, i - 1, MulAdd(acc, 256, b[i]))
Chars(ds) == IF ds = << >> THEN <<48>> ELSE [i \in 1..Len(ds) |-> 48 + ds[Len(ds) + 1 - i]]
Dec(b) == Chars(DigitsOf(b, Len(b), << >>))                      \* unsigned
RECURSIVE Inc(_)
Inc(b) == IF b = << >> THEN << >> ELSE IF b[1] = 255 THEN <<0>> \o Inc(Tail(b)) ELSE <<b[1] + 1>> \o Tail(b)
Neg(b) == Inc([i \in 1..Len(b) |-> 255 - b[i]])
IsNeg(b) == b # << >> /\ b[Len(b)] >= 128
SDec(b) == IF IsNeg(b) THEN <<45>> \o Dec(Neg(b)) ELSE Dec(b)    \* signed
RECURSIVE SubB(_, _, _)
SubB(a, b, c) == IF a = << >> THEN << >> ELSE LET x == a[1] - b[1] - c IN <<x % 256>> \o SubB(Tail(a), Tail(b), IF x < 0 THEN 1 ELSE 0)
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
HexD(n, up) == IF n < 10 THEN 48 + n ELSE (IF up THEN 55 ELSE 87) + n
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Hex(b, up) == Strip(Flat([i \in 1..Len(b) |-> LET x == b[Len(b) + 1 - i] IN <<HexD(x \div 16, up), HexD(x % 16, up)>>]))
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Nat10(n \div 10) \o <<48 + (n % 10)>>
PadL(s, w, c) == IF Len(s) >= w THEN s ELSE Rep(w - Len(s), c) \o s
PadR(s, w, c) == IF Len(s) >= w THEN s ELSE s \o Rep(w - Len(s), c)

----------------------------------------------------------------------------
(* Texts of the renderer *)
TNull == <<110,117,108,108>>          \* null
TNil == <<40,110,105,108,41>>         \* (nil)
TRaw1 == <<114,97,119,100,97,116,97,32>>              \* rawdata
TRaw2 == <<32,98,121,116,101,115,32,64,32>>           \* bytes @
TNoX == <<120,100,117,109,112,32,110,111,116,32,115,117,112,112,111,114,116,101,100,32,119,105,116,104,32,102,111,114,109,97,116,32,115,116,114,105,110,103,115>>
TNoR == <<114,97,119,100,97,116,97,32,100,97,116,97,32,110,111,116,32,115,117,112,112,111,114,116,101,100,32,119,105,116,104,32,102,111,114,109,97,116,32,115,116,114,105,110,103,115>>
No == [ok |-> FALSE, s |-> << >>]     \* the specification does not say
Yes(s) == [ok |-> TRUE, s |-> s]
Then(a, b) == IF a.ok /\ b.ok THEN Yes(a.s \o b.s) ELSE No

RECURSIVE CStr(_, _)
CStr(d, i) == IF i > Len(d) \/ d[i] = 0 THEN SubSeq(d, 1, i - 1) ELSE CStr(d, i + 1)

(* a multiple k of 1/64 with p digits after the point *)
Dyadic(k, p) ==
  LET n == IF k < 0 THEN -k ELSE k
      f == PadL(Nat10((n % 64) * 15625), 6, 48)
  IN IF p > 6 \/ \E i \in (p + 1)..6 : f[i] # 48 THEN No
     ELSE Yes((IF k < 0 THEN <<45>> ELSE << >>) \o Nat10(n \div 64) \o (IF p = 0 THEN << >> ELSE <<46>> \o SubSeq(f, 1, p)))
NoK == 1000000000

(* an argument: t its type, v its value (bytes), d its data, k the double as a multiple of 1/64, a where raw data is *)
Pointer(v) == IF IsZero(v) THEN TNil ELSE <<48, 120>> \o Hex(v, FALSE)
StrArg(a) == IF a.t = "cstr" /\ a.d = << >> THEN TNull ELSE CStr(a.d, 1)

(* data dumps: d[1] the conversion, d[2] width of a value and precision, d[3] values per line, d[4] delimiter *)
Val(d, i, w) == SubSeq(d, (i - 1) * w + 1, i * w)
DumpVal(conv, b) == IF conv = 120 THEN Hex(b, FALSE) ELSE IF conv = 100 THEN SDec(b) ELSE Dec(b)
RECURSIVE Dump(_, _, _, _, _, _)
Dump(conv, d, w, n, lw, i) ==
  IF i > n THEN << >>
  ELSE (IF lw # 0 /\ (i - 1) % lw = 0 THEN <<10, 9>> ELSE IF i = 1 THEN << >> ELSE <<0>>) \o DumpVal(conv, Val(d, i, w)) \o Dump(conv, d, w, n, lw, i + 1)
Delims(s, c) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN c ELSE s[i]]
RECURSIVE HexDump(_, _, _)
HexDump(d, lw, off) ==
  IF off >= Len(d) THEN << >>
  ELSE LET row == [i \in 1..lw |-> IF off + i <= Len(d) THEN <<HexD(d[off + i] \div 16, FALSE), HexD(d[off + i] % 16, FALSE), 32>> ELSE <<32, 32, 32>>]
           m == IF Len(d) - off < lw THEN Len(d) - off ELSE lw
           asc == [i \in 1..m |-> IF d[off + i] \in 32..126 THEN d[off + i] ELSE 46]
       IN <<10, 9>> \o PadL(Nat10(off), 3, 48) \o <<58, 32>> \o Flat(row) \o <<32, 32>> \o asc \o HexDump(d, lw, off + lw)
XDump(d) ==
  IF Len(d) < 4 THEN No
  ELSE LET conv == d[1] w == d[2] % 16 lw == d[3] body == From(d, 5) IN
       IF conv = 72 /\ w = 1 THEN Yes(HexDump(body, IF lw = 0 THEN Len(body) ELSE lw, 0))
       ELSE IF conv \in {100, 117, 120} /\ w \in {1, 2, 4, 8} THEN Yes(Delims(Dump(conv, body, w, Len(body) \div w, lw, 1), d[4]))
       ELSE No

Plain1(a) ==
  CASE a.t \in {"cstr", "gstr"} -> Yes(StrArg(a))
    [] a.t = "ptr" -> Yes(Pointer(a.v))
    [] a.t \in {"i32", "i64"} -> Yes(SDec(a.v))
    [] a.t \in {"u32", "u64"} -> Yes(Dec(a.v))
    [] a.t = "dbl" -> (IF a.k = NoK THEN No ELSE Dyadic(a.k, 6))
    [] a.t = "xdump" -> XDump(a.d)
    [] a.t = "raw" -> Yes(TRaw1 \o Nat10(Len(a.d)) \o TRaw2 \o Pointer(a.a))
RECURSIVE Plain(_, _)
Plain(as, i) == IF i > Len(as) THEN Yes(<<10>>)
                ELSE Then(IF i > 1 THEN Yes(<<32>>) ELSE Yes(<< >>), Then(Plain1(as[i]), Plain(as, i + 1)))

(* format strings: the part of printf the specification defines, No elsewhere *)
RECURSIVE Skip(_, _, _)
Skip(f, i, set) == IF i <= Len(f) /\ f[i] \in set THEN Skip(f, i + 1, set) ELSE i
RECURSIVE NumOf(_, _, _)
NumOf(f, i, j) == IF j <= i THEN 0 ELSE NumOf(f, i, j - 1) * 10 + f[j - 1] - 48
Digit == 48..57
FmtArg(a, conv, prec) ==
  CASE conv \in {100, 105} /\ a.t \in {"i32", "i64"} /\ prec < 0 -> Yes(SDec(a.v))
    [] conv = 117 /\ a.t \in {"u32", "u64"} /\ prec < 0 -> Yes(Dec(a.v))
    [] conv = 120 /\ a.t \in {"u32", "u64"} /\ prec < 0 -> Yes(Hex(a.v, FALSE))
    [] conv = 88 /\ a.t \in {"u32", "u64"} /\ prec < 0 -> Yes(Hex(a.v, TRUE))
    [] conv = 115 /\ a.t \in {"cstr", "gstr"} /\ prec < 0 -> Yes(StrArg(a))
    [] conv = 115 /\ a.t = "xdump" /\ prec < 0 -> Yes(TNoX)
    [] conv = 115 /\ a.t = "raw" /\ prec < 0 -> Yes(TNoR)
    [] conv = 112 /\ a.t = "ptr" /\ prec < 0 -> Yes(Pointer(a.v))
    [] conv = 102 /\ a.t = "dbl" /\ a.k # NoK -> Dyadic(a.k, IF prec < 0 THEN 6 ELSE prec)
    [] OTHER -> No
FmtField(s, fl, w, conv) ==
  IF \E i \in 1..Len(fl) : fl[i] = 45 THEN PadR(s, w, 32)
  ELSE IF fl # << >> /\ conv \notin {115, 112} THEN (IF s # << >> /\ s[1] = 45 THEN <<45>> \o PadL(Tail(s), w - 1, 48) ELSE PadL(s, w, 48))
  ELSE PadL(s, w, 32)
RECURSIVE Format(_, _, _, _)
Format(f, i, as, k) ==
  IF i > Len(f) THEN Yes(<<10>>)
  ELSE IF f[i] # 37 THEN LET j == Skip(f, i, (0..255) \ {37}) IN Then(Yes(SubSeq(f, i, j - 1)), Format(f, j, as, k))
  ELSE IF i < Len(f) /\ f[i + 1] = 37 THEN Then(Yes(<<37>>), Format(f, i + 2, as, k))
  ELSE LET i1 == Skip(f, i + 1, {45, 48})
           i2 == Skip(f, i1, Digit)
           dot == i2 <= Len(f) /\ f[i2] = 46
           i3 == IF dot THEN Skip(f, i2 + 1, Digit) ELSE i2
           i4 == Skip(f, i3, {108})
           ok == i4 <= Len(f) /\ i1 - i - 1 <= 1 /\ i4 - i3 <= 2 /\ i2 - i1 <= 2 /\ i3 - i2 <= 2 /\ (dot => i3 > i2 + 1) /\ k <= Len(as)
       IN IF ~ok THEN No
          ELSE LET r == FmtArg(as[k], f[i4], IF dot THEN NumOf(f, i2 + 1, i3) ELSE -1)
                   fl == SubSeq(f, i + 1, i1 - 1)
               IN IF ~r.ok \/ (fl = <<48>> /\ f[i4] \in {115, 112}) THEN No ELSE Then(Yes(FmtField(r.s, fl, NumOf(f, i1, i2), f[i4])), Format(f, i4 + 1, as, k + 1))

(* the text after the header *)
Body(as) ==
  IF as # << >> /\ as[1].t = "raw" THEN Then(Plain1(as[1]), Yes(<<10>>))
  ELSE IF Len(as) > 1 /\ as[1].t \in {"cstr", "gstr"} /\ as[2].t \notin {"xdump", "raw"} THEN Format(StrArg(as[1]), 1, as, 2)
  ELSE Plain(as, 1)

----------------------------------------------------------------------------
(* Date and time of a timestamp in nanoseconds, with the local time zone `tz` minutes east *)
SecDigits(ts) == LET d == DigitsOf(ts, Len(ts), << >>) IN IF Len(d) <= 9 THEN << >> ELSE From(d, 10)       \* lowest first
NsecText(ts) == LET d == DigitsOf(ts, Len(ts), << >>) IN PadL(Chars(IF Len(d) <= 9 THEN d ELSE SubSeq(d, 1, 9)), 9, 48)
TimeSpec(ts) == PadL(Chars(SecDigits(ts)), 11, 48) \o <<46>> \o (LET n == NsecText(ts) IN SubSeq(n, Len(n) - 8, Len(n)))
RECURSIVE DivMod(_, _, _, _)
DivMod(ds, i, q, r) == IF i = 0 THEN <<q, r>> ELSE LET x == r * 10 + ds[i] IN DivMod(ds, i - 1, q * 10 + x \div 86400, x % 86400)
Civil(z0) ==   \* days since 1970 -> <<year, month, day>>
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
N2(n) == PadL(Nat10(n), 2, 48)
DateTime(ts, tz) ==
  LET sd == SecDigits(ts)
      qr == DivMod(sd, Len(sd), 0, 0)
      s == qr[2] + tz * 60
      day == qr[1] + (IF s < 0 THEN -1 ELSE IF s >= 86400 THEN 1 ELSE 0)
      t == s % 86400
      c == Civil(day)
      n == NsecText(ts)
  IN N2(c[2]) \o N2(c[3]) \o PadL(Nat10(c[1]), 4, 48) \o <<32>> \o N2(t \div 3600) \o <<58>> \o N2((t \div 60) % 60) \o <<58>> \o N2(t % 60)
     \o <<46>> \o SubSeq(n, Len(n) - 8, Len(n))
Delta(ts, prev) == IF IsZero(prev) THEN <<48>> ELSE Dec(SubB(ts, prev, 0))

(* the header: f the set of fields, r the record (ring, area, sect as text, ts, seq), prev the timestamp of the one before *)
Header(f, r, prev, tz) ==
  (IF "timespec" \in f THEN TimeSpec(r.ts) \o <<32>> ELSE << >>)
  \o (IF "timestamp" \in f THEN DateTime(r.ts, tz) \o <<32>> ELSE << >>)
  \o (IF "timedelta" \in f THEN <<40>> \o Delta(r.ts, prev) \o <<41, 32>> ELSE << >>)
  \o (IF "ring" \in f THEN r.ring \o (IF "seqnum" \in f THEN <<58>> ELSE << >>) ELSE << >>)
  \o (IF "seqnum" \in f THEN Dec(r.seq) ELSE << >>)
  \o (IF f \cap {"ring", "seqnum"} # {} THEN <<32>> ELSE << >>)
  \o (IF "area" \in f THEN r.area \o (IF "section" \in f THEN <<58>> ELSE << >>) ELSE << >>)
  \o (IF "section" \in f THEN r.sect ELSE << >>)
  \o (IF f \cap {"area", "section"} # {} THEN <<32>> ELSE << >>)
=============================================================================
