------------------------------ MODULE OutFile ------------------------------
(* Specification of the rotating file output (C15-C18): a deterministic machine over what is visible from outside:  *)
(* calls and returns, and every change of the directory (file contents as sequences of tokens, links).  Names are   *)
(* sequences of characters, so that the naming rule itself is part of the specification.                            *)
(* OutStep(s, e) is the state after event e; events that a property forbids are collected in s.bad.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == << "-" >>
Digits == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
             CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
               [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
DigitOf == << "0","1","2","3","4","5","6","7","8","9" >>

(* ------------------------------------------------------------------ naming rule *)
RECURSIVE Pos(_, _, _)
Pos(n, c, k) == IF k > Len(n) THEN 0 ELSE IF n[k] = c THEN k ELSE Pos(n, c, k + 1)

RECURSIVE Width(_, _, _)
Width(count, step, w) == IF step < count THEN Width(count, step * 10, w + 1) ELSE w

(* prefix, suffix, link and width of a name given by the user *)
Naming(n, count) ==
  LET h == Pos(n, "#", 1)
      pre == IF h = 0 THEN n \o << "." >> ELSE SubSeq(n, 1, h - 1)
      suf == IF h = 0 THEN << >> ELSE SubSeq(n, h + 1, Len(n))
      dup == h > 1 /\ h < Len(n) /\ n[h - 1] = n[h + 1]
  IN [ pre |-> pre, suf |-> suf, w |-> Width(count, 10, 1),
       lnk |-> IF h = 0 THEN n ELSE SubSeq(pre, 1, Len(pre) - (IF dup THEN 1 ELSE 0)) \o suf ]

RECURSIVE Dec(_)
Dec(i) == IF i < 10 THEN << DigitOf[i + 1] >> ELSE Dec(i \div 10) \o << DigitOf[(i % 10) + 1] >>
Zeros(k) == [i \in 1..k |-> "0"]
Pad(i, w) == LET d == Dec(i) IN IF Len(d) < w THEN Zeros(w - Len(d)) \o d ELSE d
Chunk(nam, i) == nam.pre \o Pad(i, nam.w) \o nam.suf

RECURSIVE Val(_, _, _)
Val(d, k, v) == IF k > Len(d) THEN v ELSE IF v > 100000 THEN v ELSE Val(d, k + 1, v * 10 + Digits[d[k]])

(* index of the chunk a link leads to, -1 if it is not one of this name *)
IndexOf(nam, to) ==
  LET p == Len(nam.pre) q == Len(nam.suf) m == Len(to) - p - q
  IN IF m < 1 THEN -1
     ELSE IF SubSeq(to, 1, p) # nam.pre \/ SubSeq(to, Len(to) - q + 1, Len(to)) # nam.suf THEN -1
     ELSE LET d == SubSeq(to, p + 1, p + m)
          IN IF \E k \in 1..m : d[k] \notin DOMAIN Digits THEN -1 ELSE Val(d, 1, 0)

(* ------------------------------------------------------------------ state *)
Nam0 == [ pre |-> << >>, suf |-> << >>, w |-> 1, lnk |-> << >> ]
Out0 == [ l |-> 0, bad |-> {}, file |-> << >>, link |-> << >>,      \* functions of names
          up |-> "no", nam |-> Nam0, idx |-> 0, count |-> 2, max |-> 1,
          g |-> 0, cur |-> None, prev |-> None, pf |-> TRUE, pend |-> None, pnam |-> Nam0, pidx |-> 0, pvia |-> "",
          rq |-> Nam0, og |-> Nam0, ogdone |-> FALSE, mq |-> FALSE, rqf |-> FALSE, pfail |-> FALSE, gq |-> 0,
          nx |-> << 1, 1 >>, iss |-> << 0, 0 >>, gd |-> 0, gs |-> 0, pub |-> {}, fault |-> FALSE, efault |-> FALSE ]

Flag(s, c, p, why) == IF c \/ Cardinality(s.bad) > 12 THEN s ELSE [s EXCEPT !.bad = @ \cup {<<p, why, s.l>>}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
File(s, n) == IF n \in DOMAIN s.file THEN s.file[n] ELSE [tok |-> << >>, part |-> FALSE]
Complete(s, n) == n \in DOMAIN s.file /\ Len(s.file[n].tok) > 0 /\ s.file[n].tok[1][1] = "H"
LinkTo(s, n) == IF n \in DOMAIN s.link THEN s.link[n] ELSE None

(* index an output of this name starts with *)
Start(s, nam) ==
  LET i == IF nam.lnk \in DOMAIN s.link THEN IndexOf(nam, s.link[nam.lnk]) ELSE -1
  IN IF i < 0 \/ i >= s.count THEN 0 ELSE (i + 1) % s.count

(* ------------------------------------------------------------------ chunks *)
(* what may be created now: [n, nam, idx, via] *)
Cand(s) ==
  LET st(r, via) == LET i == Start(s, r) IN [n |-> Chunk(r, i), nam |-> r, idx |-> i, via |-> via]
      nxt == LET i == (s.idx + 1) % s.count IN [n |-> Chunk(s.nam, i), nam |-> s.nam, idx |-> i, via |-> "size"]
  IN IF s.g = 0 THEN { st(s.nam, "first") }
     ELSE (IF s.rq = Nam0 THEN { nxt } ELSE { st(s.rq, "rq") })
          \cup (IF s.og = Nam0 THEN {} ELSE { st(s.og, "og") })

Create(s, n) ==
  LET c == { x \in Cand(s) : x.n = n }
      full == s.g > 0 /\ s.gs >= s.max
      s1 == Flag(s, s.up # "no", "C15", "a chunk is opened while the output is not in use")
      s2 == Flag(s1, c # {}, "C18", "a chunk does not have the name that the naming rule gives")
      s3 == Flag(s2, n # s.cur, "C15", "the chunk being written is truncated")
      s4 == Flag(s3, n # s.prev \/ s.pf, "C15", "the previous chunk is truncated before its footer")
      s5 == Flag(s4, s.g = 0 \/ full \/ s.rq # Nam0 \/ s.og # Nam0 \/ s.mq, "C15", "rotation before the size limit is reached")
      x == IF c = {} THEN [n |-> n, nam |-> s.nam, idx |-> s.idx, via |-> "size"] ELSE CHOOSE y \in c : TRUE
      via == IF Cardinality(c) < 2 THEN (IF x.via = "og" /\ s.pfail THEN "amb" ELSE x.via) ELSE IF s.rq = Nam0 /\ ~full /\ ~s.mq THEN "og" ELSE "amb"
      taken == via \in {"og", "amb"}     \* the switch whose call is still going on is (or may be) served by this rotation
  IN [s5 EXCEPT !.pend = n, !.pnam = x.nam, !.pidx = x.idx, !.pvia = via, !.pfail = FALSE,
                !.rq = IF taken THEN s.og ELSE @, !.ogdone = @ \/ taken]

(* the new chunk has its header: it is the current one *)
Promote(s) ==
  [s EXCEPT !.prev = s.cur, !.cur = s.pend, !.pf = (s.g = 0), !.g = @ + 1, !.nam = s.pnam, !.idx = s.pidx, !.pend = None,
            !.gd = 0, !.rq = IF s.pvia \in {"rq", "og", "amb"} THEN Nam0 ELSE @, !.mq = s.pvia = "amb", !.rqf = FALSE]

Tok(s, n, x) ==
  CASE x[1] = "H" ->
         IF n = s.pend /\ Len(File(s, n).tok) = 1
         THEN LET s1 == Flag(s, x[2] = n, "C15", "a header names another chunk")
                  s2 == Flag(s1, (x[3] = 1) = (s.g = 0), "C15", "a header is wrongly marked as the first")
              IN [Promote(s2) EXCEPT !.gs = x[4]]
         ELSE Flag(s, FALSE, "C15", "a header in the middle of a chunk")
    [] x[1] = "D" ->
         IF n \notin {s.cur, s.prev} \/ (n = s.prev /\ s.prev # s.cur /\ s.pf) \/ (n = s.cur /\ s.up = "no")
         THEN Flag(s, FALSE, "C15", "data outside of the chunk being written")
         ELSE LET s1 == Flag(s, n = s.cur \/ s.gd = 0, "C15", "data arrives in the previous chunk after the new one has some")
                  t == x[2]
                  s2 == Flag(s1, t \in 1..2 /\ x[3] = s.nx[t] /\ x[3] <= s.iss[t], "C15", "data is lost, duplicated or reordered")
                  s3 == IF t \in 1..2 /\ x[3] >= s.nx[t] THEN [s2 EXCEPT !.nx[t] = x[3] + 1] ELSE s2
              IN IF n = s.cur THEN [s3 EXCEPT !.gd = @ + x[4], !.gs = @ + x[4]] ELSE s3
    [] x[1] = "F" ->
         IF n = s.prev /\ ~s.pf THEN [Flag(s, x[2] = s.cur, "C15", "a footer does not name the next chunk") EXCEPT !.pf = TRUE]
         ELSE IF n = s.cur /\ s.up = "dtor" /\ x[2] = << >> THEN s
         ELSE Flag(s, FALSE, "C15", "a footer where none is due")
    [] OTHER -> Flag(s, FALSE, "C15", "a write is split or garbled")

RECURSIVE Toks(_, _, _, _)
Toks(s, n, add, k) ==
  IF k > Len(add) THEN s
  ELSE LET old == File(s, n)
           s1 == Flag(s, old.tok = << >> \/ old.tok[Len(old.tok)][1] # "F", "C15", "something follows the footer of a chunk")
           s2 == [s1 EXCEPT !.file = Put(@, n, [tok |-> Append(old.tok, add[k]), part |-> FALSE])]
       IN Toks(Tok(s2, n, add[k]), n, add, k + 1)

EvFile(s, e) ==
  LET known == e.n \in DOMAIN s.file
      old == File(s, e.n)
      cut == ~known \/ e.keep < Len(old.tok) \/ (old.tok = << >> /\ e.add # << >> /\ e.n # s.pend)
      add == IF cut /\ known THEN SubSeq(old.tok, 1, e.keep) \o e.add ELSE e.add
  IN IF s.up = "no" /\ s.g = 0 /\ s.iss = << 0, 0 >> /\ e.gone = 0
     THEN [s EXCEPT !.file = Put(@, e.n, [tok |-> e.add, part |-> e.part = 1])]      \* left behind by others
     ELSE IF e.gone = 1 THEN [Flag(s, FALSE, "C15", "a chunk is removed") EXCEPT !.file = Del(@, e.n)]
     ELSE LET s1 == IF (cut /\ ~(e.n = s.pend /\ old.tok = << >>)) \/ (e.n = s.pend /\ s.pfail /\ e.add # << >>) THEN Create(s, e.n) ELSE s
              s2 == IF cut THEN [s1 EXCEPT !.file = Put(@, e.n, [tok |-> << >>, part |-> FALSE])] ELSE s1
              s3 == Toks(s2, e.n, add, 1)
          IN [s3 EXCEPT !.file[e.n].part = e.part = 1]

EvLink(s, e) ==
  LET s1 == [s EXCEPT !.link = IF e.gone = 1 THEN Del(@, e.n) ELSE Put(@, e.n, e.to)]
  IN IF e.n = s.nam.lnk /\ e.gone = 0 /\ s.g > 0 /\ e.to = s.cur THEN [s1 EXCEPT !.pub = @ \cup {e.n}] ELSE s1

(* every published link leads to a chunk with a complete header, at every instant *)
Links(s) ==
  LET b == { n \in s.pub : ~(n \in DOMAIN s.link) }
      d == { n \in s.pub : n \in DOMAIN s.link /\ ~Complete(s, s.link[n]) }
  IN Flag(Flag(s, b = {}, "C16", "the link does not exist"), d = {}, "C16", "the link does not lead to a chunk with a header")

(* nothing is going on: the state must be settled *)
Settled(s) ==
  LET s1 == Flag(s, LinkTo(s, s.nam.lnk) = s.cur, "C16", "the link does not lead to the chunk being written")
      s2 == Flag(s1, s.g = 1 \/ s.pf, "C15", "a completed chunk has no footer")
      s3 == Flag(s2, s.pend = None \/ s.efault, "C17", "a rotation is not completed")
      s4 == Flag(s3, ~File(s, s.cur).part, "C15", "part of a write is missing")
  IN s4
Present(s, t, k) == Flag(s, s.nx[t] > k, "C15", "accepted data is not in any chunk")

(* ------------------------------------------------------------------ events *)
OutStep0(s, e) ==
  CASE e.e = "f" -> Links(EvFile(s, e))
    [] e.e = "l" -> Links(EvLink(s, e))
    [] e.e = "ctor" ->
         [s EXCEPT !.up = "ctor", !.nam = Naming(e.name, e.count), !.count = e.count, !.max = e.max, !.g = 0, !.cur = None, !.prev = None,
                   !.pf = TRUE, !.pend = None, !.rq = Nam0, !.og = Nam0, !.ogdone = FALSE, !.mq = FALSE, !.rqf = FALSE, !.nx = << 1, 1 >>,
                   !.iss = << 0, 0 >>, !.gd = 0, !.gs = 0, !.efault = FALSE]
    [] e.e = "ctorret" ->
         IF e.ok = 1
         THEN LET s1 == Flag(s, s.g >= 1, "C15", "the output starts without a chunk with a header")
                  s2 == Flag(s1, s.nam.lnk \in s.pub /\ LinkTo(s, s.nam.lnk) \in {s.cur, s.prev}, "C16", "the link does not lead to the new chunk when the output is constructed")
                  s3 == Flag(s2, e.nm = s.nam.lnk, "C18", "the output has another name")
              IN [s3 EXCEPT !.up = "up"]
         ELSE [Flag(s, s.efault, "C17", "construction fails") EXCEPT !.up = "no", !.iss = << 0, 1 >>]
    [] e.e = "sw" -> [s EXCEPT !.og = Naming(e.name, s.count), !.ogdone = FALSE, !.rqf = FALSE]
    [] e.e = "swret" ->
         IF s.ogdone THEN [s EXCEPT !.og = Nam0]
         ELSE [s EXCEPT !.rq = s.og, !.og = Nam0]
    [] e.e = "d" -> [s EXCEPT !.iss[e.t] = e.k]
    [] e.e = "dret" -> Present(Flag(s, e.ok = 1, "C15", "a write is not accepted"), e.t, e.k)
    [] e.e = "fl" -> Present(s, 1, s.iss[1])
    [] e.e = "quiet" -> [s EXCEPT !.fault = FALSE, !.gq = s.g]
    [] e.e = "idle" ->      \* four writes of 14 bytes since "quiet", with time to rotate after each; one may coincide with a wakeup of the helper
         IF s.fault THEN s
         ELSE LET s1 == Flag(s, s.rq = Nam0 \/ s.rqf, "C17", "a name switch does not take effect")
                  s2 == Flag(s1, s.g > s.gq \/ s.gd < s.max + 42, "C17", "a rotation that is due does not happen")
                  s3 == Flag(s2, e.ix = s.idx \/ s.rqf, "C18", "the output reports another index")
              IN Settled(s3)
    [] e.e = "dtor" ->
         [Flag(s, e.nm = (IF s.rq # Nam0 THEN s.rq.lnk ELSE s.nam.lnk), "C18", "the output has another name") EXCEPT !.up = "dtor"]
    [] e.e = "dtorret" ->
         LET t == File(s, s.cur).tok
             s1 == Settled(Present(Present(s, 1, s.iss[1]), 2, s.iss[2]))
             s2 == Flag(s1, t # << >> /\ t[Len(t)][1] = "F" /\ t[Len(t)][2] = << >>, "C17", "the last chunk has no footer")
         IN [s2 EXCEPT !.up = "no", !.iss = << 0, 1 >>]
    [] e.e = "fault" -> [s EXCEPT !.pfail = @ \/ e.k = "hdr", !.fault = @ \/ e.k \in {"open", "hdr"}, !.efault = @ \/ e.k \in {"open", "hdr"},
                                  !.rqf = @ \/ (e.k \in {"open", "hdr"} /\ (s.rq # Nam0 \/ s.og # Nam0))]   \* retried when the size limit is reached
    [] e.e = "hang" -> Flag(s, FALSE, "C17", "an operation does not terminate")
    [] e.e = "mem" -> Flag(s, FALSE, "*", "invalid access to memory: " \o e.what)
    [] e.e = "crash" -> Flag(s, FALSE, "*", "crash")
    [] OTHER -> Flag(s, FALSE, "SPEC", "unknown event")

OutStep(s, e) == OutStep0([s EXCEPT !.l = @ + 1], e)
=============================================================================
