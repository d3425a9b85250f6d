------------------------------ MODULE HoglMon ------------------------------
(* The abstract specification of hogl's logging core: rings, the engine that polls them, thread rings, time      *)
(* sources, start and stop.  It is a deterministic state machine over observable events; Step(s, e) is the state   *)
(* after event e.  An event that a property forbids adds <<property, reason, position>> to s.bad; the system       *)
(* satisfies the properties iff s.bad stays empty.  The same machine is driven                                     *)
(*   - by the design specification Engine.tla, whose every interleaving TLC explores (INVARIANT bad = {}), and     *)
(*   - by event sequences recorded from the real code (MonTrace.tla).                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS NT       \* highest thread number

SetMax(a, b) == IF a > b THEN a ELSE b
Big == 2000000000

(* ------------------------------------------------------------------ state *)
Thr0 == [ o |-> "", r |-> 0, id |-> 0, sec |-> 0, ar |-> "", to |-> 0, arg |-> 0, nm |-> "", i0 |-> 0,
          sl |-> 0, sr |-> 0, sq |-> 0, sts |-> 0, full |-> FALSE, alw |-> {}, alw0 |-> {}, pre |-> FALSE,   \* record being written
          need |-> 0, tidx |-> 0,                                               \* flush progress
          conc |-> FALSE, opt |-> <<>>,
          stack |-> <<>>, fr |-> 0 ]

Mon0 == [ l |-> 0, bad |-> {}, ring |-> <<>>, th |-> TLCEval([t \in 1..NT |-> Thr0]),
          run |-> FALSE, tso |-> TRUE, cap |-> 0,
          np |-> 0, lp |-> 0, clean |-> FALSE, fullseen |-> FALSE, newmin |-> Big,
          nem |-> 0, sunk |-> 0, pnem |-> 0, gaps |-> 0, mkr |-> 0,
          cur |-> 1, old |-> 1, settled |-> TRUE, swt |-> 0, isrc |-> 1 ]

Ring0(e, l) ==
  [ name |-> e.name, cap |-> e.cap, blk |-> e.blk, shr |-> e.shr, reu |-> e.reu, imm |-> e.imm,
    q |-> <<>>, em |-> 0, base |-> 0, lastc |-> -1, nseq |-> 0, exp |-> 0, mk |-> FALSE, eu |-> 0, mx |-> 0,
    n1 |-> 0, n2 |-> 0, idx |-> FALSE, reg |-> FALSE, regAt |-> 0,
    own |-> 0, ownA |-> 0, ownSince |-> 0, busyAt |-> 0, disc |-> l, freed |-> FALSE, freedAt |-> Big, src |-> {} , tx |-> 0, stopn |-> 0 ]

Flag(s, c, p, why) == IF c \/ Cardinality(s.bad) > 12 THEN s ELSE [s EXCEPT !.bad = @ \cup {<<p, why, s.l>>}]

Rings(s) == DOMAIN s.ring
RegOps == {"add", "find", "list", "tnew", "start"}

(* First item of a ring that must be emitted visibly: skips flush requests, which are processed silently.          *)
(* Result: k = its position (Len+1 if none), eu = effective timestamp bound of it, exp, gap = its sequence gap,    *)
(* sg = a silent item had a sequence gap                                                                           *)
(* Smallest timestamp (running maximum within the ring) among the items a+1..b that were not there two passes ago *)
RECURSIVE NewMin(_, _, _, _, _)
NewMin(r, k, b, mx, nm) ==
  IF k > b \/ k > Len(r.q) THEN nm
  ELSE LET m == SetMax(mx, r.q[k].ts)
       IN NewMin(r, k + 1, b, m, IF r.base + k > r.n2 /\ m < nm THEN m ELSE nm)

RECURSIVE Walk(_, _, _, _, _, _)
Walk(q, k, eu, exp, mk, sg) ==
  IF k > Len(q) THEN [k |-> k, eu |-> eu, exp |-> exp, gap |-> 0, sg |-> sg, mk |-> mk]
  ELSE LET x == q[k]
           e == IF eu = 0 THEN x.ts ELSE SetMax(x.ts, eu + 1)
           g == IF mk THEN 0 ELSE x.q - exp
       IN IF x.k = "flush" THEN Walk(q, k + 1, e, x.q + 1, FALSE, sg \/ g # 0)
          ELSE [k |-> k, eu |-> e, exp |-> exp, gap |-> g, sg |-> sg, mk |-> mk]

Next1(r) == Walk(r.q, r.em + 1, r.eu, r.exp, r.mk, FALSE)

(* position (absolute) up to which a ring's records are certainly out, counting trailing flush requests as out *)
OutPos(r) == r.base + Next1(r).k - 1

(* ------------------------------------------------------------------ ring life *)
Own(s, r, d, viaAdd) ==
  IF r = 0 THEN s
  ELSE [s EXCEPT !.ring[r].own = @ + d,
                 !.ring[r].ownA = IF viaAdd THEN @ + d ELSE @,
                 !.ring[r].ownSince = IF s.ring[r].own = 0 /\ d > 0 THEN s.l ELSE @,
                 !.ring[r].busyAt = s.l]

EvRing(s, e) ==
  LET s1 == Flag(s, e.r = Len(s.ring) + 1, "SPEC", "ring numbering")
      s2 == Flag(s1, e.size = 0, "C01", "new ring is not empty")
  IN [s2 EXCEPT !.ring = Append(@, [Ring0(e, s.l) EXCEPT !.src = {s.cur, s.old, s.isrc}])]

Live(s, r) == ~s.ring[r].freed
Sure(s, x, i0) == Live(s, x) /\ s.ring[x].reg /\ s.ring[x].own > 0 /\ s.ring[x].ownSince < i0 /\ s.ring[x].regAt < i0

EvFree(s, e) ==
  LET r == s.ring[e.r]
      s1 == Flag(s, r.own = 0, "C08", "ring freed while in use")
      s2 == Flag(s1, ~r.imm, "C08", "immortal ring freed")
      s3 == Flag(s2, OutPos(r) >= r.base + Len(r.q), "C08", "ring freed with undelivered records")
      s4 == Flag(s3, ~r.freed, "C08", "ring freed twice")
  IN [s4 EXCEPT !.ring[e.r].freed = TRUE, !.ring[e.r].freedAt = s.l, !.ring[e.r].reg = FALSE, !.ring[e.r].idx = FALSE]

(* Names: what add and find may return *)
AddOk(s, h, e) ==
  LET v == e.v
      same == {x \in Rings(s) : s.ring[x].name = h.nm}
      sure == {x \in same : Sure(s, x, h.i0)}
      block == {x \in same : s.ring[x].freedAt >= h.i0 /\ ~s.ring[x].shr
                   /\ (~s.ring[x].reu \/ s.ring[x].own > 0 \/ s.ring[x].busyAt >= h.i0
                        \/ \E u \in 1..NT : s.th[u].o \in {"rel", "tdel"})}
  IN IF v = 0
     THEN Flag(Flag(s, h.conc \/ block # {}, "C09", "add failed although the name was free or re-usable"),
               \A x \in sure : ~s.ring[x].shr, "C09", "add did not return the existing shared ring")
     ELSE LET s1 == Flag(s, e.rname = h.nm /\ s.ring[v].name = h.nm, "C09", "add returned a ring of another name")
              s2 == Flag(s1, Live(s, v), "C08", "add returned a freed ring")
              s3 == Flag(s2, \A x \in sure : x = v, "C09", "a second ring registered under a taken name")
              s3b == Flag(s3, \A x \in sure : x = v, "C08", "a ring in use was no longer registered")
              s4 == IF s.ring[v].disc < h.i0
                    THEN Flag(Flag(s3b, s.ring[v].shr \/ s.ring[v].reu, "C09", "add returned a ring that is neither shared nor reusable"),
                              s.ring[v].shr \/ s.ring[v].ownA = 0, "C09", "two owners of a reusable ring")
                    ELSE Flag(s3b, h.conc \/ h.opt = <<>> \/ h.opt = <<s.ring[v].blk, s.ring[v].shr, s.ring[v].reu>>, "C09", "new ring does not have the requested options")
          IN s4

FindOk(s, h, e) ==
  LET v == e.v
      sure == {x \in Rings(s) : s.ring[x].name = h.nm /\ Sure(s, x, h.i0)}
      s1 == Flag(s, \A x \in sure : x = v, "C08", "a ring in use was not found under its name")
  IN IF v = 0 THEN s1
     ELSE Flag(Flag(s1, Live(s, v), "C08", "find returned a freed ring"), s.ring[v].name = h.nm /\ e.rname = h.nm, "C09", "find returned a ring of another name")

Registered(s, r) ==
  LET x == s.ring[r]
      okSrc == IF s.settled THEN {s.cur} ELSE {s.cur, s.old}
  IN [s EXCEPT !.ring[r].reg = TRUE, !.ring[r].regAt = IF x.reg THEN @ ELSE s.l,
               !.ring[r].src = IF x.reg THEN @ ELSE okSrc]

(* after a registration the ring must use the engine's time source *)
SrcOk(s, e) == IF e.v = 0 \/ e.src = 0 THEN s
               ELSE Flag(s, e.src \in (IF s.settled THEN {s.cur} ELSE {s.cur, s.old}), "C14", "registered ring does not use the engine's time source")

Top(s, t) == LET k == s.th[t].stack IN IF k = <<>> THEN 1 ELSE k[Len(k)].r

(* ------------------------------------------------------------------ calls *)
EvOp(s, e) ==
  LET t == e.t
      nm == IF e.o \in {"add", "find", "tnew"} THEN e.name ELSE ""
      conc == nm # "" /\ \E u \in 1..NT : u # t /\ s.th[u].nm = nm
      h0 == s.th[t]
      h == [h0 EXCEPT !.o = e.o, !.nm = nm, !.i0 = s.l, !.sl = 0, !.pre = FALSE, !.alw0 = IF e.o \in {"post", "flush", "chts"} THEN s.ring[e.r].src ELSE {}, !.conc = conc, !.need = 0, !.tidx = 0,
                      !.r = IF e.o \in {"post", "flush", "chts", "rel", "tnewr"} THEN e.r ELSE 0,
                      !.id = IF e.o = "post" THEN e.id ELSE 0, !.sec = IF e.o = "post" THEN e.sec ELSE 0,
                      !.ar = IF e.o = "post" THEN e.ar ELSE "",
                      !.to = IF e.o \in {"flush", "chts"} THEN e.to ELSE 0,
                      !.arg = IF e.o = "chts" THEN e.src ELSE 0,
                      !.opt = IF e.o \in {"add", "tnew"} THEN <<e.blk = 1, e.shr = 1, e.reu = 1>> ELSE <<>>]
      s1 == [s EXCEPT !.th = TLCEval([u \in 1..NT |-> IF u = t THEN h ELSE IF nm # "" /\ s.th[u].nm = nm THEN [s.th[u] EXCEPT !.conc = TRUE] ELSE s.th[u]]),
                      !.clean = IF e.o \in RegOps THEN FALSE ELSE @]
  IN CASE e.o = "flush" ->
            LET r == s.ring[e.r] need == r.base + Len(r.q) IN
            [s1 EXCEPT !.th[t].need = need, !.th[t].tidx = IF OutPos(r) >= need THEN r.tx ELSE 0]
       [] e.o = "post" ->
            Flag(s1, ~e.tls \/ e.r = Top(s, t), "C10", "thread ring post does not go to the current ring")
       [] e.o = "rel" ->
            IF h0.fr = e.r THEN [Own(s1, e.r, -1, FALSE) EXCEPT !.th[t].fr = 0] ELSE Own(s1, e.r, -1, TRUE)
       [] e.o = "tdel" ->
            LET x == h0.stack[Len(h0.stack)] IN
            IF x.r = 0 \/ ~x.v THEN s1 ELSE [Own(s1, x.r, -1, x.a) EXCEPT !.th[t].r = x.r]
       [] e.o = "tnewr" -> [s1 EXCEPT !.th[t].fr = 0]
       [] e.o = "start" ->
            [s1 EXCEPT !.tso = e.tso, !.cap = e.tsocap, !.np = 0, !.lp = 0, !.fullseen = FALSE, !.newmin = Big, !.nem = 0, !.pnem = 0,
                       !.sunk = 0, !.gaps = 0, !.mkr = 0, !.old = s.cur, !.cur = s.isrc, !.settled = FALSE, !.run = TRUE,
                       !.th = TLCEval([u \in 1..NT |-> [s1.th[u] EXCEPT !.tidx = 0]]),
                       !.ring = TLCEval([x \in Rings(s) |-> [s.ring[x] EXCEPT !.src = @ \cup {s.isrc}, !.n1 = 0, !.n2 = 0, !.eu = 0, !.mx = 0, !.tx = 0]])]
       [] e.o = "stop" ->
            [s1 EXCEPT !.ring = TLCEval([x \in Rings(s) |-> [s.ring[x] EXCEPT !.stopn = s.ring[x].base + Len(s.ring[x].q)]])]
       [] OTHER -> s1

EvRet(s0, e) ==
  LET t == e.t
      h == s0.th[t]
      done == [s0 EXCEPT !.th[t].o = "", !.th[t].nm = "", !.th[t].sl = 0,
                         !.th = TLCEval([u \in 1..NT |-> IF u # t /\ h.nm # "" /\ @[u].nm = h.nm THEN [@[u] EXCEPT !.conc = TRUE] ELSE @[u]])]
      \* a record that took a sequence number must have been accepted or dropped when the call returns
      s == Flag(done, h.sl \in {0, 3, 4}, "C02", "a sequence number was used up without a record or a counted drop")
  IN CASE h.o = "post" ->
            IF h.sec = 3 THEN Flag(s, h.sl = 0, "C12", "record of a disabled section was posted")
            ELSE LET s1 == Flag(s, h.sl \in {3, 4}, "C01", "post returned without accepting or dropping the record")
                 IN Flag(s1, h.sl = 3 \/ ~s.ring[h.r].blk, "C03", "post to a blocking ring returned without accepting the record")
       [] h.o = "flush" ->
            IF e.v = 1
            THEN LET r == s.ring[h.r]
                     s1 == Flag(s, OutPos(r) >= h.need, "C06", "flush returned true before earlier records were emitted")
                 IN Flag(s1, h.tidx <= s.sunk, "C06", "flush returned true before the text reached the sink")
            ELSE Flag(s, e.el >= h.to, "C06", "flush returned false before its timeout")
       [] h.o = "chts" ->
            IF e.v = 1
            THEN IF h.to # 0 /\ s.swt = t THEN [s EXCEPT !.settled = TRUE, !.swt = 0, !.ring = TLCEval([x \in Rings(s) |-> IF s.ring[x].reg THEN [s.ring[x] EXCEPT !.src = {s.cur}] ELSE s.ring[x]])]
                 ELSE Flag(s, h.sl = 3, "C14", "change_timesource returned true without a request")
            ELSE Flag(s, e.el >= h.to, "C14", "change_timesource returned false before its timeout")
       [] h.o = "add" ->
            LET s1 == SrcOk(AddOk(s, h, e), e) IN
            IF e.v = 0 THEN s1 ELSE Own(Registered(s1, e.v), e.v, 1, TRUE)
       [] h.o = "find" ->
            LET s1 == FindOk(s, h, e) IN
            IF e.v = 0 THEN s1 ELSE [Own(Registered(s1, e.v), e.v, 1, FALSE) EXCEPT !.th[t].fr = e.v]
       [] h.o = "tnew" ->
            IF e.v = 1
            THEN LET s1 == AddOk(s, h, [v |-> e.cur, rname |-> s.ring[e.cur].name])
                 IN [Own(Registered(s1, e.cur), e.cur, 1, TRUE) EXCEPT !.th[t].stack = Append(@, [r |-> e.cur, v |-> TRUE, a |-> TRUE])]
            ELSE LET s1 == Flag(AddOk(s, h, [v |-> 0, rname |-> ""]), e.cur = Top(s, t), "C10", "failed thread ring changed the current ring")
                 IN [s1 EXCEPT !.th[t].stack = Append(@, [r |-> Top(s, t), v |-> FALSE, a |-> TRUE])]
       [] h.o = "tnewr" ->
            LET s1 == Flag(s, e.cur = h.r /\ e.v = 1, "C10", "thread ring object did not make its ring current")
            IN [s1 EXCEPT !.th[t].stack = Append(@, [r |-> h.r, v |-> TRUE, a |-> FALSE])]
       [] h.o = "tdel" ->
            LET k == h.stack
                s1 == [s EXCEPT !.th[t].stack = SubSeq(k, 1, Len(k) - 1)]
                s2 == IF k[Len(k)].v THEN [s1 EXCEPT !.ring[k[Len(k)].r].busyAt = s.l] ELSE s1
            IN Flag(s2, e.cur = Top(s1, t), "C10", "destroying a thread ring object did not restore the previous ring")
       [] h.o = "rel" -> [s EXCEPT !.ring[h.r].busyAt = s.l]
       [] h.o = "list" ->
            LET n == {s.ring[x].name : x \in {y \in Rings(s) : Sure(s, y, h.i0)}}
                l == {e.v[i] : i \in 1..Len(e.v)}
                s1 == Flag(s, n \subseteq l, "C08", "a ring in use is missing from the list of rings")
            IN Flag(s1, Cardinality(l) = Len(e.v), "C09", "a ring name is listed twice")
       [] h.o = "start" ->
            [s EXCEPT !.settled = TRUE, !.old = s.cur,
                      !.ring = TLCEval([x \in Rings(s) |-> IF s.ring[x].imm /\ e.v = 1
                                                   THEN [s.ring[x] EXCEPT !.reg = TRUE, !.regAt = s.l, !.src = {s.isrc}, !.idx = FALSE] ELSE s.ring[x]])]
       [] h.o = "stop" ->
            LET late == {x \in Rings(s) : s.ring[x].reg /\ OutPos(s.ring[x]) < IF s.ring[x].imm THEN s.ring[x].stopn ELSE s.ring[x].base + Len(s.ring[x].q)}
                s1 == Flag(s, late = {}, "C07", "records accepted before the shutdown were not delivered")
                s2 == Flag(s1, s.sunk = s.nem, "C07", "output not flushed by the shutdown")
                s3 == Flag(s2, ~s.tso \/ e.dropped = s.gaps, "C02", "dropped-record statistic is not the sum of the announced gaps")
            IN [s3 EXCEPT !.run = FALSE, !.ring = TLCEval([x \in Rings(s) |-> [s.ring[x] EXCEPT !.reg = FALSE, !.idx = FALSE]])]
       [] OTHER -> s

(* ------------------------------------------------------------------ writers *)
Commit(s, t, r, n) ==
  LET h == s.th[t]
      x == s.ring[r]
      own == x.imm /\ ~x.reg        \* a default ring that was never registered uses the system clock
      s1 == Flag(s, n = 1 /\ h.sr = r /\ (h.sl = 2 \/ (h.sl = 1 /\ own)), "C01", "a record was accepted outside a posting step")
      s2 == Flag(s1, Len(x.q) < x.cap - 1, "C02", "accepted into a full ring")
      s3 == Flag(s2, h.sq > x.lastc, "C01", "records accepted out of sequence")
      k == IF h.o = "flush" THEN "flush" ELSE IF h.o = "chts" THEN "ts" ELSE "rec"
      it == [q |-> h.sq, id |-> h.id, ts |-> h.sts, k |-> k, sec |-> h.sec, ar |-> h.ar, arg |-> h.arg, t |-> t]
  IN [s3 EXCEPT !.ring[r].q = Append(@, it), !.ring[r].lastc = h.sq, !.th[t].sl = 3]

Consume(s, t, r, n) ==
  LET x == s.ring[r]
      k == Next1(x).k - 1         \* emitted, counting silent flush requests behind them
      s1 == Flag(s, n <= k, "C01", "records left the ring without being emitted")
      s2 == Flag(s1, s.th[t].sl \notin {1, 2}, "C02", "a posting thread removed records")
      m == IF n > Len(x.q) THEN Len(x.q) ELSE n
      RECURSIVE Skip(_, _)
      Skip(z, j) == IF j >= m THEN z ELSE    \* silent items now known to be processed
                    LET y == x.q[j + 1] IN Skip([z EXCEPT !.exp = y.q + 1, !.mk = FALSE, !.eu = IF z.eu = 0 THEN y.ts ELSE SetMax(y.ts, z.eu + 1)], j + 1)
      z == IF m > x.em THEN Skip([exp |-> x.exp, mk |-> x.mk, eu |-> x.eu], x.em) ELSE [exp |-> x.exp, mk |-> x.mk, eu |-> x.eu]
      gap == m > x.em /\ Walk(SubSeq(x.q, 1, m), x.em + 1, x.eu, x.exp, x.mk, FALSE).sg
      s3 == Flag(s2, ~gap \/ ~s.tso, "C02", "a gap before a flush request was not reported")
  IN [s3 EXCEPT !.ring[r].q = SubSeq(x.q, m + 1, Len(x.q)), !.ring[r].base = @ + m, !.ring[r].em = IF m > x.em THEN 0 ELSE x.em - m,
                !.ring[r].exp = z.exp, !.ring[r].mk = z.mk, !.ring[r].eu = z.eu, !.newmin = NewMin(x, x.em + 1, m, x.mx, @)]

EvSt(s, e) ==
  LET t == e.t
      r == e.r
      x == s.ring[r]
      h == s.th[t]
      s1 == IF e.dq = 0 THEN s
            ELSE LET a1 == Flag(s, e.dq = 1, "C02", "sequence number jumped")
                     a2 == Flag(a1, ~\E u \in 1..NT : u # t /\ s.th[u].sl \in {1, 2} /\ s.th[u].sr = r, "C01", "two threads write to one ring at the same time")
                     a3 == Flag(a2, h.sl \in {0, 3, 4}, "C01", "a posting step took two sequence numbers")
                     a4 == Flag(a3, h.o # "post" \/ (h.sl = 0 /\ h.r = r), "C01", "a post went to another ring or twice")
                 IN [a4 EXCEPT !.th[t].sl = IF h.pre THEN 2 ELSE 1, !.th[t].pre = FALSE, !.th[t].sr = r, !.th[t].sq = x.nseq, !.th[t].full = (Len(x.q) >= x.cap - 1),
                               !.th[t].alw = x.src \cup @, !.ring[r].nseq = @ + e.dq]
      s2 == IF e.dd = 0 THEN s1
            ELSE LET a1 == Flag(s1, e.dd = 1 /\ s1.th[t].sr = r /\ (s1.th[t].sl = 2 \/ (s1.th[t].sl = 1 /\ x.imm /\ ~x.reg)), "C02", "drop counted outside a posting step")
                     a2 == Flag(a1, s1.th[t].full, "C02", "record dropped although the ring was not full")
                     a3 == Flag(a2, ~x.blk, "C03", "record dropped on a blocking ring")
                     a4 == Flag(a3, h.o \notin {"flush", "chts"}, "C06", "a request record was dropped")
                 IN [a4 EXCEPT !.th[t].sl = 4]
  IN IF e.dc > 0 THEN Commit(s2, t, r, e.dc) ELSE IF e.dc < 0 THEN Consume(s2, t, r, -e.dc) ELSE s2

EvTs(s, e) ==
  LET h == s.th[e.t]
      \* a time source read between the pointer load and the call may be the previous one
      ok == h.sl = 1 /\ (e.src \in s.ring[h.sr].src \/ e.src \in h.alw)
      pre == h.o \in {"post", "flush", "chts"} /\ h.sl = 0      \* clock read before the sequence number is taken
      ok0 == e.src \in s.ring[h.r].src \/ e.src \in h.alw0
  IN IF h.sl = 1 THEN [Flag(s, ok, "C14", "record stamped with a time source that is not current") EXCEPT !.th[e.t].sl = 2, !.th[e.t].sts = e.v, !.th[e.t].alw = {}]
     ELSE IF pre THEN [Flag(s, ok0, "C14", "record stamped with a time source that is not current") EXCEPT !.th[e.t].pre = TRUE, !.th[e.t].sts = e.v]
     ELSE [s EXCEPT !.th[e.t].sts = e.v]

(* ------------------------------------------------------------------ engine *)
EvPass(s, e) ==
  LET late(x) == LET r == s.ring[x] y == Next1(r) IN
                 r.idx /\ y.k <= Len(r.q) /\ r.base + y.k <= r.n2 /\ ~(s.newmin <= y.eu)
      s1 == Flag(s, \A x \in Rings(s) : ~late(x), "C05", "a record stayed in its ring for more than two passes")
      s2 == Flag(s1, s.sunk >= s.pnem, "C05", "text of an earlier pass not pushed to the sink")
      sure(x) == s.ring[x].reg /\ s.clean /\ s.ring[x].regAt < s.lp
  IN [s2 EXCEPT !.pnem = s.nem, !.np = @ + 1, !.lp = s.l, !.fullseen = FALSE, !.newmin = Big,
                !.clean = ~\E u \in 1..NT : s.th[u].o \in RegOps,
                !.settled = IF \E u \in 1..NT : s.th[u].o = "start" THEN @ ELSE TRUE,
                !.ring = TLCEval([x \in Rings(s) |->
                   LET r == s.ring[x] n == r.base + Len(r.q) IN
                   [r EXCEPT !.eu = 0, !.mx = 0,
                      !.idx = r.idx \/ sure(x),
                      !.n1 = IF r.idx \/ sure(x) THEN n ELSE 0,
                      !.n2 = IF r.idx THEN r.n1 ELSE 0,
                      !.src = IF s.settled \/ ~r.reg \/ \E u \in 1..NT : s.th[u].o = "start" THEN @ ELSE {s.cur}]])]

(* common part of emitting the next record of ring r *)
Emitted(s, r, e, kind) ==
  LET x == s.ring[r]
      w == Next1(x)
      have == w.k <= Len(x.q)
      y == x.q[w.k]
      s0 == Flag(s, have, "C01", "emitted a record that is not pending")
  IN IF ~have THEN [s0 EXCEPT !.nem = @ + 1]
     ELSE
     LET good == y.k = kind /\ y.q = e.q /\ y.ts = e.ts /\ (kind = "rec" => (y.id = e.id /\ e.bad = 0 /\ (y.id = 0 \/ (y.sec = e.sec /\ y.ar = e.area))))
         s1 == Flag(s0, good, "C01", "emitted record is not the next one of its ring or was altered")
         s2 == Flag(s1, ~s.tso \/ (w.gap = 0 /\ ~w.sg), "C02", "gap in the sequence without a drop marker")
         s3 == Flag(s2, s.mkr \in {0, r}, "C02", "drop marker is not directly followed by a record of its ring")
         m == SetMax(x.mx, y.ts)
         early == {j \in Rings(s) \ {r} : s.ring[j].idx /\
                     LET z == Next1(s.ring[j]) IN z.k <= Len(s.ring[j].q) /\ s.ring[j].base + z.k <= s.ring[j].n1 /\ z.eu < m}
         s4 == Flag(s3, ~s.tso \/ s.fullseen \/ early = {}, "C04", "emitted before a pending record with a smaller timestamp")
     IN [s4 EXCEPT !.ring[r].em = w.k, !.ring[r].exp = y.q + 1, !.ring[r].mk = FALSE, !.ring[r].eu = w.eu, !.ring[r].mx = m,
                   !.ring[r].tx = s.nem + 1, !.nem = @ + 1, !.mkr = 0,
                   !.newmin = NewMin(x, x.em + 1, w.k, x.mx, @),
                   !.th = TLCEval([u \in 1..NT |-> LET h == s.th[u] IN
                             IF h.o = "flush" /\ h.r = r /\ h.tidx = 0 /\ h.need > x.base + x.em /\ x.base + w.k >= h.need
                             THEN [h EXCEPT !.tidx = s.nem + 1] ELSE h])]

EvEmit(s, e) == IF e.r = 0 THEN Flag(s, FALSE, "C01", "emitted record of an unknown ring") ELSE Emitted(s, e.r, e, "rec")

EvTsw(s, e) ==
  IF e.r = 0 THEN Flag(s, FALSE, "C14", "announcement for an unknown ring")
  ELSE LET x == s.ring[e.r]
           w == Next1(x)
           is == w.k <= Len(x.q) /\ x.q[w.k].k = "ts"
           s1 == Flag(s, is, "C14", "a time source change was announced that was not requested here")
           s2 == IF is THEN Flag(Flag(Emitted(s1, e.r, e, "ts"), e.to = x.q[w.k].arg, "C14", "announced another time source than requested"),
                                 e.from = s.cur, "C14", "announcement does not name the old time source")
                 ELSE [s1 EXCEPT !.nem = @ + 1]
       IN [s2 EXCEPT !.old = s.cur, !.cur = e.to, !.settled = FALSE, !.swt = IF is THEN x.q[w.k].t ELSE 0,
                     !.ring = TLCEval([j \in Rings(s) |-> [s2.ring[j] EXCEPT !.src = (IF s.settled THEN @ ELSE @ \cup {s.cur}) \cup {e.to}]]),
                     !.th = TLCEval([u \in 1..NT |-> IF s2.th[u].sl = 1 THEN [s2.th[u] EXCEPT !.alw = @ \cup {e.to}] ELSE [s2.th[u] EXCEPT !.alw0 = @ \cup {e.to}]])]

EvDrop(s, e) ==
  IF e.r = 0 THEN Flag(s, FALSE, "C02", "drop marker for an unknown ring")
  ELSE
  LET x == s.ring[e.r]
      RECURSIVE First(_, _)      \* first item with a gap among the silent ones and the next visible one
      First(k, exp) == IF k > Len(x.q) THEN [k |-> k, gap |-> 0]
                       ELSE IF x.q[k].q # exp THEN [k |-> k, gap |-> x.q[k].q - exp]
                       ELSE IF x.q[k].k = "flush" THEN First(k + 1, x.q[k].q + 1)
                       ELSE [k |-> k, gap |-> 0]
      f == First(x.em + 1, x.exp)
      s1 == Flag(s, s.mkr = 0, "C02", "drop marker is not directly followed by a record of its ring")
      s2 == Flag(s1, f.k <= Len(x.q) /\ f.gap > 0, "C02", "drop marker without a gap")
      s3 == Flag(s2, f.gap = e.n /\ e.bad = 0, "C02", "drop marker names the wrong number of records")
      silent == f.k <= Len(x.q) /\ x.q[f.k].k = "flush"
      last == IF silent THEN f.k ELSE f.k - 1       \* silent items before or at the gap are processed
      nexp == IF f.k > Len(x.q) THEN x.exp ELSE IF silent THEN x.q[f.k].q + 1 ELSE x.q[f.k].q
      RECURSIVE Eu(_, _)
      Eu(k, u) == IF k > last \/ k > Len(x.q) THEN u ELSE Eu(k + 1, IF u = 0 THEN x.q[k].ts ELSE SetMax(x.q[k].ts, u + 1))
      neu == Eu(x.em + 1, x.eu)
      nl == IF last > Len(x.q) THEN Len(x.q) ELSE IF last < x.em THEN x.em ELSE last
  IN [s3 EXCEPT !.nem = @ + 1, !.gaps = @ + e.n, !.mkr = IF silent THEN 0 ELSE e.r, !.ring[e.r].em = nl,
                !.ring[e.r].exp = nexp, !.ring[e.r].mk = FALSE, !.ring[e.r].eu = neu, !.newmin = NewMin(x, x.em + 1, nl, x.mx, @)]

EvFull(s, e) ==
  LET RECURSIVE Sum(_, _)
      Sum(k, n) == IF k = 0 THEN n ELSE Sum(k - 1, IF s.ring[k].freed THEN n ELSE n + Len(s.ring[k].q))
      s1 == Flag(s, s.tso /\ Sum(Len(s.ring), 0) >= s.cap, "C04", "overflow announced although the ordering buffer cannot be full")
      s2 == Flag(s1, s.mkr = 0, "C02", "drop marker is not directly followed by a record of its ring")
  IN [s2 EXCEPT !.fullseen = TRUE, !.nem = @ + 1]

EvSink(s, e) == [Flag(s, e.n <= s.nem /\ e.n >= s.sunk, "C05", "sink received more text than was emitted") EXCEPT !.sunk = e.n]

(* ------------------------------------------------------------------ end of run *)
EvQuies(s, e) ==
  LET wrong == {i \in 1..Len(e.ref) : LET x == s.ring[e.ref[i].r] IN x.reg /\ e.ref[i].n # x.own + 1 /\ ~(x.own = 0 /\ e.ref[i].n = 0)}
  IN Flag(s, wrong = {}, "C09", "reference count differs from the number of owners")

EvEnd(s, e) ==
  LET left == {x \in Rings(s) : ~s.ring[x].freed /\ ~s.ring[x].imm}
      s1 == Flag(s, left = {}, "C08", "a released ring was never freed")
      lost == {x \in Rings(s) : ~s.ring[x].imm /\ OutPos(s.ring[x]) < s.ring[x].base + Len(s.ring[x].q)}
      s2 == Flag(s1, lost = {}, "C01", "an accepted record was never emitted")
  IN Flag(s2, \A t \in 1..NT : s.th[t].stack = <<>>, "SPEC", "thread ring left")

Pending(s, o) == \E t \in 1..NT : s.th[t].o = o
EvHang(s, e) ==
  LET s1 == Flag(s, ~Pending(s, "post"), "C03", "a post never returned")
      s2 == Flag(s1, ~Pending(s, "flush"), "C06", "a flush never returned")
      s3 == Flag(s2, ~(Pending(s, "stop") \/ Pending(s, "start")), "C07", "shutdown or start-up never finished")
      s4 == Flag(s3, ~Pending(s, "chts"), "C14", "a time source change never finished")
      s5 == Flag(s4, ~\E t \in 1..NT : s.th[t].o \in {"add", "find", "rel", "list", "tnew", "tdel"}, "C08", "a ring operation never returned")
  IN Flag(s5, ~\E x \in Rings(s) : s.ring[x].idx /\ OutPos(s.ring[x]) < s.ring[x].base + Len(s.ring[x].q), "C05", "pending records were never emitted")

EvCrash(s, e) == Flag(Flag(s, FALSE, "C08", "crash"), FALSE, "C01", "crash")

Step(s0, e) ==
  LET s == [s0 EXCEPT !.l = @ + 1] IN
  CASE e.e = "st"   -> EvSt(s, e)
    [] e.e = "ts"   -> EvTs(s, e)
    [] e.e = "pass" -> EvPass(s, e)
    [] e.e = "emit" -> EvEmit(s, e)
    [] e.e = "sink" -> EvSink(s, e)
    [] e.e = "op"   -> EvOp(s, e)
    [] e.e = "ret"  -> EvRet(s, e)
    [] e.e = "drop" -> EvDrop(s, e)
    [] e.e = "full" -> EvFull(s, e)
    [] e.e = "tsw"  -> EvTsw(s, e)
    [] e.e = "ring" -> EvRing(s, e)
    [] e.e = "free" -> EvFree(s, e)
    [] e.e = "quies" -> EvQuies(s, e)
    [] e.e = "end"  -> EvEnd(s, e)
    [] e.e = "hang" -> EvHang(s, e)
    [] e.e = "crash" -> EvCrash(s, e)
    [] e.e = "mem"  -> Flag(s, FALSE, "C08", "freed or foreign memory touched")
=============================================================================
