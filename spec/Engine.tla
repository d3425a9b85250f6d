------------------------------- MODULE Engine -------------------------------
(* Design specification of hogl's engine: the algorithm of src/engine.cc, ringbuf.hpp, flush.cc, timesource.cc    *)
(* and the ring registry, one action per access to shared state or critical section.  Every observable step is     *)
(* reported to the abstract specification HoglMon through Rep(), so TLC decides for every interleaving whether     *)
(* the algorithm has the properties (invariant Good), and that no run gets stuck (invariant NoStuck).                 *)
(* Defect re-introduces, one at a time, mistakes that the code had or could have; the configurations with a        *)
(* defect must be rejected, which shows that the properties are not vacuous.                                       *)
EXTENDS HoglMon

CONSTANTS
  Setup,      \* <<[name, cap, prio, blk, shr, reu]>>: rings registered before the threads start (ids 2..)
  Prog,       \* thread -> sequence of operations (threads 3..NT; thread 2 is the engine, 1 the main program)
  MainProg,   \* operations of the main program after the threads are done (stop is appended)
  TsoCap,     \* capacity of the ordering buffer, 0: ordering disabled
  DefRing,    \* TRUE: the engine is the default engine and serves the immortal default ring (id 1)
  Passes,     \* polling passes the engine may make while other threads can run
  Skew,       \* TRUE: clocks may go backwards
  Fine,       \* TRUE: taking a sequence number and reading the clock are separate steps
  Defect      \* set of defects

VARIABLES mon, R, W, E, G
vars == <<mon, R, W, E, G>>

Engn == 2
Workers == 3..NT
Inf == 10000000

\* Feed a sequence of events to the abstract specification
RECURSIVE Feed(_, _, _)
Feed(m, evs, k) == IF k > Len(evs) THEN m ELSE Feed(Step(m, evs[k]), evs, k + 1)
Rep(evs) == mon' = Feed(mon, evs, 1)

(* ------------------------------------------------------------------ initial state *)
DefOpt == [name |-> "DEFAULT", cap |-> 4, prio |-> 0, blk |-> FALSE, shr |-> TRUE, reu |-> FALSE]
NewRing(o, src) == [ name |-> o.name, cap |-> o.cap, prio |-> o.prio, blk |-> o.blk, shr |-> o.shr, reu |-> o.reu, imm |-> FALSE,
                     q |-> <<>>, seq |-> 0, lock |-> 0, act |-> FALSE, ref |-> 2, src |-> src, nexp |-> 0, st |-> "live" ]
B(x) == IF x THEN 1 ELSE 0
RingEv(r, o, imm) == [e |-> "ring", r |-> r, name |-> o.name, cap |-> o.cap, blk |-> o.blk, shr |-> o.shr, reu |-> o.reu, imm |-> imm, size |-> 0]
AddEvs(r, o) == << [e |-> "op", t |-> 1, o |-> "add", name |-> o.name, blk |-> B(o.blk), shr |-> B(o.shr), reu |-> B(o.reu)],
                   RingEv(r, o, FALSE),
                   [e |-> "ret", t |-> 1, v |-> r, rname |-> o.name, src |-> 1] >>
StartEvs == << [e |-> "op", t |-> 1, o |-> "start", tso |-> TsoCap > 0, tsocap |-> TsoCap] >>
RECURSIVE SetupEvs(_)
SetupEvs(k) == IF k > Len(Setup) THEN <<>> ELSE AddEvs(k + 1, Setup[k]) \o SetupEvs(k + 1)

W0 == [ pc |-> "idle", k |-> 1, r |-> 0, ref |-> 0, fnd |-> FALSE, seq |-> 0, ts |-> 0, id |-> 0, wake |-> FALSE, tmp |-> 0, left |-> 0 ]
E0 == [ pc |-> "pass", i |-> 1, k |-> 1, n |-> 0, tso |-> <<>>, todo |-> 0, leftover |-> 0, ets |-> 0, back |-> "", cur |-> 0,
        idx |-> <<>>, free |-> 0, idle |-> 0, drain |-> FALSE, stop |-> FALSE, done |-> FALSE, dropped |-> 0, snap |-> <<>> ]

Init ==
  /\ mon = Feed(Mon0, StartEvs \o << RingEv(1, DefOpt, TRUE), [e |-> "ret", t |-> 1, v |-> B(DefRing)] >> \o SetupEvs(1), 1)
  /\ R = << [NewRing(DefOpt, 1) EXCEPT !.imm = TRUE, !.ref = IF DefRing THEN 2 ELSE 0] >> \o TLCEval([k \in 1..Len(Setup) |-> NewRing(Setup[k], 1)])
  /\ W = TLCEval([t \in 1..NT |-> [W0 EXCEPT !.pc = IF t = Engn THEN "engine" ELSE IF t = 1 THEN "main" ELSE "idle"]])
  /\ E = E0
  /\ G = [ clock |-> 10, ts |-> 1, map |-> (IF DefRing THEN {1} ELSE {}) \cup {k + 1 : k \in 1..Len(Setup)}, dirty |-> TRUE, rm |-> 0, acked |-> {} ]

(* ------------------------------------------------------------------ writers *)
OpOf(t) == IF t = 1 THEN MainProg[W[t].k] ELSE Prog[t][W[t].k]
RingOf(t, o) == IF o.r = 0 THEN W[t].ref ELSE o.r
Full(r) == Len(R[r].q) >= R[r].cap - 1
GoneEv(t, r) == IF R[r].st = "freed" THEN << [e |-> "mem", t |-> t] >> ELSE <<>>

Idle(t) == IF t = 1 THEN "main" ELSE "idle"
Ret(t, f) == W' = [W EXCEPT ![t] = [f EXCEPT !.pc = Idle(t), !.k = @ + 1]]

HasOp(t) == IF t = 1 THEN (\A u \in Workers : W[u].pc = "done") /\ W[1].k <= Len(MainProg) ELSE W[t].k <= Len(Prog[t])

\* take the ring's lock if it is shared, a sequence number and a timestamp
Clocks == IF Skew THEN {G.clock, G.clock - 3} ELSE {G.clock}
Begin(t, r, evs) ==
  LET st == << [e |-> "st", t |-> t, r |-> r, dq |-> 1, dd |-> 0, dc |-> 0] >>
      w == [W[t] EXCEPT !.r = r, !.seq = R[r].seq, !.tmp = R[r].src] IN
  /\ R' = [R EXCEPT ![r].seq = @ + 1, ![r].lock = IF R[r].shr /\ "nolock" \notin Defect THEN t ELSE @]
  /\ IF Fine THEN W' = [W EXCEPT ![t] = [w EXCEPT !.pc = "ts"]] /\ Rep(evs \o st) /\ UNCHANGED G
     ELSE \E v \in Clocks :
          /\ W' = [W EXCEPT ![t] = [w EXCEPT !.pc = "full", !.ts = v]]
          /\ Rep(evs \o st \o << [e |-> "ts", t |-> t, v |-> v, src |-> R[r].src] >>)
          /\ G' = [G EXCEPT !.clock = @ + 1]

StartOp(t) ==
  /\ W[t].pc = Idle(t) /\ HasOp(t)
  /\ LET o == OpOf(t) IN
     CASE o.o = "post" ->
            LET r == RingOf(t, o) IN
            IF r = 0 THEN /\ Ret(t, W[t]) /\ UNCHANGED <<mon, R, E, G>>      \* nothing to post to
            ELSE /\ ~R[r].shr \/ R[r].lock = 0 \/ "nolock" \in Defect
                 /\ Begin(t, r, GoneEv(t, r) \o << [e |-> "op", t |-> t, o |-> "post", r |-> r, id |-> 100 * t + W[t].k, sec |-> 1, ar |-> "A", tls |-> FALSE] >>)
                 /\ UNCHANGED E
       [] o.o \in {"flush", "chts"} ->
            LET r == RingOf(t, o) IN
            IF r = 0 THEN /\ Ret(t, W[t]) /\ UNCHANGED <<mon, R, E, G>>
            ELSE /\ W' = [W EXCEPT ![t].pc = IF R[r].shr THEN "lock" ELSE "room", ![t].r = r]
                 /\ Rep(GoneEv(t, r) \o << IF o.o = "flush" THEN [e |-> "op", t |-> t, o |-> "flush", r |-> r, to |-> o.to]
                           ELSE [e |-> "op", t |-> t, o |-> "chts", r |-> r, src |-> o.src, to |-> o.to] >>)
                 /\ UNCHANGED <<R, E, G>>
       [] o.o = "add" ->
            IF W[t].ref # 0 THEN Ret(t, W[t]) /\ UNCHANGED <<mon, R, E, G>>
            ELSE /\ W' = [W EXCEPT ![t].pc = "add1", ![t].tmp = G.ts]
                 /\ Rep(<< [e |-> "op", t |-> t, o |-> "add", name |-> o.name, blk |-> 0, shr |-> B(o.shr), reu |-> B(o.reu)] >>)
                 /\ UNCHANGED <<R, E, G>>
       [] o.o = "find" ->
            IF W[t].ref # 0 THEN Ret(t, W[t]) /\ UNCHANGED <<mon, R, E, G>>
            ELSE /\ W' = [W EXCEPT ![t].pc = "find1"]
                 /\ Rep(<< [e |-> "op", t |-> t, o |-> "find", name |-> o.name] >>)
                 /\ UNCHANGED <<R, E, G>>
       [] o.o = "rel" ->
            LET r == RingOf(t, o) IN
            IF r = 0 THEN Ret(t, W[t]) /\ UNCHANGED <<mon, R, E, G>>
            ELSE /\ W' = [W EXCEPT ![t].pc = "rel", ![t].r = r, ![t].ref = IF o.r = 0 THEN 0 ELSE @]
                 /\ Rep(<< [e |-> "op", t |-> t, o |-> "rel", r |-> r] >>)
                 /\ UNCHANGED <<R, E, G>>
       [] o.o = "stop" ->
            /\ W' = [W EXCEPT ![t].pc = "stop"]
            /\ Rep(<< [e |-> "op", t |-> 1, o |-> "stop"] >>)
            /\ R' = IF DefRing THEN [R EXCEPT ![1].ref = @ - 1] ELSE R
            /\ UNCHANGED <<E, G>>
       [] o.o = "start" ->
            /\ W' = [W EXCEPT ![t].pc = "start"]
            /\ Rep(StartEvs)
            /\ R' = [R EXCEPT ![1].ref = 2, ![1].src = 1]
            /\ G' = [G EXCEPT !.map = {1}, !.dirty = TRUE, !.ts = 1]
            /\ E' = E0

Lock(t) == /\ W[t].pc = "lock" /\ R[W[t].r].lock = 0
           /\ R' = [R EXCEPT ![W[t].r].lock = IF "nolock" \in Defect THEN 0 ELSE t]
           /\ W' = [W EXCEPT ![t].pc = "room"]
           /\ UNCHANGED <<mon, E, G>>

Unlocked(r, t) == IF R[r].lock = t THEN 0 ELSE R[r].lock

\* requests wait for room first; they may give up if they have a timeout
Room(t) == /\ W[t].pc = "room"
           /\ LET r == W[t].r o == OpOf(t) IN
              \/ /\ ~Full(r) /\ W' = [W EXCEPT ![t].pc = "seq"] /\ UNCHANGED <<mon, R, E, G>>
              \/ /\ Full(r) /\ o.to # Inf
                 /\ R' = [R EXCEPT ![r].lock = Unlocked(r, t), ![r].seq = IF "seqtimeout" \in Defect THEN @ + 1 ELSE @]
                 /\ Ret(t, W[t])
                 /\ Rep((IF "seqtimeout" \in Defect THEN << [e |-> "st", t |-> t, r |-> r, dq |-> 1, dd |-> 0, dc |-> 0] >> ELSE <<>>)
                        \o << [e |-> "ret", t |-> t, v |-> 0, el |-> o.to] >>)
                 /\ UNCHANGED <<E, G>>

TakeSeq(t) == W[t].pc = "seq" /\ Begin(t, W[t].r, GoneEv(t, W[t].r)) /\ UNCHANGED E

Stamp(t) == /\ W[t].pc = "ts"
            /\ \E v \in Clocks :
               /\ W' = [W EXCEPT ![t].pc = "full", ![t].ts = v]
               /\ Rep(<< [e |-> "ts", t |-> t, v |-> v, src |-> W[t].tmp] >>)
            /\ G' = [G EXCEPT !.clock = @ + 1]
            /\ UNCHANGED <<R, E>>

IsReq(t) == OpOf(t).o \in {"flush", "chts"}

Accept(t) ==
  LET r == W[t].r o == OpOf(t)
         it == [q |-> W[t].seq, ts |-> W[t].ts, id |-> IF o.o = "post" THEN 100 * t + W[t].k ELSE 0, k |-> IF o.o = "post" THEN "rec" ELSE IF o.o = "flush" THEN "flush" ELSE "ts",
                arg |-> IF o.o = "chts" THEN o.src ELSE 0]
         st == [e |-> "st", t |-> t, r |-> r, dq |-> 0, dd |-> 0, dc |-> 1]
     IN IF IsReq(t) /\ ~(o.o = "chts" /\ o.to = 0)
        THEN /\ R' = [R EXCEPT ![r].q = Append(@, it)]
             /\ W' = [W EXCEPT ![t].pc = "ack"]
             /\ Rep(GoneEv(t, r) \o << st >>)
             /\ UNCHANGED <<E, G>>
        ELSE /\ R' = [R EXCEPT ![r].q = Append(@, it), ![r].lock = Unlocked(r, t)]
             /\ Ret(t, W[t])
             /\ Rep(GoneEv(t, r) \o << st, IF o.o = "post" THEN [e |-> "ret", t |-> t] ELSE [e |-> "ret", t |-> t, v |-> 1, el |-> 0] >>)
             /\ UNCHANGED <<E, G>>

TestFull(t) ==
  /\ W[t].pc = "full"
  /\ LET r == W[t].r IN
     IF ~Full(r) \/ "overwrite" \in Defect THEN Accept(t)
     ELSE IF R[r].blk THEN W' = [W EXCEPT ![t].pc = "block"] /\ UNCHANGED <<mon, R, E, G>>
     ELSE /\ R' = [R EXCEPT ![r].lock = Unlocked(r, t)]
          /\ Ret(t, W[t])
          /\ Rep(<< [e |-> "st", t |-> t, r |-> r, dq |-> 0, dd |-> 1, dc |-> 0], [e |-> "ret", t |-> t] >>)
          /\ UNCHANGED <<E, G>>

\* the block mutex makes setting the flag and going to sleep one step
Block(t) == /\ W[t].pc = "block"
            /\ R' = [R EXCEPT ![W[t].r].act = TRUE]
            /\ W' = [W EXCEPT ![t].pc = "sleep", ![t].wake = FALSE]
            /\ UNCHANGED <<mon, E, G>>

Wake(t) == /\ W[t].pc = "sleep" /\ W[t].wake
           /\ W' = [W EXCEPT ![t].pc = "full"]
           /\ UNCHANGED <<mon, R, E, G>>

WaitAck(t) ==
  /\ W[t].pc = "ack"
  /\ LET r == W[t].r o == OpOf(t) key == <<r, W[t].seq>> IN
     /\ \/ key \in G.acked /\ Rep(<< [e |-> "ret", t |-> t, v |-> 1, el |-> 0] >>)
        \/ key \notin G.acked /\ o.to # Inf /\ Rep(<< [e |-> "ret", t |-> t, v |-> 0, el |-> o.to] >>)
     /\ R' = [R EXCEPT ![r].lock = Unlocked(r, t)]
     /\ Ret(t, W[t])
     /\ UNCHANGED <<E, G>>

(* ------------------------------------------------------------------ ring registry *)
Named(n) == {x \in G.map : R[x].name = n}

Add1(t) ==   \* critical section of add_ring(): insert or find, take a reference
  /\ W[t].pc = "add1" /\ G.rm = 0
  /\ LET o == OpOf(t) IN
     IF Named(o.name) = {}
     THEN /\ R' = Append(R, NewRing([name |-> o.name, cap |-> o.cap, prio |-> 1, blk |-> FALSE, shr |-> o.shr, reu |-> o.reu],
                                    IF "tsrace" \in Defect THEN W[t].tmp ELSE G.ts))
          /\ G' = [G EXCEPT !.map = @ \cup {Len(R) + 1}, !.rm = t]
          /\ W' = [W EXCEPT ![t].pc = "add2", ![t].r = Len(R) + 1, ![t].fnd = FALSE]
          /\ Rep(<< RingEv(Len(R) + 1, [name |-> o.name, cap |-> o.cap, blk |-> FALSE, shr |-> o.shr, reu |-> o.reu], FALSE) >>)
          /\ UNCHANGED E
     ELSE LET r == CHOOSE x \in Named(o.name) : TRUE IN
          /\ R' = [R EXCEPT ![r].ref = @ + 1]
          /\ G' = [G EXCEPT !.rm = t]
          /\ W' = [W EXCEPT ![t].pc = "add2", ![t].r = r, ![t].fnd = TRUE]
          /\ UNCHANGED <<mon, E>>
Add2(t) == /\ W[t].pc = "add2" /\ G' = [G EXCEPT !.rm = 0] /\ W' = [W EXCEPT ![t].pc = "add3"] /\ UNCHANGED <<mon, R, E>>
Add3(t) ==
  /\ W[t].pc = "add3"
  /\ LET r == W[t].r ok == << [e |-> "ret", t |-> t, v |-> r, rname |-> R[r].name, src |-> R[r].src] >> IN
     IF ~W[t].fnd THEN /\ G' = [G EXCEPT !.dirty = TRUE] /\ Ret(t, [W[t] EXCEPT !.ref = r]) /\ Rep(ok) /\ UNCHANGED <<R, E>>
     ELSE IF R[r].shr \/ (R[r].reu /\ (R[r].ref = 2 \/ "reuse" \in Defect))
          THEN Ret(t, [W[t] EXCEPT !.ref = r]) /\ Rep(GoneEv(t, r) \o ok) /\ UNCHANGED <<R, E, G>>
          ELSE W' = [W EXCEPT ![t].pc = "addrel"] /\ UNCHANGED <<mon, R, E, G>>

\* drop a reference; the last one frees the ring
Drop(t, r, evs) ==
  LET n == IF "leakref" \in Defect /\ W[t].pc = "addrel" THEN R[r].ref ELSE R[r].ref - 1
      free == n = 0 /\ ~R[r].imm /\ R[r].st = "live" IN
  /\ R' = [R EXCEPT ![r].ref = n, ![r].st = IF free THEN "freed" ELSE @]
  /\ Rep((IF R[r].st = "freed" THEN << [e |-> "mem", t |-> t] >> ELSE IF free THEN << [e |-> "free", t |-> t, r |-> r] >> ELSE <<>>) \o evs)

AddRel(t) == /\ W[t].pc = "addrel" /\ Drop(t, W[t].r, << [e |-> "ret", t |-> t, v |-> 0, rname |-> "", src |-> 0] >>) /\ Ret(t, W[t]) /\ UNCHANGED <<E, G>>

Find1(t) ==
  /\ W[t].pc = "find1" /\ G.rm = 0
  /\ G' = [G EXCEPT !.rm = t]
  /\ LET n == Named(OpOf(t).name) IN
     IF n = {} THEN W' = [W EXCEPT ![t].pc = "find2", ![t].r = 0] /\ UNCHANGED R
     ELSE LET r == CHOOSE x \in n : TRUE IN W' = [W EXCEPT ![t].pc = "find2", ![t].r = r] /\ R' = [R EXCEPT ![r].ref = @ + 1]
  /\ UNCHANGED <<mon, E>>
Find2(t) ==
  /\ W[t].pc = "find2"
  /\ G' = [G EXCEPT !.rm = 0]
  /\ Rep(<< [e |-> "ret", t |-> t, v |-> W[t].r, rname |-> IF W[t].r = 0 THEN "" ELSE R[W[t].r].name] >>)
  /\ Ret(t, [W[t] EXCEPT !.ref = W[t].r])
  /\ UNCHANGED <<R, E>>

Rel(t) == /\ W[t].pc = "rel" /\ Drop(t, W[t].r, << [e |-> "ret", t |-> t] >>) /\ Ret(t, W[t]) /\ UNCHANGED <<E, G>>

\* a thread that is done lets go of its ring
Finish(t) ==
  /\ t \in Workers /\ W[t].pc = "idle" /\ W[t].k > Len(Prog[t])
  /\ IF W[t].ref = 0 THEN W' = [W EXCEPT ![t].pc = "done"] /\ UNCHANGED <<mon, R, E, G>>
     ELSE /\ W' = [W EXCEPT ![t].pc = "finrel", ![t].r = W[t].ref, ![t].ref = 0]
          /\ Rep(<< [e |-> "op", t |-> t, o |-> "rel", r |-> W[t].ref] >>)
          /\ UNCHANGED <<R, E, G>>
FinRel(t) == /\ W[t].pc = "finrel" /\ Drop(t, W[t].r, << [e |-> "ret", t |-> t] >>) /\ W' = [W EXCEPT ![t].pc = "done"] /\ UNCHANGED <<E, G>>

(* ------------------------------------------------------------------ main program: release, stop, restart *)
MainEnd == (\A u \in Workers : W[u].pc = "done") /\ W[1].pc = "main" /\ W[1].k > Len(MainProg)
SetStop == /\ W[1].pc = "stop" /\ E' = [E EXCEPT !.stop = TRUE] /\ W' = [W EXCEPT ![1].pc = "join"] /\ UNCHANGED <<mon, R, G>>
Join == /\ W[1].pc = "join" /\ E.done
        /\ Rep(<< [e |-> "ret", t |-> 1, v |-> 0, dropped |-> E.dropped] >>)
        /\ Ret(1, W[1]) /\ UNCHANGED <<R, E, G>>
Started == /\ W[1].pc = "start" /\ Rep(<< [e |-> "ret", t |-> 1, v |-> B(DefRing)] >>) /\ Ret(1, W[1]) /\ UNCHANGED <<R, E, G>>
End == /\ MainEnd
       /\ Rep(<< [e |-> "end"] >>)
       /\ W' = [W EXCEPT ![1].pc = "end"] /\ UNCHANGED <<R, E, G>>

(* ------------------------------------------------------------------ engine *)
Valid(i) == E.idx[i].r # 0
OtherCanRun == TRUE = (
  \E t \in 1..NT \ {Engn} :
    \/ W[t].pc \in {"seq", "ts", "full", "block", "add2", "add3", "addrel", "find2", "rel", "finrel", "stop", "start"}
    \/ (W[t].pc = "lock" /\ R[W[t].r].lock = 0)
    \/ (W[t].pc = "room" /\ (~Full(W[t].r) \/ OpOf(t).to # Inf))
    \/ (W[t].pc = "sleep" /\ W[t].wake)
    \/ (W[t].pc = "ack" /\ (<<W[t].r, W[t].seq>> \in G.acked \/ OpOf(t).to # Inf))
    \/ (W[t].pc \in {"add1", "find1"} /\ G.rm = 0)
    \/ (W[t].pc = "idle" /\ IF W[t].k > Len(Prog[t]) THEN TRUE ELSE IF Prog[t][W[t].k].o # "post" THEN TRUE
                            ELSE LET r == RingOf(t, Prog[t][W[t].k]) IN IF r = 0 THEN TRUE ELSE R[r].lock = 0)
    \/ (t = 1 /\ W[t].pc = "main" /\ \A u \in Workers : W[u].pc = "done"))

EPass ==   \* _killed is tested before the pass
  /\ E.pc = "pass" /\ W[1].pc # "end" /\ ~E.done
  /\ \/ (OtherCanRun /\ E.free < Passes) \/ (~OtherCanRun /\ (E.idle < 4 \/ E.snap # <<W, E.stop>>))
  /\ E' = [E EXCEPT !.pc = IF G.dirty THEN "index" ELSE "scan", !.i = 1, !.k = 1, !.n = -1, !.ets = 0, !.drain = E.stop,
                    !.free = IF OtherCanRun THEN @ + 1 ELSE @, !.idle = IF OtherCanRun \/ E.snap # <<W, E.stop>> THEN 0 ELSE @ + 1,
                    !.snap = IF OtherCanRun THEN <<>> ELSE <<W, E.stop>>]
  /\ Rep(<< [e |-> "pass"] >>)
  /\ UNCHANGED <<R, W, G>>

RECURSIVE SortIdx(_)
SortIdx(S) == IF S = {} THEN <<>>
              ELSE LET x == CHOOSE a \in S : \A b \in S : R[a].prio > R[b].prio \/ (R[a].prio = R[b].prio /\ a <= b)
                   IN << x >> \o SortIdx(S \ {x})
OldExp(r) == LET s == {i \in 1..Len(E.idx) : E.idx[i].r = r} IN
             IF s # {} THEN E.idx[CHOOSE i \in s : TRUE].exp ELSE IF "expreset" \in Defect THEN 0 ELSE R[r].nexp
EIndex ==
  /\ E.pc = "index"
  /\ IF G.rm # 0 THEN E' = [E EXCEPT !.pc = "scan"] /\ UNCHANGED G
     ELSE LET l == SortIdx(G.map) IN
          /\ E' = [E EXCEPT !.pc = "scan", !.idx = TLCEval([i \in 1..Len(l) |-> [r |-> l[i], exp |-> OldExp(l[i]), last |-> 0]])]
          /\ G' = [G EXCEPT !.dirty = FALSE]
  /\ UNCHANGED <<mon, R, W>>

Eff(x) == IF x.ts <= E.ets THEN E.ets + 1 ELSE x.ts

\* push records of ring i into the ordering buffer until it is full or the ring's snapshot is exhausted
RECURSIVE PushAll(_, _, _)
PushAll(e, i, x) ==
  IF e.k > e.n \/ Len(e.tso) >= TsoCap THEN e
  ELSE LET y == x[e.k]
           eff == IF y.ts <= e.ets THEN e.ets + 1 ELSE y.ts
       IN PushAll([e EXCEPT !.tso = Append(@, [i |-> i, x |-> y, ts |-> eff, p |-> e.k]), !.ets = eff, !.k = @ + 1], i, x)

EScan ==
  /\ E.pc = "scan" /\ TsoCap > 0
  /\ IF E.i > Len(E.idx) THEN E' = [E EXCEPT !.pc = "flush"] /\ UNCHANGED <<mon, R, W, G>>
     ELSE IF ~Valid(E.i) THEN E' = [E EXCEPT !.i = @ + 1, !.n = -1] /\ UNCHANGED <<mon, R, W, G>>
     ELSE LET r == E.idx[E.i].r IN
          IF E.n = -1 \/ E.k <= E.n THEN   \* snapshot of the tail; the records before it do not change any more
               LET e1 == IF E.n = -1 THEN [E EXCEPT !.n = Len(R[r].q), !.k = 1, !.ets = 0] ELSE E
                   e2 == PushAll(e1, E.i, R[r].q)
                   nxt == [e2 EXCEPT !.i = @ + 1, !.n = -1] IN
               /\ E' = IF Len(e2.tso) >= TsoCap THEN [e2 EXCEPT !.pc = "fulltso"] ELSE IF e2.n = 0 THEN [e2 EXCEPT !.pc = "orph"] ELSE nxt
               /\ Rep(GoneEv(Engn, r))
               /\ UNCHANGED <<R, W, G>>
          ELSE E' = [E EXCEPT !.i = @ + 1, !.n = -1] /\ UNCHANGED <<mon, R, W, G>>
EOrph ==
  /\ E.pc = "orph"
  /\ LET r == E.idx[E.i].r IN
     E' = IF R[r].ref = 1 /\ Len(R[r].q) = 0 THEN [E EXCEPT !.pc = "kill"] ELSE [E EXCEPT !.pc = "scan", !.i = @ + 1, !.n = -1]
  /\ UNCHANGED <<mon, R, W, G>>

EKill ==
  /\ E.pc = "kill"
  /\ LET r == E.idx[E.i].r back == [E EXCEPT !.pc = "scan", !.i = @ + 1, !.n = -1] IN
     IF G.rm # 0 \/ ("killcheck" \notin Defect /\ ~(R[r].ref = 1 /\ Len(R[r].q) = 0))
     THEN E' = back /\ UNCHANGED <<mon, R, W, G>>
     ELSE /\ E' = [back EXCEPT !.idx[E.i].r = 0]
          /\ G' = [G EXCEPT !.map = @ \ {r}, !.dirty = TRUE]
          /\ Drop(Engn, r, <<>>)
          /\ UNCHANGED W

\* sort the ordering buffer (ties in any order: the first of the equal ones is taken here, see Ties)
RECURSIVE Sort(_)
Sort(b) == IF b = <<>> THEN <<>>
           ELSE LET m == CHOOSE j \in 1..Len(b) : \A k \in 1..Len(b) : b[j].ts < b[k].ts \/ (b[j].ts = b[k].ts /\ j <= k)
                IN << b[m] >> \o Sort(SubSeq(b, 1, m - 1) \o SubSeq(b, m + 1, Len(b)))

EFullTso ==
  /\ E.pc = "fulltso"
  /\ LET n == Len(E.tso) \div 2 IN
     E' = [E EXCEPT !.tso = Sort(@), !.todo = IF n = 0 THEN 1 ELSE n, !.pc = "emit", !.back = "scan", !.leftover = 0]
  /\ Rep(IF "nofullmark" \in Defect THEN <<>> ELSE << [e |-> "full"] >>)
  /\ UNCHANGED <<R, W, G>>

EFlush ==
  /\ E.pc = "flush"
  /\ LET size == Len(E.tso)
         keep == TsoCap \div 8
         n0 == IF size > keep THEN size - keep ELSE 0
         n == IF n0 < E.leftover /\ "noleft" \notin Defect THEN E.leftover ELSE n0
     IN E' = [E EXCEPT !.tso = IF "nosort" \in Defect THEN @ ELSE Sort(@), !.todo = n, !.pc = "emit", !.back = "commit"]
  /\ UNCHANGED <<mon, R, W, G>>

DropEvs(r, x, exp) == IF x.q # exp /\ TsoCap > 0 /\ "nomark" \notin Defect THEN << [e |-> "drop", r |-> r, n |-> x.q - exp, bad |-> 0] >> ELSE <<>>

RecEv(r, x) == [e |-> "emit", r |-> r, id |-> x.id, q |-> x.q, ts |-> x.ts, sec |-> 1, area |-> "A", bad |-> 0]
Process(i, x, nxt) ==      \* flush_record() of one record; nxt: engine state afterwards
  LET r == E.idx[i].r IN
  CASE x.k = "rec" ->
         /\ E' = nxt
         /\ Rep(DropEvs(r, x, E.idx[i].exp) \o << RecEv(r, x) >>)
         /\ UNCHANGED G
    [] x.k = "flush" ->
         /\ E' = nxt
         /\ Rep(DropEvs(r, x, E.idx[i].exp) \o (IF "ackearly" \in Defect THEN <<>> ELSE << [e |-> "sink", n |-> mon.nem + Len(DropEvs(r, x, E.idx[i].exp))] >>))
         /\ G' = [G EXCEPT !.acked = @ \cup {<<r, x.q>>}]
    [] x.k = "ts" ->
         /\ E' = [nxt EXCEPT !.pc = "switch", !.cur = <<r, x.q, x.arg, nxt.pc>>]
         /\ Rep(DropEvs(r, x, E.idx[i].exp) \o << [e |-> "tsw", r |-> r, q |-> x.q, ts |-> x.ts, from |-> G.ts, to |-> x.arg] >>)
         /\ UNCHANGED G

\* emit records up to the next request: only processing a request has an effect on other threads
RECURSIVE EmitRecs(_, _)
EmitRecs(e, evs) ==
  IF e.todo = 0 \/ e.tso = <<>> \/ e.tso[1].x.k # "rec" THEN << e, evs >>
  ELSE LET y == e.tso[1] x == y.x r == e.idx[y.i].r IN
       EmitRecs([e EXCEPT !.tso = SubSeq(@, 2, Len(@)), !.todo = @ - 1, !.idx[y.i].exp = x.q + 1, !.idx[y.i].last = y.p,
                          !.dropped = IF x.q # e.idx[y.i].exp THEN @ + x.q - e.idx[y.i].exp ELSE @],
                evs \o DropEvs(r, x, e.idx[y.i].exp) \o << RecEv(r, x) >>)
NextExp(e) == R' = TLCEval([r \in 1..Len(R) |-> LET s == {i \in 1..Len(e.idx) : e.idx[i].r = r} IN IF s = {} THEN R[r] ELSE [R[r] EXCEPT !.nexp = e.idx[CHOOSE i \in s : TRUE].exp]])
EEmit ==
  /\ E.pc = "emit"
  /\ LET b == EmitRecs(E, <<>>) e == b[1] IN
     IF b[2] # <<>> \/ E.todo = 0 \/ E.tso = <<>>
     THEN /\ E' = IF e.todo > 0 /\ e.tso # <<>> THEN e
                  ELSE IF E.back = "scan" THEN [e EXCEPT !.pc = "scan"]
                  ELSE [e EXCEPT !.pc = "commit", !.leftover = Len(e.tso), !.tso = <<>>, !.i = 1]
          /\ Rep(b[2])
          /\ NextExp(e)
          /\ UNCHANGED <<W, G>>
     ELSE LET y == E.tso[1] x == y.x r == E.idx[y.i].r IN
          /\ Process(y.i, x, [E EXCEPT !.tso = SubSeq(@, 2, Len(@)), !.todo = @ - 1, !.idx[y.i].exp = x.q + 1, !.idx[y.i].last = y.p,
                                       !.dropped = IF x.q # E.idx[y.i].exp THEN @ + x.q - E.idx[y.i].exp ELSE @])
          /\ R' = [R EXCEPT ![r].nexp = x.q + 1]
          /\ UNCHANGED W

\* switch_timesource(): under the ring mutex
ESwitch ==
  /\ E.pc = "switch" /\ G.rm = 0
  /\ LET c == E.cur IN
     /\ R' = TLCEval([x \in 1..Len(R) |-> IF x \in G.map /\ ~("tspartial" \in Defect /\ x = 3) THEN [R[x] EXCEPT !.src = c[3]] ELSE R[x]])
     /\ G' = [G EXCEPT !.ts = c[3], !.acked = @ \cup {<<c[1], c[2]>>}]
     /\ E' = [E EXCEPT !.pc = c[4], !.cur = 0]
  /\ UNCHANGED <<mon, W>>

UnblockStep(r, nxt) ==
  /\ E' = nxt
  /\ IF R[r].act
     THEN LET s == {t \in 1..NT : W[t].pc = "sleep" /\ W[t].r = r /\ ~W[t].wake} IN
          /\ R' = [R EXCEPT ![r].act = FALSE]
          /\ IF s = {} THEN W' = W ELSE \E t \in s : W' = [W EXCEPT ![t].wake = TRUE]
     ELSE UNCHANGED <<R, W>>

ECommit ==     \* move the head past the last emitted record, then look for a blocked writer
  /\ E.pc = "commit"
  /\ IF E.i > Len(E.idx) THEN E' = [E EXCEPT !.pc = "sink"] /\ UNCHANGED <<mon, R, W, G>>
     ELSE IF ~Valid(E.i) \/ (E.idx[E.i].last = 0 /\ "unblock" \in Defect) THEN E' = [E EXCEPT !.i = @ + 1] /\ UNCHANGED <<mon, R, W, G>>
     ELSE LET r == E.idx[E.i].r n == E.idx[E.i].last IN
          IF n = 0 THEN UnblockStep(r, [E EXCEPT !.i = @ + 1]) /\ UNCHANGED <<mon, G>> ELSE
          /\ E' = [E EXCEPT !.pc = "unblock", !.idx[E.i].last = 0]
          /\ R' = [R EXCEPT ![r].q = SubSeq(@, n + 1, Len(@))]
          /\ Rep(IF n = 0 THEN <<>> ELSE << [e |-> "st", t |-> Engn, r |-> r, dq |-> 0, dd |-> 0, dc |-> -n] >>)
          /\ UNCHANGED <<W, G>>

EUnblock ==
  /\ E.pc = "unblock"
  /\ UnblockStep(E.idx[E.i].r, IF TsoCap > 0 THEN [E EXCEPT !.pc = "commit", !.i = @ + 1] ELSE [E EXCEPT !.pc = "norph"])
  /\ UNCHANGED <<mon, G>>

ESink ==
  /\ E.pc = "sink"
  /\ Rep(<< [e |-> "sink", n |-> mon.nem] >>)
  /\ LET fin == E.drain /\ ~G.dirty /\ E.idx = <<>> IN
     E' = [E EXCEPT !.pc = IF fin THEN "end" ELSE "pass", !.done = fin]
  /\ UNCHANGED <<R, W, G>>

\* without ordering: emit, commit and unblock ring by ring
ENoTso ==
  /\ E.pc = "scan" /\ TsoCap = 0
  /\ IF E.i > Len(E.idx) THEN E' = [E EXCEPT !.pc = "sink"] /\ UNCHANGED <<mon, R, W, G>>
     ELSE IF ~Valid(E.i) THEN E' = [E EXCEPT !.i = @ + 1, !.n = -1] /\ UNCHANGED <<mon, R, W, G>>
     ELSE LET r == E.idx[E.i].r IN
          IF E.n = -1 THEN /\ E' = [E EXCEPT !.n = Len(R[r].q), !.k = 1] /\ Rep(GoneEv(Engn, r)) /\ UNCHANGED <<R, W, G>>
          ELSE IF E.k <= E.n THEN
               LET x == R[r].q[E.k] IN
               /\ Process(E.i, x, [E EXCEPT !.k = @ + 1])
               /\ R' = [R EXCEPT ![r].nexp = x.q + 1]
               /\ UNCHANGED W
          ELSE /\ E' = [E EXCEPT !.pc = "unblock"]
               /\ R' = [R EXCEPT ![r].q = SubSeq(@, E.n + 1, Len(@))]
               /\ Rep(IF E.n = 0 THEN <<>> ELSE << [e |-> "st", t |-> Engn, r |-> r, dq |-> 0, dd |-> 0, dc |-> -E.n] >>)
               /\ UNCHANGED <<W, G>>
ENOrph ==
  /\ E.pc = "norph"
  /\ LET r == E.idx[E.i].r IN
     E' = IF R[r].ref = 1 /\ Len(R[r].q) = 0 THEN [E EXCEPT !.pc = "kill"] ELSE [E EXCEPT !.pc = "scan", !.i = @ + 1, !.n = -1]
  /\ UNCHANGED <<mon, R, W, G>>

(* ------------------------------------------------------------------ next-state relation *)
Thread(t) == StartOp(t) \/ Lock(t) \/ Room(t) \/ TakeSeq(t) \/ Stamp(t) \/ TestFull(t) \/ Block(t) \/ Wake(t) \/ WaitAck(t)
             \/ Add1(t) \/ Add2(t) \/ Add3(t) \/ AddRel(t) \/ Find1(t) \/ Find2(t) \/ Rel(t) \/ Finish(t) \/ FinRel(t)
EngineStep == EPass \/ EIndex \/ EScan \/ EOrph \/ EKill \/ EFullTso \/ EFlush \/ EEmit \/ ESwitch \/ ECommit \/ EUnblock \/ ESink \/ ENoTso \/ ENOrph
Next == (\E t \in 1..NT \ {Engn} : Thread(t)) \/ SetStop \/ Join \/ Started \/ End \/ EngineStep

Spec == Init /\ [][Next]_vars

\* Two states that differ only in absolute event positions behave alike: keep only how positions compare.
Pend == {t \in 1..NT : mon.th[t].o # ""}
View == LET nring == TLCEval([x \in 1..Len(mon.ring) |-> [mon.ring[x] EXCEPT !.ownSince = 0, !.busyAt = 0, !.freedAt = 0, !.disc = 0,
                         !.regAt = IF mon.ring[x].regAt < mon.lp THEN 1 ELSE 0]])
            nth == TLCEval([t \in 1..NT |-> IF t \in Pend THEN [mon.th[t] EXCEPT !.i0 = 0] ELSE [Thr0 EXCEPT !.stack = mon.th[t].stack, !.fr = mon.th[t].fr]])
            rel == TLCEval([t \in Pend |-> TLCEval([x \in 1..Len(mon.ring) |-> LET i0 == mon.th[t].i0 y == mon.ring[x] IN
                         <<y.ownSince < i0, y.regAt < i0, y.freedAt >= i0, y.busyAt >= i0, y.disc < i0>>])])
        IN << [mon EXCEPT !.l = 0, !.lp = 0, !.np = 0, !.bad = {<<b[1], b[2]>> : b \in @}, !.ring = nring, !.th = nth], rel, R, W, E, G >>

Good == mon.bad = {}
\* a state without successors must be the end of the run
NoStuck == ~ENABLED Next => W[1].pc = "end"
=============================================================================
