------------------------------ MODULE OutFileDesign ------------------------------
(* Design of the file output: the constructing and destroying thread M, the writer W, a thread S that switches the name   *)
(* and the helper H, in small steps with the two mutexes, the condition variable and the directory.  Every step that is   *)
(* visible from outside is an event of OutFile, whose verdict is the invariant.                                           *)
EXTENDS OutFile

CONSTANTS Names,    \* names given by the user: the first to the constructor
          Count, Max, Cap,       \* chunks, size limit, capacity of the buffer in units
          ProgW,    \* operations of the writer
          ProgS,    \* names switched to (indices of Names)
          Faults,   \* how many times the system may fail
          Left,     \* link left behind by an earlier run: None or its target
          Defect

VARIABLES s, pc, wp, sp, rm, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, buf, k, ofd, oidx, fl, wfd
vars == << s, pc, wp, sp, rm, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, buf, k, ofd, oidx, fl, wfd >>

Bug(d) == d \in Defect
Unit(n) == << "D", 1, n, 14 >>
Hdr(n, first) == << "H", n, first, 10 >>
FileEv(n, keep, add) == [e |-> "f", n |-> n, gone |-> 0, keep |-> keep, add |-> add, part |-> 0]
Append2(x, n, add) == OutStep(x, FileEv(n, Len(File(x, n).tok), add))
Trunc(x, n) == OutStep(x, FileEv(n, 0, << >>))
LinkEv(x, n, to) == OutStep(x, [e |-> "l", n |-> n, gone |-> 0, to |-> to])
Unlink(x, n) == OutStep(x, [e |-> "l", n |-> n, gone |-> 1, to |-> << >>])
NameOf(i) == Naming(Names[i], Count)
Cur == Chunk(nam, idx)

Init ==
  /\ s = IF Left = None THEN Out0 ELSE [Out0 EXCEPT !.link = Put(@, NameOf(1).lnk, Left)]
  /\ pc = [m |-> "c0", w |-> "w0", s |-> "s0", h |-> "off"]
  /\ wp = 1 /\ sp = 1 /\ rm = "" /\ wm = "" /\ wait = FALSE /\ woken = FALSE /\ pend = FALSE /\ kill = FALSE /\ hup = FALSE
  /\ nam = Nam0 /\ idx = 0 /\ fd = None /\ sz = 0 /\ buf = << >> /\ k = 0 /\ ofd = None /\ oidx = 0 /\ fl = Faults /\ wfd = None

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
UW == UNCHANGED << wp, buf, k, wfd >>
US == UNCHANGED << sp >>
UH == UNCHANGED << ofd, oidx >>
UC == UNCHANGED << rm, wm, wait, woken, pend, kill, hup >>

(* ------------------------------------------------------------------ constructor and destructor *)
Main ==
  \/ /\ pc.m = "c0" /\ s' = OutStep(s, [e |-> "ctor", name |-> Names[1], count |-> Count, max |-> Max])
     /\ nam' = NameOf(1) /\ UNCHANGED hup /\ Go("m", "c1")
     /\ UW /\ US /\ UH /\ UNCHANGED << rm, wm, wait, woken, pend, kill, idx, fd, sz, fl >>
  \/ /\ pc.m = "c1" /\ idx' = Start(s, nam) /\ Go("m", "c2") /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << s, nam, fd, sz, fl >>
  \/ /\ pc.m = "c2" /\ s' = Trunc(s, Cur) /\ fd' = Cur /\ Go("m", IF Bug("linkfirst") THEN "c4" ELSE "c3")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, sz, fl >>
  \/ /\ pc.m = "c3" /\ s' = Append2(s, fd, << Hdr(fd, 1) >>) /\ sz' = 10 /\ Go("m", IF Bug("linkfirst") THEN "c5" ELSE "c4")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, fl >>
  \/ /\ pc.m = "c4" /\ s' = LinkEv(s, nam.lnk, fd) /\ Go("m", IF Bug("linkfirst") THEN "c3" ELSE "c5")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "c5" /\ hup' = TRUE /\ pc' = [pc EXCEPT !.m = "c6", !.h = IF hup THEN @ ELSE "h0"]
     /\ pend' = (pend \/ sz >= Max)         \* the header may reach the limit
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wm, wait, woken, kill, nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "c6" /\ s' = OutStep(s, [e |-> "ctorret", ok |-> 1, nm |-> NameOf(1).lnk]) /\ Go("m", "run")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "run" /\ pc.w = "done" /\ pc.s = "done" /\ s' = OutStep(s, [e |-> "dtor", nm |-> nam.lnk])
     /\ Go("m", IF Bug("killunlocked") THEN "d0" ELSE "d1")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "d0" /\ kill' = TRUE /\ Go("m", "d1")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wm, wait, woken, pend, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "d1" /\ (rm = "" \/ Bug("killunlocked")) /\ kill' = TRUE /\ woken' = (woken \/ wait) /\ wait' = FALSE /\ Go("m", "d2")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wm, pend, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "d2" /\ pc.h = "done" /\ Go("m", "d3")
     /\ s' = Append2(s, fd, buf \o << << "F", << >>, 0, 4 >> >>) /\ buf' = << >>
     /\ US /\ UH /\ UC /\ UNCHANGED << wp, k, wfd, nam, idx, fd, sz, fl >>
  \/ /\ pc.m = "d3" /\ s' = OutStep(s, [e |-> "dtorret"]) /\ Go("m", "done")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>

(* ------------------------------------------------------------------ writer *)
Ran == pc.m = "run"
NextW == IF wp < Len(ProgW) THEN "w0" ELSE "done"
Quiet == wait /\ ~woken /\ ~pend /\ rm = "" /\ pc.s = "done"
Writer ==
  \/ /\ pc.w = "w0" /\ Ran /\ Len(ProgW) = 0 /\ Go("w", "done") /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << s, nam, idx, fd, sz, fl >>
  \/ /\ pc.w = "w0" /\ Ran /\ wp <= Len(ProgW)
     /\ CASE ProgW[wp] = "p" ->
               /\ s' = OutStep(s, [e |-> "d", t |-> 1, k |-> k + 1]) /\ k' = k + 1 /\ buf' = Append(buf, Unit(k + 1))
               /\ IF Len(buf) >= Cap THEN Go("w", "lock") /\ UNCHANGED wp ELSE Go("w", NextW) /\ wp' = wp + 1
          [] ProgW[wp] = "f" -> (IF buf = << >> THEN Go("w", "ret") ELSE Go("w", "lock")) /\ UNCHANGED << s, k, buf, wp >>
          [] ProgW[wp] = "q" -> Quiet /\ s' = OutStep(s, [e |-> "quiet"]) /\ Go("w", NextW) /\ wp' = wp + 1 /\ UNCHANGED << k, buf >>
          [] ProgW[wp] = "z" -> Quiet /\ Go("w", NextW) /\ wp' = wp + 1 /\ UNCHANGED << s, k, buf >>
          [] ProgW[wp] = "i" -> Quiet /\ s' = OutStep(s, [e |-> "idle", ix |-> idx]) /\ Go("w", NextW) /\ wp' = wp + 1 /\ UNCHANGED << k, buf >>
     /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl, wfd >>
  \/ /\ pc.w = "lock" /\ (wm = "" \/ Bug("nolock")) /\ wm' = (IF Bug("nolock") THEN wm ELSE "w") /\ wfd' = fd /\ Go("w", "write")
     /\ US /\ UH /\ UNCHANGED << s, rm, wait, woken, pend, kill, hup, nam, idx, fd, sz, fl, wp, buf, k >>
  \/ /\ pc.w = "write" /\ s' = Append2(s, wfd, buf) /\ sz' = sz + 14 * Len(buf) /\ buf' = << >>
     /\ Go("w", IF sz' >= Max /\ ~pend THEN "try" ELSE "unlock")
     /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, fl, wp, k, wfd >>
  \/ /\ pc.w = "try" /\ Go("w", "unlock")
     /\ IF rm = "" THEN pend' = TRUE /\ woken' = (woken \/ wait) /\ wait' = FALSE ELSE UNCHANGED << pend, woken, wait >>
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wm, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.w = "unlock" /\ wm' = (IF wm = "w" THEN "" ELSE wm) /\ Go("w", "ret")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wait, woken, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.w = "ret" /\ s' = (IF ProgW[wp] = "f" THEN OutStep(s, [e |-> "fl"]) ELSE s) /\ Go("w", NextW) /\ wp' = wp + 1
     /\ US /\ UH /\ UC /\ UNCHANGED << buf, k, wfd, nam, idx, fd, sz, fl >>

(* ------------------------------------------------------------------ name switch *)
Switch ==
  \/ /\ pc.s = "s0" /\ Ran /\ sp > Len(ProgS) /\ Go("s", "done") /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << s, nam, idx, fd, sz, fl >>
  \/ /\ pc.s = "s0" /\ Ran /\ sp <= Len(ProgS) /\ s' = OutStep(s, [e |-> "sw", name |-> Names[ProgS[sp]]]) /\ Go("s", "s1")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.s = "s1" /\ rm = "" /\ rm' = "s" /\ Go("s", "s2")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.s = "s2" /\ rm' = "" /\ pend' = TRUE /\ woken' = (woken \/ wait) /\ wait' = FALSE /\ Go("s", "s3")
     /\ LET n == NameOf(ProgS[sp]) i == Start(s, n) IN nam' = n /\ idx' = IF Bug("skip") THEN i ELSE (IF i = 0 THEN Count ELSE i) - 1
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, kill, hup, fd, sz, fl >>
  \/ /\ pc.s = "s3" /\ s' = OutStep(s, [e |-> "swret"]) /\ sp' = sp + 1 /\ Go("s", "s0")
     /\ UW /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>

(* ------------------------------------------------------------------ helper *)
Fails(kind) == fl > 0 /\ fl' = fl - 1
Next1 == (idx + 1) % Count
Helper ==
  \/ /\ pc.h = "h0" /\ rm = "" /\ rm' = "h" /\ Go("h", IF Bug("lostsig") THEN "hw" ELSE "h1")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "h1"
     /\ IF kill THEN rm' = "" /\ Go("h", "done")
        ELSE UNCHANGED rm /\ Go("h", IF pend THEN "r1" ELSE "hw")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "hw" /\ rm' = "" /\ wait' = TRUE /\ Go("h", "h2")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, woken, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "h2" /\ woken /\ rm = "" /\ rm' = "h" /\ woken' = FALSE /\ Go("h", "h1")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, wm, wait, pend, kill, hup, nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "r1" /\ ofd' = fd /\ oidx' = idx
     /\ \/ idx' = Next1 /\ s' = Trunc(s, Chunk(nam, Next1)) /\ Go("h", IF Bug("linkearly") THEN "r4" ELSE "r2") /\ UNCHANGED fl
        \/ Fails("open") /\ s' = OutStep(s, [e |-> "fault", k |-> "open"]) /\ idx' = (IF Bug("skipfail") THEN Next1 ELSE idx) /\ Go("h", "r7")
     /\ UW /\ US /\ UC /\ UNCHANGED << nam, fd, sz >>
  \/ /\ pc.h = "r2"
     /\ \/ s' = Append2(s, Cur, << Hdr(Cur, 0) >>) /\ Go("h", IF Bug("footearly") THEN "r5" ELSE "r3") /\ UNCHANGED << fl, idx >>
        \/ Fails("hdr") /\ s' = OutStep(s, [e |-> "fault", k |-> "hdr"]) /\ idx' = (IF Bug("skipfail") THEN idx ELSE oidx) /\ Go("h", "r7")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, fd, sz >>
  \/ /\ pc.h = "r3" /\ wm = "" /\ fd' = Cur /\ sz' = 0 /\ Go("h", IF Bug("linkearly") THEN "r5" ELSE "r4")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << s, nam, idx, fl >>
  \/ /\ pc.h = "r4" /\ (IF Bug("unlink") THEN s' = Unlink(s, nam.lnk) /\ Go("h", "r4b") ELSE s' = LinkEv(s, nam.lnk, Cur) /\ Go("h", IF Bug("linkearly") THEN "r2" ELSE IF Bug("footearly") THEN "r6" ELSE "r5"))
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "r4b" /\ s' = LinkEv(s, nam.lnk, Cur) /\ Go("h", "r5") /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.h = "r5" /\ s' = Append2(s, ofd, << << "F", Cur, 0, 8 >> >>) /\ Go("h", IF Bug("footearly") THEN "r3" ELSE "r6")
     /\ UW /\ US /\ UH /\ UC /\ UNCHANGED << nam, idx, fd, sz, fl >>
  \/ /\ pc.h \in {"r6", "r7"} /\ pend' = FALSE /\ Go("h", "h1")
     /\ UW /\ US /\ UH /\ UNCHANGED << s, rm, wm, wait, woken, kill, hup, nam, idx, fd, sz, fl >>

Done == pc.m = "done" /\ UNCHANGED vars
Next == Main \/ Writer \/ Switch \/ Helper \/ Done
Spec == Init /\ [][Next]_vars
Good == s.bad = {}
View == << [s EXCEPT !.l = 0], pc, wp, sp, rm, wm, wait, woken, pend, kill, hup, nam, idx, fd, sz, buf, k, ofd, oidx, fl, wfd >>
=============================================================================
