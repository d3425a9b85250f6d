------------------------------ MODULE MCEngine ------------------------------
(* Scenarios of the design specification; check.py writes one configuration per scenario and defect *)
EXTENDS Engine

post(r) == [o |-> "post", r |-> r]
flush(r, to) == [o |-> "flush", r |-> r, to |-> to]
chts(r, src, to) == [o |-> "chts", r |-> r, src |-> src, to |-> to]
add(n, c, shr, reu) == [o |-> "add", name |-> n, cap |-> c, shr |-> shr, reu |-> reu]
find(n) == [o |-> "find", name |-> n]
rel(r) == [o |-> "rel", r |-> r]
stop == [o |-> "stop"]
start == [o |-> "start"]
ring(n, c, p, blk, shr) == [name |-> n, cap |-> c, prio |-> p, blk |-> blk, shr |-> shr, reu |-> FALSE]

\* core: a private and a shared ring, three writers, small rings: drops and markers
CoreSetup == << ring("P", 3, 1, FALSE, FALSE), ring("S", 3, 2, FALSE, TRUE) >>
CoreProg == TLCEval([t \in 3..5 |-> IF t = 3 THEN << post(2), post(2), post(2) >> ELSE << post(3), post(3) >>])
CoreMain == << rel(2), rel(3), stop >>

CoreProgS == TLCEval([t \in 3..5 |-> IF t = 3 THEN << post(2), post(2) >> ELSE IF t = 4 THEN << post(3), post(3) >> ELSE << post(3) >>])
CoreSetupS == << ring("P", 2, 1, FALSE, FALSE), ring("S", 2, 2, FALSE, TRUE) >>

\* order: two private rings and a clock that may go backwards, TSO buffer smaller than the rings
OrderSetup == << ring("P", 4, 1, FALSE, FALSE), ring("Q", 4, 2, FALSE, FALSE) >>
OrderProg == TLCEval([t \in 3..4 |-> IF t = 3 THEN << post(2), post(2) >> ELSE << post(3), post(3) >>])

OrderProgS == TLCEval([t \in 3..4 |-> IF t = 3 THEN << post(2), post(2) >> ELSE << post(3) >>])

\* block: a shared blocking ring of one slot
BlockSetup == << ring("B", 2, 1, TRUE, TRUE) >>
BlockProg == TLCEval([t \in 3..5 |-> << post(2) >>])
BlockProgS == TLCEval([t \in 3..4 |-> << post(2), post(2) >>])
BlockProg3 == TLCEval([t \in 3..5 |-> IF t = 3 THEN << post(2), post(2), post(2) >> ELSE << post(2), post(2) >>])
BlockMain == << rel(2), stop >>

\* flush: flush requests with and without a timeout between records of two threads
FlushSetup == << ring("S", 3, 1, FALSE, TRUE) >>
FlushProg == TLCEval([t \in 3..4 |-> IF t = 3 THEN << post(2), flush(2, Inf), post(2) >> ELSE << post(2), flush(2, 5), post(2) >>])
FlushMain == << rel(2), stop >>

\* life: add, find, release against the engine's removal of orphans
LifeProg == TLCEval([t \in 3..5 |-> IF t = 3 THEN << add("A", 3, FALSE, TRUE), post(0), rel(0), add("A", 3, FALSE, TRUE), post(0) >>
                            ELSE IF t = 4 THEN << find("A"), rel(0) >>
                            ELSE << add("A", 3, FALSE, TRUE), rel(0) >>])
LifeProgS == TLCEval([t \in 3..5 |-> IF t = 3 THEN << add("A", 3, FALSE, TRUE), post(0), rel(0) >>
                            ELSE IF t = 4 THEN << find("A"), rel(0) >>
                            ELSE << add("A", 3, FALSE, TRUE), rel(0) >>])
LifeProgT == TLCEval([t \in 3..4 |-> IF t = 3 THEN << add("A", 3, FALSE, TRUE), post(0), rel(0), add("A", 3, FALSE, TRUE), post(0) >>
                            ELSE << add("A", 3, FALSE, TRUE), rel(0) >>])
LifeSetup == <<>>
LifeMain == << stop >>
LifeProg2 == TLCEval([t \in 3..4 |-> IF t = 3 THEN << add("A", 3, TRUE, FALSE), post(0), rel(0), add("A", 3, TRUE, FALSE), post(0) >>
                             ELSE << add("A", 3, TRUE, FALSE), post(0), rel(0), find("A"), post(0) >>])

\* ts: time source changes against registrations and records
TsSetup == << ring("P", 4, 1, FALSE, TRUE), ring("Q", 4, 2, FALSE, FALSE) >>
TsProg == TLCEval([t \in 3..5 |-> IF t = 3 THEN << chts(2, 2, Inf), post(2) >> ELSE IF t = 4 THEN << post(3), post(3) >> ELSE << add("N", 3, FALSE, FALSE), post(0) >>])
TsProgS == TLCEval([t \in 3..5 |-> IF t = 3 THEN << chts(2, 2, Inf) >> ELSE IF t = 4 THEN << post(3) >> ELSE << add("N", 3, FALSE, FALSE), post(0) >>])
TsMain == << rel(2), rel(3), stop >>

\* restart: the default ring lives through two engines
RestartSetup == << ring("P", 3, 1, FALSE, FALSE) >>
RestartProg == TLCEval([t \in 3..4 |-> IF t = 3 THEN << post(1), post(1), post(1) >> ELSE << post(2), post(1) >>])
RestartProg2 == TLCEval([t \in 3..4 |-> IF t = 3 THEN << post(1), post(1), flush(1, Inf), post(1) >> ELSE << post(2), post(1), chts(1, 2, 0), post(2) >>])
RestartMain == << rel(2), stop, post(1), post(1), post(1), start, post(1), stop >>
=============================================================================
