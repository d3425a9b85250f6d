SPECIFICATION Spec
CONSTANT NT = 8
INVARIANT Report
CHECK_DEADLOCK FALSE
