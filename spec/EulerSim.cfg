SPECIFICATION Spec
CONSTRAINT Unsolved
INVARIANTS VarianceNonNegative JumpsInOrder
POSTCONDITION Report
CHECK_DEADLOCK FALSE
