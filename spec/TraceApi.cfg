SPECIFICATION TraceSpec
VIEW View
INVARIANTS Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
