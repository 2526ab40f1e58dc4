SPECIFICATION TraceSpec
VIEW View
INVARIANT Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
