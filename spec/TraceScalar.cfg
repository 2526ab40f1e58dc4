SPECIFICATION TraceSpec
VIEW View
INVARIANTS Roots Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
