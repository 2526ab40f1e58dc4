SPECIFICATION TraceSpec
VIEW View
INVARIANTS WellFormed Report
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
