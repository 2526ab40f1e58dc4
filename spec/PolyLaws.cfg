CONSTANTS NReg = 1  Depth = 0  Kinds = {}
SPECIFICATION LSpec
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
