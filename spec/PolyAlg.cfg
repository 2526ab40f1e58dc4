CONSTANTS NReg = 4  Depth = 14  Kinds = {"ring", "place", "mulx", "type"}
SPECIFICATION Spec
INVARIANTS WellFormed Emit
CHECK_DEADLOCK FALSE
