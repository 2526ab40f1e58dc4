SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5
 Order = 4
INVARIANTS Mass Kolmogorov Semigroup JumpsAdd Stationary ObserveKeeps Flow ReturnFromIntegrals Factors Symmetric Textbook SelfRate
