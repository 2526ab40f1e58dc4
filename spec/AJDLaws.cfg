SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4
 Order = 3
INVARIANTS Mass Kolmogorov Semigroup JumpsAdd Stationary ObserveKeeps Flow ReturnFromIntegrals Factors Symmetric Textbook SelfRate
