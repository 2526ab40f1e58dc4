------------------------------ MODULE PolyLaws ------------------------------
EXTENDS PolyAlg
Laws == LawsHold
LInit == Init /\ PrintT(<<"LAWS", Cardinality(SmallMaps), Laws>>) /\ Laws
LSpec == LInit /\ [][FALSE]_vars
=============================================================================
