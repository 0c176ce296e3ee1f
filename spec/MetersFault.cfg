SPECIFICATION Spec
CONSTANTS VL = 2 GROUP = 2 LEN = 5 FirstLaneOnly = FALSE
 Vals <- MVals
 Starts <- MStarts
INVARIANTS PeakSoFar EnergyBound
PROPERTIES EndIsAtomic OnlyEndsChange AllSeen
CHECK_DEADLOCK FALSE
