SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Hi = 3
CONSTANT MaxN = 4
CONSTANT MaxM = 3
CONSTANT WithNan = TRUE
INVARIANTS SortForm SkipIsDrop MissingPropagates OrderFree Integral PairProduct PairVariance SortedPairing OneRank Economic Emit
