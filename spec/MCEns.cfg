SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Hi = 2
CONSTANT MaxN = 3
CONSTANT MaxM = 2
CONSTANT WithNan = TRUE
INVARIANTS SortForm SkipIsDrop MissingPropagates OrderFree Integral PairProduct PairVariance SortedPairing OneRank Economic Emit
