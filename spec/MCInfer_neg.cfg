SPECIFICATION Spec
CONSTANTS MaxN = 3 Values <- MCValues Weights <- MCWeights OrderFree = TRUE
INVARIANTS NoOrder
CHECK_DEADLOCK FALSE
