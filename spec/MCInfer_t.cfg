SPECIFICATION Spec
CONSTANTS MaxN = 4 Values <- MCValues Weights <- MCWeights OrderFree = FALSE
INVARIANTS Centred Pushes SelfCompare Swapped Const Unit Whole2 Backwards NoOrder
CHECK_DEADLOCK FALSE
