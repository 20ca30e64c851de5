SPECIFICATION Spec
CONSTANTS MaxN = 3 Values <- MCValues Weights <- MCWeights OrderFree = FALSE
INVARIANTS Centred Pushes SelfCompare Swapped Const Unit Whole2 Backwards NoOrder
CHECK_DEADLOCK FALSE
