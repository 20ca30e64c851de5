SPECIFICATION Spec
CONSTANTS MaxN = 3 Broken = FALSE Kinds <- MCKinds Values <- MCValues
INVARIANTS Joint TotalDrawn RisesBound OneBlock
CHECK_DEADLOCK FALSE
