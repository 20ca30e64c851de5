SPECIFICATION Spec
CONSTANTS MaxN = 3 Broken = TRUE Kinds <- MCKinds Values <- MCValues
INVARIANTS Joint TotalDrawn RisesBound OneBlock
CHECK_DEADLOCK FALSE
