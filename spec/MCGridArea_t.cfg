CONSTANTS Step = 36
 MaxLen = 6
 CheckTable = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Tile Inside Positive OrderFree Neighbours NorthSouth PolarCap Table
