CONSTANTS Step = 60
 MaxLen = 5
 CheckTable = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Tile Inside Positive OrderFree Neighbours NorthSouth PolarCap Table Emit
