SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxLost = 0 Broken = TRUE
INVARIANTS Complete
VIEW View
CHECK_DEADLOCK FALSE
