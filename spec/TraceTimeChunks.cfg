SPECIFICATION TSpec
CONSTANTS MaxN = 1 MaxC = 1
CHECK_DEADLOCK FALSE
