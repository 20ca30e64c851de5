CONSTANT Full = 1440
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
