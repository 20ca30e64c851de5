SPECIFICATION TSpec
CONSTANTS Elems = {1} Bins = {1}
CHECK_DEADLOCK FALSE
