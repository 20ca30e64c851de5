SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Product Slope
