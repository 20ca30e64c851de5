SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxLost = 1 Broken = FALSE
INVARIANTS Emit
CONSTRAINT EmitConstraint
CHECK_DEADLOCK FALSE
