SPECIFICATION Spec
CONSTANTS MaxLen = 0 Emit = FALSE
INVARIANTS OrderIrrelevant
CHECK_DEADLOCK FALSE
