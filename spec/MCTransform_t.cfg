SPECIFICATION Spec
CONSTANTS MaxLen = 2 Emit = FALSE
INVARIANTS Shape2 InOrder OneSided MissingStays Laws
CHECK_DEADLOCK FALSE
