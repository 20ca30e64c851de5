SPECIFICATION Spec
CONSTANTS MaxLen = 3 Emit = TRUE
INVARIANTS Shape2 InOrder OneSided MissingStays Laws EmitCase
CHECK_DEADLOCK FALSE
