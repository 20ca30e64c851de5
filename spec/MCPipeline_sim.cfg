SPECIFICATION Spec
CONSTANTS NI = 3 NL = 2 MaxAcc = 3 MaxLost = 2
INVARIANTS Conservation Published EmitCase
CHECK_DEADLOCK FALSE
