SPECIFICATION Spec
CONSTANTS NI = 2 NL = 2 MaxAcc = 2 MaxLost = 1
INVARIANTS Conservation Published
VIEW View
CHECK_DEADLOCK FALSE
