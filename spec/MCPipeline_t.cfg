SPECIFICATION Spec
CONSTANTS NI = 2 NL = 2 MaxAcc = 3 MaxLost = 2
INVARIANTS Conservation Published
VIEW View
CHECK_DEADLOCK FALSE
