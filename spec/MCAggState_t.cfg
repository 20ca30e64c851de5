SPECIFICATION Spec
CONSTANTS NReg = 3 Labels = {1, 2, 3}
INVARIANTS Conservation FinalIsTotal ZeroIsIdentity UnionOfLabels EmitCase
CHECK_DEADLOCK FALSE
