SPECIFICATION Spec
CONSTANTS MaxN = 6 Broken = FALSE Kinds = {"cluster"} Values = {1}
CONSTRAINT EmitOnly
INVARIANTS Emit
CHECK_DEADLOCK FALSE
