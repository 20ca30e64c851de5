SPECIFICATION Spec
CONSTANTS Sep = "#" NReg = 3 MaxSaves = 2
 Stats = {} Vars = {}
 Leaves <- EmitLeaves
INVARIANTS Emit
CHECK_DEADLOCK FALSE
