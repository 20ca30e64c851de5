SPECIFICATION Spec
CONSTANTS Elems = {1, 2, 3} Bins = {1}
INVARIANTS AccIsDefinition InfinityCounts NoLeak NaNPropagates EmitCase
VIEW View
CHECK_DEADLOCK FALSE
