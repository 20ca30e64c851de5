SPECIFICATION Spec
CONSTANTS Sep = "#" NReg = 2 MaxSaves = 1
 Stats <- DirtyStats Vars <- DirtyVars
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
