SPECIFICATION Spec
CONSTANTS Sep = "#" NReg = 3 MaxSaves = 2
 Stats <- CleanStats Vars <- CleanVars
INVARIANTS RoundTrip ColumnsDistinct TotalKept
CHECK_DEADLOCK FALSE
