SPECIFICATION Spec
CONSTANTS Writers = {1, 2, 3, 4} MaxFaults = 2 MaxKills = 1 EmitHist = TRUE SharedTmp = FALSE DirectWrite = FALSE CleanMv = TRUE
INVARIANTS NeverPartial NoTempLeft Emit
