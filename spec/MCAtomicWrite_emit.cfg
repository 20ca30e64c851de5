SPECIFICATION Spec
CONSTANTS Writers = {1, 2} MaxFaults = 1 MaxKills = 1 EmitHist = TRUE SharedTmp = FALSE DirectWrite = FALSE CleanMv = TRUE
INVARIANTS NeverPartial NoTempLeft Emit
