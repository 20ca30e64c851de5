SPECIFICATION TSpec
CONSTANTS Writers = {1} MaxFaults = 0 MaxKills = 0 EmitHist = FALSE SharedTmp = FALSE DirectWrite = FALSE CleanMv = TRUE
CHECK_DEADLOCK FALSE
