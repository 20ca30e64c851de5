SPECIFICATION Spec
CONSTANTS Writers = {1, 2, 3} MaxFaults = 3 MaxKills = 2 EmitHist = FALSE SharedTmp = FALSE DirectWrite = FALSE CleanMv = TRUE
INVARIANTS NeverPartial OnlyCompleteVersions OkMeansPublished ErrKeepsOld NoTempLeft FinalIsSomebody
PROPERTY DestChangesAtomically
