SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- Two
 Kinds0 = {"1","fail"}
 Tries = 1
 MaxRuns = 1
 MaxKill = 0
 MaxTerm = 1
 MaxFault = 0
 MaxSpoil = 0
 OldExit = TRUE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = FALSE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
