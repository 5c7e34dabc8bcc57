SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- One
 Kinds0 = {"1"}
 Tries = 1
 MaxRuns = 1
 MaxKill = 0
 MaxTerm = 0
 MaxFault = 0
 MaxSpoil = 0
 OldExit = FALSE
 OldList = FALSE
 OldName = TRUE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = FALSE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
