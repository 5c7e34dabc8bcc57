SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- One
 Kinds0 = {"1","2"}
 Tries = 1
 MaxRuns = 2
 MaxKill = 1
 MaxTerm = 0
 MaxFault = 0
 MaxSpoil = 0
 OldExit = FALSE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = TRUE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
