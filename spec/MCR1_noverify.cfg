SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- One
 Kinds0 = {"1","f"}
 Tries = 1
 MaxRuns = 2
 MaxKill = 0
 MaxTerm = 0
 MaxFault = 0
 MaxSpoil = 0
 OldExit = FALSE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = TRUE
 InPlace = FALSE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
