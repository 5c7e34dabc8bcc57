SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- Two
 Kinds0 = {"1","f","fail"}
 Tries = 1
 MaxRuns = 2
 MaxKill = 1
 MaxTerm = 1
 MaxFault = 0
 MaxSpoil = 1
 OldExit = FALSE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = FALSE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
