SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- Two
 Kinds0 = {"1","2","f","fail","cut","p"}
 Tries = 2
 MaxRuns = 3
 MaxKill = 1
 MaxTerm = 1
 MaxFault = 1
 MaxSpoil = 1
 OldExit = FALSE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = FALSE
 Record = TRUE
 Depth = 80
INVARIANTS NoViolation Script

CHECK_DEADLOCK FALSE
