SPECIFICATION MCSpec
CONSTANTS
 UrlsOf <- One
 Kinds0 = {"1","2","f","fail","cut","p"}
 Tries = 2
 MaxRuns = 2
 MaxKill = 1
 MaxTerm = 0
 MaxFault = 1
 MaxSpoil = 1
 OldExit = FALSE
 OldList = FALSE
 OldName = FALSE
 OldAudit = FALSE
 NoVerify = FALSE
 InPlace = FALSE
 Record = FALSE
 Depth = 80
INVARIANTS NoViolation 

CHECK_DEADLOCK FALSE
