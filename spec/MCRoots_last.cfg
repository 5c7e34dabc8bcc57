SPECIFICATION MCSpec
CONSTANTS
 Mode = "read"
 Pool <- UrlPool
 MaxRows = 3
 Tries = 1
 MaxRuns = 1
 MaxKill = 0
 OldInPlace = FALSE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = TRUE
 NoRev = FALSE
 Record = FALSE
INVARIANTS NoViolation WholeFile 
CHECK_DEADLOCK FALSE
