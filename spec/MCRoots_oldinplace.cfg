SPECIFICATION MCSpec
CONSTANTS
 Mode = "get"
 Pool <- RowPool
 MaxRows = 1
 Tries = 2
 MaxRuns = 2
 MaxKill = 1
 OldInPlace = TRUE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = FALSE
 NoRev = FALSE
 Record = FALSE
INVARIANTS NoViolation  
CHECK_DEADLOCK FALSE
