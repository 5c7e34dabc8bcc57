SPECIFICATION MCSpec
CONSTANTS
 Mode = "get"
 Pool <- RowPool
 MaxRows = 1
 Tries = 2
 MaxRuns = 3
 MaxKill = 2
 OldInPlace = FALSE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = FALSE
 NoRev = FALSE
 Record = FALSE
INVARIANTS NoViolation WholeFile 
CHECK_DEADLOCK FALSE
