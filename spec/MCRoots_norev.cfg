SPECIFICATION MCSpec
CONSTANTS
 Mode = "read"
 Pool <- RowPool
 MaxRows = 3
 Tries = 1
 MaxRuns = 1
 MaxKill = 0
 OldInPlace = FALSE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = FALSE
 NoRev = TRUE
 Record = FALSE
INVARIANTS NoViolation WholeFile 
CHECK_DEADLOCK FALSE
