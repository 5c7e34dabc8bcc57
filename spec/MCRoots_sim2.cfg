SPECIFICATION MCSpec
CONSTANTS
 Mode = "get"
 Pool <- RowPool
 MaxRows = 1
 Tries = 2
 MaxRuns = 3
 MaxKill = 1
 OldInPlace = FALSE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = FALSE
 NoRev = FALSE
 Record = TRUE
INVARIANTS NoViolation WholeFile Script
CHECK_DEADLOCK FALSE
