SPECIFICATION MCSpec
CONSTANTS
 Mode = "read"
 Pool <- RowPool
 MaxRows = 4
 Tries = 1
 MaxRuns = 1
 MaxKill = 0
 OldInPlace = FALSE
 OldFlag = FALSE
 Early = FALSE
 FirstKey = FALSE
 LastRow = FALSE
 NoRev = FALSE
 Record = TRUE
INVARIANTS NoViolation WholeFile Script
CHECK_DEADLOCK FALSE
