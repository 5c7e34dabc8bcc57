SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 5
 MaxFail = 2
 MaxDay = 2
 MaxAgain = 1
 Ser = {"a", "b"}
 Record = TRUE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = FALSE
 MarkEarly = FALSE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation Script

CHECK_DEADLOCK FALSE
