SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 2
 MaxFail = 1
 MaxDay = 0
 MaxAgain = 0
 Ser = {"a"}
 Record = FALSE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = FALSE
 MarkEarly = FALSE
 GoOn = TRUE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
