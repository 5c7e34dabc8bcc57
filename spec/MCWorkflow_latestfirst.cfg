SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 3
 MaxFail = 1
 MaxDay = 1
 MaxAgain = 1
 Ser = {"a"}
 Record = FALSE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = TRUE
 MarkEarly = FALSE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
