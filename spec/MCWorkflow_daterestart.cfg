SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 3
 MaxFail = 0
 MaxDay = 1
 MaxAgain = 0
 Ser = {"a"}
 Record = FALSE
 DateRestart = TRUE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = FALSE
 MarkEarly = FALSE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
