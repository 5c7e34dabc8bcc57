SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 2
 MaxFail = 0
 MaxDay = 0
 MaxAgain = 0
 Ser = {"a"}
 Record = FALSE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = FALSE
 MarkEarly = TRUE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
