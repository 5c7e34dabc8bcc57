SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 3
 MaxFail = 0
 MaxDay = 0
 MaxAgain = 0
 Ser = {"a"}
 Record = FALSE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = TRUE
 LatestFirst = FALSE
 MarkEarly = FALSE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
