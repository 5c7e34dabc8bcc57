SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = 3
 MaxFail = 1
 MaxDay = 2
 MaxAgain = 0
 Ser = {"a"}
 Record = FALSE
 DateRestart = FALSE
 BucketOnly = FALSE
 Reuse = FALSE
 OneLatest = FALSE
 LatestFirst = FALSE
 MarkEarly = FALSE
 GoOn = FALSE
 StrOrder = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
