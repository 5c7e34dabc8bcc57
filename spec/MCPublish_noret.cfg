SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "retired"
 MaxRuns = 2
 MaxPubs = 2
 MaxTamper = 1
 MaxFail = 1
 Gaps <- G1
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = TRUE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
