SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "one"
 MaxRuns = 3
 MaxPubs = 3
 MaxTamper = 1
 MaxFail = 0
 Gaps <- G1
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = TRUE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
