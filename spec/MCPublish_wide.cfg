SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "two"
 MaxRuns = 3
 MaxPubs = 2
 MaxTamper = 1
 MaxFail = 0
 Gaps <- G1
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = TRUE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
