SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "one"
 MaxRuns = 4
 MaxPubs = 3
 MaxTamper = 0
 MaxFail = 0
 Gaps <- GBack
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = TRUE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
