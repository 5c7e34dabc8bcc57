SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "two"
 MaxRuns = 3
 MaxPubs = 2
 MaxTamper = 1
 MaxFail = 1
 Gaps <- G1
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
