SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "two"
 MaxRuns = 4
 MaxPubs = 3
 MaxTamper = 1
 MaxFail = 1
 Gaps <- G13
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
