SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "one"
 MaxRuns = 4
 MaxPubs = 4
 MaxTamper = 2
 MaxFail = 1
 Gaps <- G13
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
