SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "one"
 MaxRuns = 3
 MaxPubs = 3
 MaxTamper = 0
 MaxFail = 1
 Gaps <- G1
 Races = FALSE
 Parts = {}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
