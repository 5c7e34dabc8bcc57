SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "one"
 MaxRuns = 2
 MaxPubs = 2
 MaxTamper = 1
 MaxFail = 1
 Gaps <- G1
 Races = FALSE
 Parts = {"ints"}
 Record = FALSE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation 
CHECK_DEADLOCK FALSE
