SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "two"
 MaxRuns = 5
 MaxPubs = 5
 MaxTamper = 2
 MaxFail = 1
 Gaps <- GAll
 Races = FALSE
 Parts = {"ints", "logs"}
 Record = TRUE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation Script
CHECK_DEADLOCK FALSE
