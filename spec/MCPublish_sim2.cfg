SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "retired"
 MaxRuns = 4
 MaxPubs = 4
 MaxTamper = 2
 MaxFail = 2
 Gaps <- G12
 Races = FALSE
 Parts = {"ints", "logs"}
 Record = TRUE
 OldTimes = FALSE
 StrMin = FALSE
 LazyClear = FALSE
 NoRetReview = FALSE
 NoVerify = FALSE
 NoReady = FALSE
 WideClear = FALSE
 KeepStray = FALSE
 NewestOnly = FALSE
INVARIANTS NoViolation Script
CHECK_DEADLOCK FALSE
