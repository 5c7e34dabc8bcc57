SPECIFICATION Spec
CONSTANTS
 C = {"C", "D"}
 Kind <- mcKind
 Static <- mcStatic
 LogSeq <- mcLogSeq
 MaxRuns = 3
 MaxCrash = 1
 MaxFault = 1
 MaxLoss = 1
 MaxRestart = 3
 MaxSaves = 4
 OldEpoch = FALSE
 OldRewind = FALSE
 Record = TRUE
 Depth = 45
INVARIANTS S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 Emit
CHECK_DEADLOCK FALSE
