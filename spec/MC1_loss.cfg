SPECIFICATION Spec
CONSTANTS
 C = {"C"}
 Kind <- mcKind
 Static <- mcStatic
 LogSeq <- mcLogSeq
 NE = 2
 MaxRuns = 2
 MaxCrash = 0
 MaxFault = 0
 MaxLoss = 1
 MaxRestart = 2
 MaxSaves = 2
 OldEpoch = FALSE
 OldRewind = FALSE
 Record = FALSE
 Depth = 0
VIEW View
INVARIANTS S01 S02 S03 S04 S05 S06 S07 S08 S09 S10
CHECK_DEADLOCK FALSE
