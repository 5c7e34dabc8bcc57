SPECIFICATION Spec
CONSTANTS
 C = {"C"}
 Kind <- mcKind
 Static <- mcStatic
 LogSeq <- mcLogSeq
 NE = 3
 MaxRuns = 2
 MaxCrash = 0
 MaxFault = 1
 MaxLoss = 0
 MaxRestart = 1
 MaxSaves = 2
 OldEpoch = FALSE
 OldRewind = FALSE
 Record = FALSE
 Depth = 0
VIEW View
INVARIANTS S01 S02 S03 S04 S05 S06 S07 S08 S09 S10
CHECK_DEADLOCK FALSE
