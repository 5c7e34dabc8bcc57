cat > $1.cfg <<X
SPECIFICATION Spec
CONSTANTS
 C = {"C"}
 Kind <- mcKind
 Static <- mcStatic
 LogSeq <- mcLogSeq
 NE = $2
 MaxRuns = $3
 MaxCrash = $4
 MaxFault = $5
 MaxLoss = $6
 MaxRestart = $7
 MaxSaves = $8
 OldEpoch = ${9:-FALSE}
 OldRewind = ${10:-FALSE}
 Record = FALSE
 Depth = 0
VIEW View
INVARIANTS S01 S02 S03 S04 S05 S06 S07 S08 S09 S10
CHECK_DEADLOCK FALSE
X
