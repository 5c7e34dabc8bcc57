SPECIFICATION MCSpec
CONSTANTS
 MaxEdit = 7
 MaxRun = 4
 MaxFault = 2
 Record = TRUE
 Blind = FALSE
 Always = FALSE
 NoGate = FALSE
 Swallow = FALSE
 Reread = FALSE
INVARIANTS NoViolation Script

CHECK_DEADLOCK FALSE
