SPECIFICATION MCSpec
CONSTANTS
 MaxEdit = 6
 MaxRun = 3
 MaxFault = 2
 Record = FALSE
 Blind = FALSE
 Always = FALSE
 NoGate = FALSE
 Swallow = FALSE
 Reread = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
