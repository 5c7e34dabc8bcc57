SPECIFICATION MCSpec
CONSTANTS
 MaxEdit = 4
 MaxRun = 2
 MaxFault = 1
 Record = FALSE
 Blind = TRUE
 Always = FALSE
 NoGate = FALSE
 Swallow = FALSE
 Reread = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
